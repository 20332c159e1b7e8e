// C09: conjugation, hermiticity, real and imaginary parts.  Bound: random tables (<= 14 symbols), <= 12 terms, both orderings.
#include "poly.h"
using namespace Moment;
using namespace vp;

int main(int argc, char** argv) {
    vp::init(argc, argv);
    Rng rng{vp::seed + 77};
    const int T = vp::thorough ? 2500 : 250, N = vp::thorough ? 200 : 60;
    vp::group("symbols", [&] {
        for (int it = 0; it < T; ++it) {
            Table t = make_table(rng, 2 + rng(2), 3 + rng(8)); const auto& tab = *t.tab;
            for (auto& s : tab) {
                auto in = VP_IN(t.desc << " symbol " << s.Id());
                if (s.Id() < 2 || !s.has_sequence()) continue;
                auto c = s.sequence().conjugate();
                vp::check(s.is_hermitian() == (c == s.sequence()), "symbol is Hermitian iff its word equals its conjugate", in, VP_IN(s.is_hermitian()));
                vp::check(c.hash() == s.hash_conj() && c == s.sequence_conj(), "symbol stores the conjugate word", in, VP_IN(s.hash_conj()));
            }
        }
    });
    vp::group("polynomials", [&] {
        for (int it = 0; it < T; ++it) {
            Table t = make_table(rng, 2 + rng(2), 3 + rng(8)); const auto& tab = *t.tab;
            for (bool h : {false, true}) {
                auto F = make_factory(tab, h); auto& f = *F.f;
                for (int k = 0; k < N; ++k) {
                    size_t ids = rng.coin() ? 4 : 0;
                    Polynomial a = f(rterms(rng, tab, rng.coin() ? 2 : 6, ids)), b = f(rterms(rng, tab, rng.coin() ? 2 : 6, ids));
                    switch (rng(6)) { // hermitian / antihermitian by construction
                        case 0: { auto m = value(a, tab); m = padd(m, pconj(m, tab)); Polynomial::storage_t s; for (auto& [kk, c] : m) s.emplace_back(kk.first, c, kk.second); a = f(std::move(s)); break; }
                        case 1: { auto m = value(a, tab); m = padd(m, pconj(m, tab), -1.0); Polynomial::storage_t s; for (auto& [kk, c] : m) s.emplace_back(kk.first, c, kk.second); a = f(std::move(s)); break; }
                        case 2: if (!a.empty()) { auto m = value(a, tab); m = padd(m, pconj(m, tab)); auto i = m.begin(); if (i != m.end()) { std::advance(i, rng(m.size())); m.erase(i); } Polynomial::storage_t s; for (auto& [kk, c] : m) s.emplace_back(kk.first, c, kk.second); a = f(std::move(s)); } break;
                        default: break; }
                    if (rng(3) == 0) { b = a; auto m = pconj(value(a, tab), tab); if (rng(3) == 0 && !m.empty()) { auto i = m.begin(); std::advance(i, rng(m.size())); i->second = rng.coin() ? -i->second : std::conj(i->second) * cd{0, 1}; }
                        Polynomial::storage_t s; for (auto& [kk, c] : m) s.emplace_back(kk.first, c, kk.second); b = f(std::move(s)); }
                    auto in = VP_IN(t.desc << (h ? " by hash: " : " by id: ") << pstr(a) << " , " << pstr(b));
                    VP_AT("polynomials", in());
                    PMap A = value(a, tab), B = value(b, tab), C = pconj(A, tab);
                    auto see = [&](const Polynomial& p, const PMap& e, const char* what) {
                        auto c = canonical(p, f, tab);
                        return vp::check(c.empty() && same(value(p, tab), e), what, in, VP_IN(c << " " << pstr(p) << " expected " << pmstr(e)));
                    };
                    Polynomial ac = a.conjugate(tab);
                    see(ac, C, "conjugate");
                    see(ac.conjugate(tab), A, "conjugating twice");
                    { Polynomial x = a; bool ch = x.conjugate_in_place(tab); vp::check(x == ac && (ch || std::all_of(a.begin(), a.end(), [&](auto& m) { return tab[m.id].is_hermitian(); })), "conjugate in place", in, VP_IN(pstr(x))); }
                    bool her = same(A, C), anti = same(A, pscale(C, -1.0));
                    vp::check(a.is_hermitian(tab, 1.0) == her && f.is_hermitian(a) == her, "Hermitian iff equal to the conjugate", in, VP_IN(a.is_hermitian(tab, 1.0) << " expected " << her));
                    vp::check(a.is_antihermitian(tab, 1.0) == anti && f.is_antihermitian(a) == anti, "anti-Hermitian iff minus the conjugate", in, VP_IN(a.is_antihermitian(tab, 1.0) << " expected " << anti));
                    vp::check(a.is_conjugate(tab, b) == same(C, B), "conjugate pairs are recognised exactly", in, VP_IN(a.is_conjugate(tab, b) << " expected " << same(C, B)));
                    vp::check(a.is_conjugate(tab, ac) && ac.is_conjugate(tab, a), "a polynomial and its conjugate are a conjugate pair", in, VP_IN("no"));
                    Polynomial re = a.Real(f), im = a.Imaginary(f);
                    PMap R = pscale(padd(A, C), 0.5), I = pscale(padd(A, C, -1.0), cd{0, -0.5});
                    see(re, R, "real part"); see(im, I, "imaginary part");
                    vp::check(re.is_hermitian(tab, 1.0) && im.is_hermitian(tab, 1.0), "real and imaginary parts are Hermitian", in, VP_IN(pstr(re) << " " << pstr(im)));
                    Polynomial rec = re; { Polynomial ii = im; ii *= cd{0, 1}; f.append(rec, ii); }
                    see(rec, A, "real part + i imaginary part");
                }
            }
        }
    });
    return vp::finish();
}
