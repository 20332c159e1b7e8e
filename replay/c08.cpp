// C08: polynomials against coefficient maps.  Bound: random tables (<= 14 symbols), <= 10 terms; orderings exhaustively over all monomials of the table.
#include "poly.h"
#include "symbolic/polynomial_ordering.h"
using namespace Moment;
using namespace vp;

int main(int argc, char** argv) {
    vp::init(argc, argv);
    Rng rng{vp::seed};
    const int T = vp::thorough ? 1500 : 150, N = vp::thorough ? 200 : 60;
    vp::group("orders are strict total orders on (symbol, conjugation)", [&] {
        for (int it = 0; it < T; ++it) {
            Table t = make_table(rng, 2 + rng(2), 4 + rng(6)); const auto& tab = *t.tab;
            for (bool h : {false, true}) {
                auto F = make_factory(tab, h); auto& f = *F.f;
                std::vector<Monomial> all; for (symbol_name_t i = 1; i < (symbol_name_t) tab.size(); ++i) for (bool c : {false, true}) all.emplace_back(i, rcoef(rng), c);
                VP_AT("order", t.desc);
                for (auto& a : all) for (auto& b : all) {
                    bool eq = a.id == b.id && a.conjugated == b.conjugated;
                    auto in = VP_IN(t.desc << (h ? " by hash: " : " by id: ") << mstr(a) << " , " << mstr(b));
                    vp::check((f.less(a, b) + f.less(b, a) == 1) == !eq && (!eq || !f.less(a, b)), "less is total and irreflexive", in, VP_IN(f.less(a, b) << f.less(b, a)));
                    bool expect;
                    if (!h) expect = std::pair(a.id, a.conjugated) < std::pair(b.id, b.conjugated);
                    else {
                        const auto &sa = tab[a.id], &sb = tab[b.id];
                        if (sa.has_sequence() && sb.has_sequence()) expect = std::pair(sa.hash(), a.conjugated) < std::pair(sb.hash(), b.conjugated);
                        else if (sa.has_sequence() != sb.has_sequence()) expect = sa.has_sequence();
                        else expect = std::pair(a.id, a.conjugated) < std::pair(b.id, b.conjugated);
                    }
                    vp::check(f.less(a, b) == expect, "less is the factory's documented order", in, VP_IN("less " << f.less(a, b)));
                    vp::check((f.key(a) < f.key(b)) == expect, "key orders like less", in, VP_IN("keys differ from less"));
                }
            }
        }
    });
    vp::group("construction", [&] {
        for (int it = 0; it < T; ++it) {
            Table t = make_table(rng, 2 + rng(2), 3 + rng(8)); const auto& tab = *t.tab;
            for (bool h : {false, true}) {
                auto F = make_factory(tab, h); auto& f = *F.f;
                for (int k = 0; k < N; ++k) {
                    auto raw = rterms(rng, tab, rng.coin() ? 3 : 8, rng.coin() ? 4 : 0);
                    auto in = VP_IN(t.desc << (h ? " by hash: " : " by id: ") << pstr(raw));
                    VP_AT("construction", in());
                    PMap e = value(raw, tab);
                    Polynomial p = f(Polynomial::storage_t(raw));
                    auto c = canonical(p, f, tab);
                    vp::check(c.empty(), "a built polynomial is canonical", in, VP_IN(c << ": " << pstr(p)));
                    vp::check(same(value(p, tab), e), "a built polynomial is the sum of its terms", in, VP_IN(pstr(p) << " expected " << pmstr(e)));
                    vp::check(p.size() == e.size(), "number of terms", in, VP_IN(pstr(p)));
                    // presort
                    auto sorted = raw; auto perm = f.presort_data(sorted);
                    bool ok = perm.size() == raw.size() && sorted.size() == raw.size(); std::set<size_t> seen;
                    for (size_t i = 0; ok && i < raw.size(); ++i) { ok = perm[i] < raw.size() && seen.insert(perm[i]).second && sorted[i].id == raw[perm[i]].id && sorted[i].conjugated == raw[perm[i]].conjugated && sorted[i].factor == raw[perm[i]].factor;
                        if (i && ok) ok = !f.less(sorted[i], sorted[i-1]) && (f.less(sorted[i-1], sorted[i]) || perm[i-1] < perm[i]); }
                    vp::check(ok, "presort is a stable sort with its permutation", in, VP_IN(vp::list(perm)));
                    // fix_cc with canonicalisation
                    if (!raw.empty() && !h) {
                        Polynomial q(Polynomial::storage_t{raw}); // by id, no table
                        std::map<Key, cd> e2; for (auto& m : raw) if (m.id) { auto& x = e2[{m.id, m.conjugated}]; x += m.factor; }
                        std::erase_if(e2, [](auto& kv) { return std::abs(kv.second) < 1e-14; });
                        bool same2 = q.size() == e2.size(); size_t i = 0; for (auto& [kk, cc] : e2) { if (!same2) break; same2 = q[i].id == kk.first && q[i].conjugated == kk.second && std::abs(q[i].factor - cc) < 1e-12; ++i; }
                        vp::check(same2, "construction by id without a symbol table", in, VP_IN(pstr(q)));
                        Polynomial z = q.fix_cc(tab, true);
                        vp::check(same(value(z, tab), e) && canonical(z, f, tab).empty(), "fixing conjugates gives the canonical polynomial", in, VP_IN(pstr(z)));
                    }
                    // degree
                    if (!p.empty()) {
                        size_t d = 0; for (auto& m : p) if (tab[m.id].has_sequence()) d = std::max(d, tab[m.id].sequence().size());
                        vp::current = "maximum degree"; alarm(20);
                        size_t got = f.maximum_degree(p); alarm(0);
                        vp::check(got == d, "maximum degree", in, VP_IN(got << " expected " << d));
                    }
                }
            }
        }
    });
    vp::group("arithmetic", [&] {
        for (int it = 0; it < T; ++it) {
            Table t = make_table(rng, 2 + rng(2), 3 + rng(8)); const auto& tab = *t.tab;
            for (bool h : {false, true}) {
                auto F = make_factory(tab, h); auto& f = *F.f;
                for (int k = 0; k < N; ++k) {
                    size_t ids = rng.coin() ? 5 : 0;
                    Polynomial a = f(rterms(rng, tab, 5, ids)), b = f(rterms(rng, tab, 5, ids));
                    if (rng(6) == 0) { b = a; if (rng.coin()) b *= -1.0; }
                    if (rng(6) == 0 && !a.empty()) { Monomial m = a[rng(a.size())]; if (rng.coin()) m.factor = -m.factor; b = f(Polynomial::storage_t{m}); }
                    cd s = rcoef(rng);
                    auto in = VP_IN(t.desc << (h ? " by hash: " : " by id: ") << pstr(a) << " , " << pstr(b) << " , " << s);
                    VP_AT("arithmetic", in());
                    PMap A = value(a, tab), B = value(b, tab);
                    auto see = [&](const Polynomial& p, const PMap& e, const char* what) {
                        auto c = canonical(p, f, tab);
                        vp::check(c.empty() && same(value(p, tab), e), what, in, VP_IN(c << " " << pstr(p) << " expected " << pmstr(e)));
                    };
                    see(f.sum(a, b), padd(A, B), "sum of polynomials");
                    { Polynomial x = a; f.append(x, b); see(x, padd(A, B), "append"); }
                    if (!h) { see(a + b, padd(A, B), "operator+"); Polynomial x = a; x += b; see(x, padd(A, B), "operator+="); Polynomial y = a; y += y; see(y, pscale(A, 2.0), "adding a polynomial to itself"); }
                    see(f.scale(a, s), pscale(A, s), "scale");
                    { Polynomial x = a; x *= s; see(x, pscale(A, s), "operator*="); see(a * s, pscale(A, s), "operator*"); x = a; x.scale(-1.0); see(x, pscale(A, -1.0), "negation"); f.append(x, a); see(x, PMap{}, "a polynomial minus itself is zero"); }
                    vp::check((a == b) == same(A, B) && (a != b) == !same(A, B), "equality means equal coefficients", in, VP_IN((a == b)));
                    // Monomials
                    Monomial m = rmono(rng, tab, ids), n = rng(3) ? rmono(rng, tab, ids) : m;
                    if (tab[m.id].is_hermitian() || tab[m.id].is_antihermitian()) m.conjugated = false;
                    if (tab[n.id].is_hermitian() || tab[n.id].is_antihermitian()) n.conjugated = false;
                    if (rng(4) == 0 && !a.empty()) { m = a[rng(a.size())]; if (rng.coin()) m.factor = -m.factor; }
                    auto inm = VP_IN(t.desc << (h ? " by hash: " : " by id: ") << pstr(a) << " , " << mstr(m) << " , " << mstr(n));
                    VP_AT("monomial arithmetic", inm());
                    PMap M = value(std::vector{m}, tab), NN = value(std::vector{n}, tab);
                    { auto p = f.sum(m, n); auto c = canonical(p, f, tab); vp::check(c.empty() && same(value(p, tab), padd(M, NN)), "sum of two monomials", inm, VP_IN(c << " " << pstr(p))); }
                    { auto p = f.sum(a, m); auto c = canonical(p, f, tab); vp::check(c.empty() && same(value(p, tab), padd(A, M)), "sum of polynomial and monomial", inm, VP_IN(c << " " << pstr(p))); }
                    { Polynomial p{m}; auto c = canonical(p, f, tab); vp::check(c.empty() && same(value(p, tab), M), "polynomial from a monomial", inm, VP_IN(c << " " << pstr(p)));
                      if (p.is_monomial()) { Monomial back{p}; vp::check(p.empty() ? back.id == 0 : back == m, "monomial from a polynomial", inm, VP_IN(mstr(back))); } }
                    vp::check((m == n) == (m.id == n.id && (m.id == 0 || (m.conjugated == n.conjugated && m.factor == n.factor))) && (m != n) == !(m == n), "monomial equality", inm, VP_IN((m == n)));
                    vp::check(same(value(Polynomial::Scalar(s), tab), s == cd{0, 0} ? PMap{} : PMap{{{1, false}, s}}) && Polynomial::Zero().empty(), "scalars", in, VP_IN(s));
                    // ordering of polynomials: lexicographic from the most significant term
                    PolynomialOrdering ord{f};
                    { std::vector<std::pair<uint64_t,uint64_t>> ka, kb; for (auto x = a.rbegin(); x != a.rend(); ++x) ka.push_back(f.key(*x)); for (auto x = b.rbegin(); x != b.rend(); ++x) kb.push_back(f.key(*x));
                      vp::check(ord(a, b) == (ka < kb) && ord(b, a) == (kb < ka), "polynomial ordering", in, VP_IN(ord(a, b))); }
                }
            }
        }
    });
    vp::group("raw polynomials", [&] {
        for (int it = 0; it < T; ++it) {
            size_t ops = 2 + rng(2); Context ctx(ops); SymbolTable tab{ctx};
            for (bool h : {false, true}) {
                auto F = make_factory(tab, h); auto& f = *F.f;
                for (int k = 0; k < N / 3; ++k) {
                    using W = std::vector<oper_name_t>;
                    RawPolynomial ra, rb; std::map<W, cd> ma, mb; std::ostringstream d;
                    auto fill = [&](RawPolynomial& rp, std::map<W, cd>& mp) { size_t n = rng(6); for (size_t i = 0; i < n; ++i) { W w(rng(4)); for (auto& x : w) x = (oper_name_t) rng(ops); auto sg = (SequenceSignType) rng(4); cd c = rcoef(rng);
                        bool zero = rng(8) == 0;
                        auto seq = zero ? OperatorSequence::Zero(ctx) : OperatorSequence(sequence_storage_t(w.begin(), w.end()), ctx, sg);
                        rp.emplace_back(seq, c); d << c << " i^" << (int) sg << (zero ? "0*" : "") << vp::list(w) << " ";
                        if (!zero) mp[w] += c * to_scalar(sg); } d << " | "; };
                    fill(ra, ma); fill(rb, mb);
                    std::string ds = d.str(); auto in = VP_IN(ds);
                    VP_AT("raw polynomials", ds);
                    auto view = [&](const RawPolynomial& r) { std::map<W, cd> o; for (auto& e : r) { W w(e.sequence.begin(), e.sequence.end()); if (e.sequence.zero()) continue; o[w] += e.weight * to_scalar(e.sequence.get_sign()); } std::erase_if(o, [](auto& x) { return std::abs(x.second) < 1e-14; }); return o; };
                    auto comb = [&](std::map<W, cd> x, const std::map<W, cd>& y, double k2) { for (auto& [w, c] : y) x[w] += k2 * c; std::erase_if(x, [](auto& z) { return std::abs(z.second) < 1e-14; }); return x; };
                    auto canon = [&](const RawPolynomial& r) { for (size_t i = 0; i < r.size(); ++i) { if (std::abs(r[i].weight) < 1e-15 || r[i].sequence.zero() || (i && !(r[i-1].sequence.hash() < r[i].sequence.hash()))) return false; } return true; };
                    auto s = RawPolynomial::add(ra, rb), dd = RawPolynomial::subtract(ra, rb);
                    vp::check(view(s) == comb(ma, mb, 1) && canon(s), "sum of operator polynomials", in, VP_IN(s.size()));
                    vp::check(view(dd) == comb(ma, mb, -1) && canon(dd), "difference of operator polynomials", in, VP_IN(dd.size()));
                    // to symbols
                    Polynomial p = ra.to_polynomial_register_symbols(f, tab);
                    auto c = canonical(p, f, tab); std::map<W, cd> expect = comb(ma, {}, 1), got; bool seqs = true;
                    // coefficient of word w: words w and reverse(w) share a symbol
                    for (auto& m : p) { if (!tab[m.id].has_sequence()) { seqs = false; continue; } const auto& q = m.conjugated ? tab[m.id].sequence_conj() : tab[m.id].sequence(); got[W(q.begin(), q.end())] += m.factor * to_scalar(q.get_sign()); }
                    vp::check(c.empty() && seqs && got == expect, "registering an operator polynomial keeps its value", in, VP_IN(c << " " << pstr(p)));
                    Polynomial p2 = ra.to_polynomial(f);
                    vp::check(p == p2, "construct equals register-and-construct", in, VP_IN(pstr(p2)));
                    RawPolynomial back{p, tab};
                    vp::check(view(back) == expect, "operator polynomial of a polynomial", in, VP_IN(pstr(p)));
                }
            }
        }
    });
    return vp::finish();
}
