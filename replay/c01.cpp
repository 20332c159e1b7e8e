// C01: hashes.  Oracle: enumeration of words in shortlex order, and exact 128-bit arithmetic.
#include "vp.h"
#include "scenarios/context.h"
#include "scenarios/contextual_os.h"
#include "dictionary/operator_sequence.h"
#include "dictionary/dictionary.h"
#include "utilities/substring_hasher.h"
using namespace Moment;
using W = std::vector<oper_name_t>;
using u128 = unsigned __int128;

static sequence_storage_t st(const W& w) { return sequence_storage_t(w.begin(), w.end()); }

/** shortlex hash by definition; nullopt if it does not fit in 64 bits */
static std::optional<uint64_t> spec(const W& w, uint64_t radix, uint64_t off = 1) {
    u128 h = 0, m = 1; const u128 lim = u128(1) << 64;
    for (size_t i = 0; i < w.size(); ++i) {
        u128 t = u128(w[w.size()-1-i] + 1) * m;
        h += t; if (h >= lim || m >= lim) return std::nullopt;
        m *= radix;
    }
    h += off; if (h >= lim) return std::nullopt;
    return (uint64_t) h;
}
static bool shortlex(const W& a, const W& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; }

static W rw(vp::Rng& r, size_t n, uint64_t radix) { W w(n); for (auto& x : w) x = (oper_name_t) r(radix); return w; }

int main(int argc, char** argv) {
    vp::init(argc, argv);
    vp::Rng rng{vp::seed};
    vp::group("enumeration: consecutive words have consecutive hashes", [&] {
        for (uint64_t radix = 1; radix <= 7; ++radix) {
            ShortlexHasher h{radix};
            Context ctx{radix};
            uint64_t expect = 1;
            for (size_t len = 0; len <= 7; ++len) {
                uint64_t n = 1; for (size_t i = 0; i < len; ++i) n *= radix;
                if (n > (vp::thorough ? 200000u : 20000u)) break;
                W w(len, 0);
                for (uint64_t i = 0; i < n; ++i) {
                    uint64_t x = i; for (size_t d = len; d-- > 0;) { w[d] = (oper_name_t) (x % radix); x /= radix; }
                    VP_AT("consecutive words have consecutive hashes", "radix " << radix << " word " << vp::list(w));
                    VP_CHECK(h.hash(std::span<const oper_name_t>(w)) == expect && h(std::span<const oper_name_t>(w)) == expect, "consecutive words have consecutive hashes", "radix " << radix << " word " << vp::list(w),
                             "hash " << h.hash(std::span<const oper_name_t>(w)) << " expected " << expect);
                    VP_CHECK(ctx.hash(st(w)) == expect, "context hash of raw word", "radix " << radix << " word " << vp::list(w), ctx.hash(st(w)) << " expected " << expect);
                    if (len == 1) VP_CHECK(h.hash(w[0]) == expect, "single operator hash", "radix " << radix << " op " << w[0], h.hash(w[0]) << " expected " << expect);
                    ++expect;
                }
            }
        }
    });
    vp::group("random words against exact arithmetic", [&] {
        for (int it = 0; it < (vp::thorough ? 400000 : 40000); ++it) {
            uint64_t radix = rng.coin() ? 1 + rng(8) : (rng.coin() ? 1 + rng(300) : 1 + rng(32767));
            size_t n = rng(rng.coin() ? 12 : 40);
            if (radix == 1) n = rng(60);
            W w = rw(rng, n, radix);
            if (rng(4) == 0) for (auto& x : w) x = (oper_name_t) (radix - 1);
            auto e = spec(w, radix);
            if (!e) continue;
            ShortlexHasher h{radix};
            VP_AT("random words", "radix " << radix << " word " << vp::list(w));
            VP_CHECK(h.hash(std::span<const oper_name_t>(w)) == *e, "hash equals definition", "radix " << radix << " word " << vp::list(w), h.hash(std::span<const oper_name_t>(w)) << " expected " << *e);
            // order
            W v = rng(3) == 0 ? rw(rng, rng(n + 2), radix) : w;
            if (!v.empty() && rng.coin()) v[rng(v.size())] = (oper_name_t) rng(radix);
            auto f = spec(v, radix);
            if (f) {
                auto a = h.hash(std::span<const oper_name_t>(w)), b = h.hash(std::span<const oper_name_t>(v));
                VP_CHECK((a < b) == shortlex(w, v) && (a == b) == (w == v), "hash order is shortlex order and injective", "radix " << radix << " words " << vp::list(w) << " " << vp::list(v), a << " vs " << b);
            }
            // offsets
            uint64_t off = rng(100);
            if (auto g = spec(w, radix, off)) { ShortlexHasher ho{radix, off}; VP_CHECK(ho.hash(std::span<const oper_name_t>(w)) == *g, "hash with offset", "radix " << radix << " offset " << off << " word " << vp::list(w), ho.hash(std::span<const oper_name_t>(w)) << " expected " << *g); }
        }
    });
    vp::group("substring hashes", [&] {
        for (int it = 0; it < (vp::thorough ? 60000 : 8000); ++it) {
            uint64_t radix = rng.coin() ? 1 + rng(6) : 1 + rng(5000);
            W w = rw(rng, rng(24), radix);
            if (!spec(w, radix)) continue;
            const auto data = st(w);
            ShortlexHasher h{radix};
            VP_AT("substring hashes", "radix " << radix << " word " << vp::list(w));
            Algebraic::SubstringHashRange range{data, radix};
            std::vector<std::pair<size_t, uint64_t>> got, want;
            size_t guard = 0;
            for (auto i = range.begin(); i != range.end() && guard < 2000; ++i, ++guard) got.emplace_back(i.index(), *i);
            for (size_t e = w.size(); e > 0; --e) for (size_t s = e; s-- > 0;) want.emplace_back(s, *spec(W(w.begin()+s, w.begin()+e), radix));
            VP_CHECK(got == want, "substring walk visits every substring with its hash", "radix " << radix << " word " << vp::list(w),
                     "got " << got.size() << " expected " << want.size() << " substrings" << [&]{ for (size_t i = 0; i < std::min(got.size(), want.size()); ++i) if (got[i] != want[i]) return " first difference at " + vp::str(i) + ": start " + vp::str(got[i].first) + " hash " + vp::str(got[i].second) + " expected start " + vp::str(want[i].first) + " hash " + vp::str(want[i].second); return std::string(); }());
        }
    });
    vp::group("sequence objects", [&] {
        for (int it = 0; it < (vp::thorough ? 60000 : 8000); ++it) {
            uint64_t radix = rng(3) ? 1 + rng(6) : 1 + rng(500);
            W w = rw(rng, radix == 1 ? rng(40) : rng(30), radix);
            auto e = spec(w, radix); if (!e) continue;
            Context ctx{radix};
            const auto sign = (SequenceSignType) rng(4);
            VP_AT("sequence objects", "radix " << radix << " word " << vp::list(w));
            auto in = VP_IN("radix " << radix << " word " << vp::list(w));
            OperatorSequence a{st(w), ctx, sign};
            vp::check(a.hash() == *e, "OperatorSequence constructor hash", in, VP_IN(a.hash() << " expected " << *e));
            vp::check(W(a.begin(), a.end()) == w && a.get_sign() == sign, "OperatorSequence keeps word and sign", in, VP_IN(vp::list(a)));
            OperatorSequence b{OperatorSequence::ConstructPresortedFlag{}, st(w), ctx, sign};
            vp::check(b.hash() == *e, "presorted OperatorSequence constructor hash", in, VP_IN(b.hash() << " expected " << *e));
            vp::check(W(b.begin(), b.end()) == w, "presorted OperatorSequence keeps word", in, VP_IN(vp::list(b)));
            HashedSequence c{st(w), ctx.the_hasher(), sign};
            vp::check(c.hash() == *e, "HashedSequence constructor hash", in, VP_IN(c.hash() << " expected " << *e));
            HashedSequence d{st(w), 77, sign}; d.rehash(ctx.the_hasher());
            vp::check(d.hash() == *e, "rehash", in, VP_IN(d.hash() << " expected " << *e));
            vp::check(ctx.hash(a) == *e, "context hash of sequence", in, VP_IN(ctx.hash(a) << " expected " << *e));
            if (auto opt = ctx.get_if_canonical(st(w))) vp::check(opt->hash() == *e, "get_if_canonical hash", in, VP_IN(opt->hash() << " expected " << *e));
            else vp::fail("get_if_canonical hash", in(), "word of the free context rejected");
            size_t cut = w.empty() ? 0 : rng(w.size() + 1);
            OperatorSequence l{st(W(w.begin(), w.begin()+cut)), ctx}, r{st(W(w.begin()+cut, w.end())), ctx};
            auto p = l * r;
            vp::check(p.hash() == *e && W(p.begin(), p.end()) == w, "product hash", in, VP_IN("cut " << cut << " gives " << p.hash() << " expected " << *e));
            OperatorSequence ap = l; ap.append(w.begin()+cut, w.end());
            vp::check(ap.hash() == *e, "append hash", in, VP_IN("cut " << cut << " gives " << ap.hash() << " expected " << *e));
            l *= r; vp::check(l.hash() == *e, "in-place product hash", in, VP_IN("cut " << cut << " gives " << l.hash() << " expected " << *e));
            W rev(w.rbegin(), w.rend()); auto cj = a.conjugate();
            if (spec(rev, radix)) vp::check(cj.hash() == *spec(rev, radix) && W(cj.begin(), cj.end()) == rev, "conjugate hash", in, VP_IN(cj.hash() << " expected " << *spec(rev, radix)));
        }
    });
    vp::group("zero and identity", [&] {
        for (size_t n = 1; n < 5; ++n) {
            Context ctx{n};
            auto in = VP_IN("context of " << n << " operators");
            vp::check(ctx.zero().hash() == 0 && OperatorSequence::Zero(ctx).hash() == 0 && HashedSequence{true}.hash() == 0 && ctx.zero().zero(), "zero hashes to 0", in, VP_IN(ctx.zero().hash()));
            vp::check(ctx.identity().hash() == 1 && OperatorSequence::Identity(ctx).hash() == 1 && HashedSequence{false}.hash() == 1 && !ctx.identity().zero(), "identity hashes to 1", in, VP_IN(ctx.identity().hash()));
            for (int s = 0; s < 4; ++s) vp::check(ctx.identity((SequenceSignType) s).hash() == 1 && OperatorSequence::Identity(ctx, (SequenceSignType) s).hash() == 1, "signed identity hashes to 1", in, VP_IN(s));
            HashedSequence z{sequence_storage_t{0}, ctx.the_hasher()}; z.set_to_zero();
            vp::check(z.hash() == 0 && z.empty() && z.get_sign() == SequenceSignType::Positive, "set_to_zero", in, VP_IN(z.hash()));
            vp::check(ctx.hash(ctx.zero()) == 0, "context hash of zero", in, VP_IN(ctx.hash(ctx.zero())));
        }
    });
    return vp::finish();
}
