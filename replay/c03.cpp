// MODE: asan
// SOURCES: hashed_sequence.cpp sequence_sign_type.cpp
// C03: pattern search, under the address sanitizer (words are placed in exactly-sized buffers).
#include "vp.h"
#include "hashed_sequence.h"
#include <memory>
using namespace Moment;
using W = std::vector<oper_name_t>;
static HashedSequence mk(const W& w) { return HashedSequence{sequence_storage_t(w.begin(), w.end()), ShortlexHasher{50}}; }
static bool at(const W& p, const W& t, size_t i) { return i + p.size() <= t.size() && std::equal(p.begin(), p.end(), t.begin() + i); }
static size_t overlap(const W& a, const W& b) { for (size_t m = std::min(a.size(), b.size()); m > 0; --m) if (std::equal(a.end() - m, a.end(), b.begin())) return m; return 0; }

static void one(const W& p, const W& t) {
    auto hp = mk(p);
    // exactly-sized heap buffer: reads outside are seen by the sanitizer
    std::unique_ptr<oper_name_t[]> buf(new oper_name_t[t.size()]);
    std::copy(t.begin(), t.end(), buf.get());
    const oper_name_t *b = buf.get(), *e = b + t.size();
    auto in = VP_IN("pattern " << vp::list(p) << " text " << vp::list(t));
    VP_AT("pattern search", "pattern " << vp::list(p) << " text " << vp::list(t));
    std::optional<size_t> first;
    for (size_t i = 0; i <= t.size(); ++i) {
        bool want = at(p, t, i), got = hp.matches(b + i, e);
        if (want && !first && i < t.size()) first = i;
        vp::check(got == want, "matches at a position", in, VP_IN("position " << i << " got " << got << " expected " << want));
    }
    auto r = hp.matches_anywhere(b, e); size_t got = r - b, want = first ? *first : t.size();
    vp::check(got == want, "first occurrence", in, VP_IN("got " << got << " expected " << want));
    auto ht = mk(t);
    auto o = hp.suffix_prefix_overlap(ht);
    vp::check(o == (ptrdiff_t) overlap(p, t), "longest suffix-prefix overlap", in, VP_IN("got " << o << " expected " << overlap(p, t)));
    o = ht.suffix_prefix_overlap(hp);
    vp::check(o == (ptrdiff_t) overlap(t, p), "longest suffix-prefix overlap", in, VP_IN("(reversed roles) got " << o << " expected " << overlap(t, p)));
    // within the sequence itself
    auto r2 = hp.matches_anywhere(ht.begin(), ht.end());
    vp::check((size_t) (r2 - ht.begin()) == want, "first occurrence", in, VP_IN("in sequence object: got " << (r2 - ht.begin()) << " expected " << want));
}
int main(int argc, char** argv) {
    vp::init(argc, argv); vp::Rng rng{vp::seed};
    vp::group("all short words", [&] {
        std::vector<W> ws{{}};
        for (size_t i = 0; i < ws.size(); ++i) if (ws[i].size() < (vp::thorough ? 6u : 5u)) for (oper_name_t o = 0; o < 2; ++o) { auto w = ws[i]; w.push_back(o); ws.push_back(w); }
        for (auto& p : ws) for (auto& t : ws) one(p, t);
        std::vector<W> w3{{}};
        for (size_t i = 0; i < w3.size(); ++i) if (w3[i].size() < 4) for (oper_name_t o = 0; o < 3; ++o) { auto w = w3[i]; w.push_back(o); w3.push_back(w); }
        for (auto& p : w3) if (p.size() <= 3) for (auto& t : w3) one(p, t);
    });
    vp::group("random and periodic words", [&] {
        for (int it = 0; it < (vp::thorough ? 60000 : 6000); ++it) {
            size_t k = 1 + rng(3); W t(rng(40)), p;
            size_t per = 1 + rng(5); W base(per); for (auto& x : base) x = rng(k);
            if (rng.coin()) for (auto& x : t) x = rng(k); else for (size_t i = 0; i < t.size(); ++i) t[i] = base[i % per];
            if (!t.empty() && rng(3)) { size_t a = rng(t.size()), b = a + rng(t.size() - a + 1); p.assign(t.begin() + a, t.begin() + b); if (!p.empty() && rng(3) == 0) p[rng(p.size())] ^= 1; }
            else { p.resize(rng(30)); for (size_t i = 0; i < p.size(); ++i) p[i] = rng.coin() ? base[i % per] : rng(k); }
            one(p, t);
        }
    });
    return vp::finish();
}
