// MODE: asan
// SOURCES: sequence_sign_type.cpp
// C05: DynamicBitset against std::set, under the address sanitizer.
#include "vp.h"
#include <cassert>
#include "utilities/dynamic_bitset.h"
#include "utilities/dynamic_bitset_fwd.h"
#include "utilities/small_vector.h"
using namespace Moment;
using S = std::set<size_t>;

template<class B> struct Run {
    using I = typename B::Index;
    std::string kind; I n;
    std::string in(const S& a) const { return kind + " size " + std::to_string((size_t) n) + " set " + vp::list(a); }
    std::string in(const S& a, const S& b) const { return in(a) + " other " + vp::list(b); }
    B make(const S& a) { B b(n); for (auto x : a) b.set((I) x); return b; }
    S comp(const S& a) { S r; for (size_t i = 0; i < (size_t) n; ++i) if (!a.count(i)) r.insert(i); return r; }

    bool same(const B& b, const S& a, const std::string& what, const std::string& where) {
        vp::current = what; vp::current_input = where;
        auto inp = [&] { return where; }; bool ok = true;
        std::vector<size_t> bits; for (size_t i = 0; i < (size_t) n; ++i) if (b.test((I) i)) bits.push_back(i);
        std::vector<size_t> want(a.begin(), a.end());
        ok &= vp::check(bits == want, what, inp, [&] { return "contains " + vp::list(bits) + " expected " + vp::list(want); });
        for (size_t i = 0; i < (size_t) n; ++i) ok &= vp::check(b[(I) i] == (bool) a.count(i), what, inp, [&] { return "operator[] at " + std::to_string(i); });
        ok &= vp::check((size_t) b.count() == a.size() && b.empty() == a.empty(), what + ": count and emptiness", inp, [&] { return "count " + std::to_string((size_t) b.count()) + " empty " + std::to_string(b.empty()) + " expected " + std::to_string(a.size()); });
        ok &= vp::check((size_t) b.first_index() == (a.empty() ? (size_t) n : *a.begin()), what + ": first element", inp, [&] { return "first " + std::to_string((size_t) b.first_index()); });
        std::vector<size_t> it; for (auto x : b) { it.push_back((size_t) x); if (it.size() > (size_t) n) break; }
        ok &= vp::check(it == want, what + ": iteration in increasing order", inp, [&] { return "visited " + vp::list(it) + " expected " + vp::list(want); });
        auto ts = b.to_set(); std::vector<size_t> tsv; for (auto x : ts) tsv.push_back((size_t) x);
        ok &= vp::check(tsv == want, what + ": export to set", inp, [&] { return "set " + vp::list(tsv); });
        return ok;
    }
    void one(const S& a, vp::Rng& rng) {
        B b = make(a);
        if (!same(b, a, "set", in(a))) return;
        same(~b, comp(a), "complement", in(a));
        { B c{b}; c.invert_in_place(); same(c, comp(a), "complement in place", in(a)); c.invert_in_place(); same(c, a, "double complement", in(a)); same(b, a, "copy is independent", in(a)); vp::check(b == c && !(b != c), "equality", [&] { return in(a); }, [&] { return std::string("double complement differs"); }); }
        { B c{b}; B m{std::move(c)}; same(m, a, "move", in(a)); }
        { B c{b}; c.clear(); same(c, S{}, "clear", in(a)); }
        for (size_t i = 0; i < (size_t) n; ++i) if (n < 12 || rng(6) == 0) {
            S x = a; x.insert(i); B c{b}; c.set((I) i); same(c, x, "set", in(a) + " then set " + std::to_string(i));
            vp::check((c == b) == (x == a), "equality", [&] { return in(a, x); }, [&] { return std::string("after set"); });
            x = a; x.erase(i); B d{b}; d.unset((I) i); same(d, x, "unset", in(a) + " then unset " + std::to_string(i));
            x = a; if (i & 1) x.insert(i); else x.erase(i); B e{b}; e[(I) i] = (bool) (i & 1); same(e, x, "assignment through proxy", in(a) + " at " + std::to_string(i));
            vp::check((bool) e[(I) i] == (bool) (i & 1), "assignment through proxy", [&] { return in(a); }, [&] { return std::string("read back"); });
        }
    }
    void two(const S& a, const S& b) {
        B x = make(a), y = make(b); S i, u;
        std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::inserter(i, i.end()));
        std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::inserter(u, u.end()));
        same(x & y, i, "intersection", in(a, b)); same(x | y, u, "union", in(a, b));
        { B c{x}; c &= y; same(c, i, "intersection", in(a, b)); B d{x}; d |= y; same(d, u, "union", in(a, b)); }
        vp::check((x == y) == (a == b) && (x != y) == (a != b), "equality", [&] { return in(a, b); }, [&] { return std::string("wrong"); });
        { B c{x}, d{y}; c.swap(d); same(c, b, "swap", in(a, b)); same(d, a, "swap", in(a, b)); }
        same(x, a, "operands unchanged", in(a, b)); same(y, b, "operands unchanged", in(a, b));
    }
    void sub(const S& a, size_t first, size_t len) {
        B b = make(a); std::string w = in(a) + " from " + std::to_string(first) + " length " + std::to_string(len);
        S e; for (auto x : a) if (x >= first && x < first + len) e.insert(x - first);
        Run<B> r{kind, (I) len}; vp::current = "contiguous part"; vp::current_input = w;
        r.same(b.subset((I) first, (I) len), e, "contiguous part", w);
        if (len <= (size_t) B::page_size) {
            auto p = b.small_subset((I) first, (I) len); bool ok = true;
            for (size_t i = 0; i < (size_t) B::page_size; ++i) ok &= (bool) ((p >> i) & 1) == (bool) e.count(i);
            vp::check(ok, "contiguous part in one page", [&] { return w; }, [&] { return "got " + std::to_string((uint64_t) p); });
        }
    }
    S random(vp::Rng& rng) { S a; unsigned mode = rng(4); for (size_t i = 0; i < (size_t) n; ++i) if (mode == 0 ? rng(8) == 0 : mode == 1 ? rng(8) != 0 : mode == 2 ? rng.coin() : (i == 0 || i + 1 == (size_t) n || i % B::page_size == 0 || i % B::page_size == B::page_size - 1) && rng.coin()) a.insert(i); return a; }
    S full() { return comp(S{}); }
    void all(vp::Rng& rng, int reps) {
        vp::current = "construction"; vp::current_input = kind + " size " + std::to_string((size_t) n);
        { B e(n); same(e, S{}, "empty construction", in(S{})); B t(n, true); same(t, full(), "full construction", in(S{})); B f(n, false); same(f, S{}, "empty construction", in(S{})); }
        one(S{}, rng); one(full(), rng); two(S{}, full()); two(full(), full());
        for (int k = 0; k < reps; ++k) { S a = random(rng), b = random(rng); one(a, rng); two(a, b); if (n) for (int q = 0; q < 4; ++q) { size_t f = rng((size_t) n), l = rng((size_t) n - f + 1); sub(a, f, l); sub(full(), f, l); } }
    }
};
template<class B> void sizes(const char* kind, vp::Rng& rng) {
    size_t P = B::page_size; int reps = vp::thorough ? 40 : 5;
    std::set<size_t> ns; for (size_t i = 0; i <= 10; ++i) ns.insert(i);
    for (size_t k = 1; k <= 4; ++k) for (int d = -2; d <= 2; ++d) ns.insert(k * P + d);
    ns.insert(P / 2); ns.insert(5 * P + 3);
    if (sizeof(typename B::Index) == 1) std::erase_if(ns, [](size_t x) { return x > 120; });
    for (auto n : ns) Run<B>{kind, (typename B::Index) n}.all(rng, reps);
    if (P == 8) for (size_t n = 0; n <= 40; ++n) Run<B>{kind, (typename B::Index) n}.all(rng, 2);
    // every contiguous part over small pages
    if (P <= 16) for (size_t n : {1 * P, 2 * P - 1, 2 * P, 2 * P + 1, 3 * P}) for (int k = 0; k < 2; ++k) {
        Run<B> r{kind, (typename B::Index) n}; S a = k ? r.full() : r.random(rng);
        for (size_t f = 0; f < n; ++f) for (size_t l = 0; f + l <= n; ++l) r.sub(a, f, l);
    }
    // all subsets of small universes
    for (size_t n = 0; n <= 6; ++n) for (size_t m = 0; m < (1u << n); ++m) { S a; for (size_t i = 0; i < n; ++i) if (m >> i & 1) a.insert(i); Run<B> r{kind, (typename B::Index) n}; r.one(a, rng); for (size_t m2 = 0; m2 < (1u << n); m2 += (n > 4 ? 7 : 1)) { S b; for (size_t i = 0; i < n; ++i) if (m2 >> i & 1) b.insert(i); r.two(a, b); } }
}
int main(int argc, char** argv) {
    vp::init(argc, argv); vp::Rng rng{vp::seed};
    vp::group("64-bit pages", [&] { sizes<DynamicBitset<uint64_t>>("DynamicBitset<uint64>", rng); });
    vp::group("64-bit pages, size_t, small storage", [&] { sizes<DynamicBitset<uint64_t, size_t, SmallVector<uint64_t, 1>>>("DynamicBitset<uint64,size_t,SmallVector>", rng); });
    vp::group("64-bit pages, signed index", [&] { sizes<DynamicBitset<uint64_t, int32_t>>("DynamicBitset<uint64,int32>", rng); });
    vp::group("8-bit pages", [&] { sizes<DynamicBitset<uint8_t, size_t>>("DynamicBitset<uint8,size_t>", rng); });
    vp::group("32-bit pages", [&] { sizes<DynamicBitset<uint32_t, size_t>>("DynamicBitset<uint32,size_t>", rng); });
    return vp::finish();
}
