// MODE: asan
// SOURCES: sequence_sign_type.cpp hashed_sequence.cpp dictionary/*.cpp scenarios/context.cpp utilities/*.cpp symbolic/*.cpp multithreading/*.cpp
// C06: every index enumerator against a directly written enumeration of its domain.
#include "vp.h"
#include <cassert>
#include "tensor/multi_dimensional_index_iterator.h"
#include "tensor/multi_dimensional_offset_index_iterator.h"
#include "dictionary/multi_operator_iterator.h"
#include "scenarios/context.h"
#include "utilities/combinations.h"
#include "utilities/multi_partition.h"
#include "utilities/ordered_permutation.h"
#include "utilities/triangular_index_iterator.h"
using namespace Moment;
using V = std::vector<size_t>;
using L = std::vector<V>;
static std::string str(const V& v) { return vp::list(v); }

/** all vectors with lo[i] <= v[i] < hi[i], in lexicographic order */
static L box(const V& lo, const V& hi) {
    L out; if (lo.empty()) return out;
    for (size_t i = 0; i < lo.size(); ++i) if (lo[i] >= hi[i]) return out;
    V v = lo;
    while (true) { out.push_back(v); size_t d = v.size(); while (d-- > 0) { if (++v[d] < hi[d]) break; v[d] = lo[d]; if (d == 0) return out; } }
}
static L filter(L l, const std::function<bool(const V&)>& f) { L r; for (auto& v : l) if (f(v)) r.push_back(v); return r; }
static bool rev_less(const V& a, const V& b) { return std::lexicographical_compare(a.rbegin(), a.rend(), b.rbegin(), b.rend()); }

static void compare(const std::string& what, const std::string& in, const L& got, const L& want) {
    vp::check(got == want, what, [&] { return in; }, [&] {
        size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
        return "visited " + std::to_string(got.size()) + " indices, expected " + std::to_string(want.size()) + "; at position " + std::to_string(i) + ": " + (i < got.size() ? str(got[i]) : "end") + " expected " + (i < want.size() ? str(want[i]) : "end"); });
}
template<class C> V vec(const C& c) { return V(c.begin(), c.end()); }

template<class It, class Done, class Val, class Pos>
L walk(It& it, size_t limit, Done done, Val val, Pos pos, const std::string& what, const std::string& in) {
    vp::current = what; vp::current_input = in;
    L got; size_t k = 0;
    while (!done(it)) {
        got.push_back(val(it)); pos(it, k);
        if (++k > limit + 3) break;
        if (k & 1) ++it; else { auto before = it; auto old = it++; vp::check(val(old) == got.back() && old == before, what + ": post-increment", [&] { return in; }, [&] { return "old copy holds " + str(val(old)); }); }
    }
    return got;
}
template<bool rev> void multi(const V& dims) {
    std::string in = std::string(rev ? "reversed" : "forward") + " dimensions " + str(dims), what = "multi-dimensional range";
    L want = box(V(dims.size(), 0), dims); if (rev) std::sort(want.begin(), want.end(), rev_less);
    MultiDimensionalIndexIterator<rev> it{dims}, end{dims, true};
    auto pos = [&](auto& i, size_t k) {
        vp::check(i.global() == k, what + ": position", [&] { return in; }, [&] { return "reports " + std::to_string(i.global()) + " at " + std::to_string(k); });
        vp::check((bool) i && i != end && !(i == end), what + ": end test", [&] { return in; }, [&] { return std::string("equals end early"); });
        for (size_t d = 0; d < dims.size(); ++d) vp::check(i[d] == (*i)[d], what + ": element", [&] { return in; }, [&] { return std::string("operator[]"); }); };
    L got = walk(it, want.size(), [](auto& i) { return !i; }, [](auto& i) { return *i; }, pos, what, in);
    compare(what, in, got, want);
    vp::check(it == end && it.global() == end.global() && (dims.empty() || it.global() == want.size()), what + ": completion", [&] { return in; }, [&] { return "global " + std::to_string(it.global()) + " vs end " + std::to_string(end.global()); });
    L r; for (const auto& v : MultiDimensionalIndexRange<rev>{dims}) { r.push_back(v); if (r.size() > want.size() + 2) break; }
    compare(what + " (range)", in, r, want);
}
template<bool rev> void offset(const V& lo, const V& hi) {
    std::string in = std::string(rev ? "reversed" : "forward") + " from " + str(lo) + " to " + str(hi), what = "offset multi-dimensional range";
    L want = box(lo, hi); if (rev) std::sort(want.begin(), want.end(), rev_less);
    MultiDimensionalOffsetIndexIterator<rev> it{V(lo), V(hi)}, end{};
    auto pos = [&](auto& i, size_t k) {
        vp::check(i.global() == k, what + ": position", [&] { return in; }, [&] { return "reports " + std::to_string(i.global()) + " at " + std::to_string(k); });
        vp::check(i != end && (bool) i, what + ": end test", [&] { return in; }, [&] { return std::string("equals end early"); }); };
    L got = walk(it, want.size(), [](auto& i) { return !i; }, [](auto& i) { return *i; }, pos, what, in);
    compare(what, in, got, want);
    vp::check(it == end && it.lower_limits() == lo && it.upper_limits() == hi, what + ": completion", [&] { return in; }, [&] { return std::string("not equal to end"); });
}
int main(int argc, char** argv) {
    vp::init(argc, argv); vp::Rng rng{vp::seed};
    vp::group("multi-dimensional ranges", [&] {
        for (size_t d = 0; d <= 3; ++d) for (auto dims : d ? box(V(d, 0), V(d, 5)) : L{V{}}) { multi<false>(dims); multi<true>(dims); }
        for (int i = 0; i < (vp::thorough ? 600 : 60); ++i) { V d(1 + rng(7)); size_t prod = 1; for (auto& x : d) { x = 1 + rng(4); prod *= x; } if (prod > 3000) continue; multi<false>(d); multi<true>(d); }
    });
    vp::group("offset ranges", [&] {
        for (size_t d = 1; d <= 2; ++d) for (auto lo : box(V(d, 0), V(d, 4))) for (auto hi : box(lo, V(d, 6))) { offset<false>(lo, hi); offset<true>(lo, hi); }
        for (int i = 0; i < (vp::thorough ? 3000 : 300); ++i) { V lo(1 + rng(5)), hi(lo.size()); for (size_t k = 0; k < lo.size(); ++k) { lo[k] = rng(4); hi[k] = lo[k] + rng(12) % 5; } offset<false>(lo, hi); offset<true>(lo, hi); }
    });
    vp::group("operator words", [&] {
        for (size_t ops = 0; ops <= 4; ++ops) { Context ctx{ops}; for (size_t len = 0; len <= (vp::thorough ? 6 : 5); ++len) {
            std::string in = std::to_string(ops) + " operators, length " + std::to_string(len), what = "operator words";
            L want = box(V(len, 0), V(len, ops)); MultiOperatorIterator it{ctx, len}; auto end = MultiOperatorIterator::end_of(ctx, len);
            L got = walk(it, want.size(), [](auto& i) { return !i; }, [](auto& i) { return vec(i.raw()); }, [&](auto& i, size_t) {
                vp::check(i != end && !(i == end) && (bool) i, what + ": end test", [&] { return in; }, [&] { return std::string("early"); });
                vp::check(vec((*i).raw()) == vec(i.raw()), what + ": word", [&] { return in; }, [&] { return std::string("dereference differs"); }); }, what, in);
            compare(what, in, got, want); vp::check(it == end, what + ": completion", [&] { return in; }, [&] { return std::string("not end"); });
            L r; for (auto w : MultiOperatorRange{ctx, len}) { r.push_back(vec(w.raw())); if (r.size() > want.size() + 2) break; } compare(what + " (range)", in, r, want);
        } }
        Context ctx{12};
        for (size_t off = 0; off < 5; ++off) for (size_t n = 0; n <= 4; ++n) for (size_t len = 0; len <= 4; ++len) {
            std::string in = "operators " + std::to_string(off) + "..+" + std::to_string(n) + " length " + std::to_string(len), what = "operator words with offset";
            L want = box(V(len, off), V(len, off + n)); MultiOperatorIterator it{ctx, len, (oper_name_t) n, (oper_name_t) off}; auto end = MultiOperatorIterator::end_of(ctx, len, n, off);
            L got = walk(it, want.size(), [](auto& i) { return !i; }, [](auto& i) { return vec(i.raw()); }, [&](auto& i, size_t) { vp::check(i != end, what + ": end test", [&] { return in; }, [&] { return std::string("early"); }); }, what, in);
            compare(what, in, got, want); vp::check(it == end, what + ": completion", [&] { return in; }, [&] { return std::string("not end"); });
        }
    });
    size_t top = vp::thorough ? 9 : 7;
    vp::group("combinations and partitions", [&] {
        for (size_t N = 0; N <= top; ++N) for (size_t K = 0; K <= N; ++K) {
            std::string in = std::to_string(K) + " from " + std::to_string(N);
            L all = K ? box(V(K, 0), V(K, N)) : L{V{}};
            if (K > 5) { all.clear(); for (size_t m = 0; m < (1u << N); ++m) if ((size_t) __builtin_popcount(m) == K) { V v; for (size_t i = 0; i < N; ++i) if (m >> i & 1) v.push_back(i); all.push_back(v); } }
            L want = filter(all, [](const V& v) { for (size_t i = 1; i < v.size(); ++i) if (v[i - 1] >= v[i]) return false; return true; });
            std::sort(want.begin(), want.end(), rev_less);
            CombinationIndexIterator it{N, K}, end{N, K, true};
            L got = walk(it, want.size(), [](auto& i) { return i.done(); }, [](auto& i) { return *i; }, [&](auto& i, size_t) { vp::check(i != end && vec(*i.operator->()) == *i, "combinations: end test", [&] { return in; }, [&] { return std::string("early"); }); }, "combinations", in);
            compare("combinations", in, got, want); vp::check(it == end, "combinations: completion", [&] { return in; }, [&] { return std::string("not end"); });
            vp::check(it.combination_count() == want.size() && combinations<int64_t>(N, K) == (int64_t) want.size(), "combinations: number", [&] { return in; }, [&] { return std::to_string(it.combination_count()); });
            PartitionIterator p{N, K}; size_t k = 0; vp::current = "partitions"; vp::current_input = in;
            while (!p.done() && k <= want.size()) {
                V prim = p.primary(), comp = p.complement(); V wc; std::vector<bool> wb(N, false);
                if (k < want.size()) { for (size_t i = 0; i < N; ++i) if (std::find(want[k].begin(), want[k].end(), i) == want[k].end()) wc.push_back(i); else wb[i] = true; }
                vp::check(k < want.size() && prim == want[k], "partitions", [&] { return in; }, [&] { return "at " + std::to_string(k) + " primary " + str(prim); });
                vp::check(comp == wc, "partitions: complement", [&] { return in; }, [&] { return "at " + std::to_string(k) + " complement " + str(comp) + " of " + str(prim); });
                vp::check(p.bits() == wb, "partitions: membership bits", [&] { return in; }, [&] { return "at " + std::to_string(k) + " primary " + str(prim); });
                auto [a, b] = *p; bool ok = a == prim && b == comp; for (size_t i = 0; i < K; ++i) ok &= p.primary(i) == prim[i]; for (size_t i = 0; i < N - K; ++i) ok &= p.complement(i) == comp[i]; for (size_t i = 0; i < N; ++i) ok &= p.bits(i) == wb[i];
                vp::check(ok, "partitions: accessors", [&] { return in; }, [&] { return "at " + std::to_string(k); });
                if (k & 1) ++p; else { auto old = p++; vp::check(old.primary() == prim && old.complement() == comp, "partitions: post-increment", [&] { return in; }, [&] { return std::string("old copy"); }); }
                ++k;
            }
            vp::check(k == want.size(), "partitions", [&] { return in; }, [&] { return "visited " + std::to_string(k) + " expected " + std::to_string(want.size()); });
            if (K <= 5) {
                L wm = filter(all, [](const V& v) { for (size_t i = 1; i < v.size(); ++i) if (v[i - 1] > v[i]) return false; return true; });
                CommutingIndexIterator c{N, K};
                compare("combinations with repetition", in, walk(c, wm.size(), [](auto& i) { return i.done(); }, [](auto& i) { return *i; }, [](auto&, size_t) {}, "combinations with repetition", in), wm);
            }
        }
    });
    vp::group("ordered words", [&] {
        for (size_t N = 1; N <= 5; ++N) for (size_t K = 0; K <= 5; ++K) {
            std::string in = "length " + std::to_string(K) + " from " + std::to_string(N);
            L all = K ? box(V(K, 0), V(K, N)) : L{V{}};
            L want = filter(all, [](const V& v) { for (size_t i = 1; i < v.size(); ++i) if (v[i - 1] > v[i]) return false; return true; });
            OrderedPermutationIterator<size_t> it{N, K}, end{N, K, true};
            L got = walk(it, want.size(), [](auto& i) { return i.done(); }, [](auto& i) { return *i; }, [&](auto& i, size_t) { bool ok = i != end; for (size_t d = 0; d < K; ++d) ok &= i[d] == (*i)[d]; vp::check(ok, "ordered words: access", [&] { return in; }, [&] { return std::string("wrong"); }); }, "ordered words", in);
            compare("ordered words", in, got, want); vp::check(it == end, "ordered words: completion", [&] { return in; }, [&] { return std::string("not end"); });
        }
    });
    vp::group("triangular indices", [&] {
        for (size_t N = 0; N <= 6; ++N) for (size_t K = 0; K <= 5; ++K) {
            L all = K ? box(V(K, 0), V(K, N)) : L{};
            auto run = [&](auto it, auto end, bool dup) {
                std::string in = std::string(dup ? "with" : "without") + " repeats, length " + std::to_string(K) + " below " + std::to_string(N);
                L want = filter(all, [&](const V& v) { for (size_t i = 1; i < v.size(); ++i) if (dup ? v[i - 1] > v[i] : v[i - 1] >= v[i]) return false; return true; });
                L got = walk(it, want.size(), [](auto& i) { return !i; }, [](auto& i) { return vec(*i); }, [&](auto& i, size_t k) { bool ok = i != end && i.global() == k; for (size_t d = 0; d < K; ++d) ok &= (size_t) i[d] == (size_t) (*i)[d]; vp::check(ok, "triangular indices: position", [&] { return in; }, [&] { return "reports " + std::to_string(i.global()) + " at " + std::to_string(k); }); }, "triangular indices", in);
                compare("triangular indices", in, got, want); vp::check(it == end, "triangular indices: completion", [&] { return in; }, [&] { return std::string("not end"); });
            };
            run(DuplicateTriangularIndexIterator<size_t>{N, K}, DuplicateTriangularIndexIterator<size_t>{N, K, true}, true);
            run(UniqueTriangularIndexIterator<size_t>{N, K}, UniqueTriangularIndexIterator<size_t>{N, K, true}, false);
            run(TriangularIndexIterator<oper_name_t, sequence_storage_t, true>{(oper_name_t) N, K}, TriangularIndexIterator<oper_name_t, sequence_storage_t, true>{(oper_name_t) N, K, true}, true);
            run(TriangularIndexIterator<oper_name_t, sequence_storage_t, false>{(oper_name_t) N, K}, TriangularIndexIterator<oper_name_t, sequence_storage_t, false>{(oper_name_t) N, K, true}, false);
        }
    });
    vp::group("multipartitions", [&] {
        for (size_t S = 0; S <= 7; ++S) for (size_t P = 1; P <= 6; ++P) {
            if (P > 4 && S > 5) continue;
            L want = filter(box(V(P, 0), V(P, S + 1)), [&](const V& v) { return std::accumulate(v.begin(), v.end(), size_t{0}) == S; });
            std::string in = "sum " + std::to_string(S) + " over " + std::to_string(P);
            auto run = [&](auto it, const L& w, const char* kind) {
                vp::current = "multipartitions"; vp::current_input = in + kind; L got;
                while (it) { got.push_back(vec(*it)); bool ok = true; for (size_t d = 0; d < P; ++d) ok &= (size_t) it[d] == got.back()[d]; auto c = it; ok &= c == it; vp::check(ok, "multipartitions: access", [&] { return in + kind; }, [&] { return str(got.back()); }); if (got.size() > w.size() + 2) break; ++it; vp::check(it != c || got.size() == w.size() + 9, "multipartitions: equality", [&] { return in + kind; }, [&] { return str(got.back()); }); }
                compare("multipartitions", in + kind, got, w);
            };
            run(MultipartitionIterator<int, false>{(int) S, P}, want, " forward");
            run(MultipartitionIterator<size_t, false>{S, P}, want, " forward (unsigned)");
            std::reverse(want.begin(), want.end());
            run(MultipartitionIterator<int, true>{(int) S, P}, want, " reversed"); run(MultipartitionIterator<size_t, true>{S, P}, want, " reversed (unsigned)");
        }
    });
    return vp::finish();
}
