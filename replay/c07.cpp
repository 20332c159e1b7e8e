// MODE: asan
// SOURCES: tensor/*.cpp sequence_sign_type.cpp
// C07: tensors, square matrices and flattened indices.
#include "vp.h"
#include "tensor/auto_storage_tensor.h"
#include "tensor/index_flattener.h"
#include "tensor/square_matrix.h"
#include "tensor/tensor.h"
#include "tensor/tensor_errors.h"
using namespace Moment;
using V = std::vector<size_t>;
static std::vector<V> box(const V& hi) { // first index fastest
    std::vector<V> out; if (hi.empty()) return out; for (auto h : hi) if (!h) return out;
    V v(hi.size(), 0);
    while (true) { out.push_back(v); size_t d = 0; for (; d < v.size(); ++d) { if (++v[d] < hi[d]) break; v[d] = 0; } if (d == v.size()) return out; }
}
template<class F> bool throws(F f) { try { f(); return false; } catch (const errors::bad_tensor_index&) { return true; } }

template<class T, class Idx> void shape(const Idx& dims_in, const std::string& kind) {
    V dims(dims_in.begin(), dims_in.end()); std::string in = kind + " shape " + vp::list(dims);
    vp::current = "offsets"; vp::current_input = in; auto inp = [&] { return in; };
    T t{Idx(dims_in)}; size_t N = 1; for (auto d : dims) N *= d;
    vp::check((size_t) t.ElementCount == N && (size_t) t.DimensionCount == dims.size(), "element count", inp, [&] { return std::to_string((size_t) t.ElementCount); });
    std::set<size_t> seen; size_t k = 0; auto all = box(dims);
    if (!T::LastIndexMajor) std::sort(all.begin(), all.end());
    for (auto& v : all) {
        Idx i{}; if constexpr (requires { i.resize(1); }) i.resize(v.size()); std::copy(v.begin(), v.end(), i.begin());
        size_t o = t.index_to_offset(i), o2 = t.index_to_offset_no_checks(i); auto back = t.offset_to_index(o), back2 = t.offset_to_index_no_checks(o);
        vp::check(o < N && o == o2 && o == k && seen.insert(o).second, "index to offset", inp, [&] { return "index " + vp::list(v) + " offset " + std::to_string(o) + " expected " + std::to_string(k); });
        vp::check(back == i && back2 == i, "offset to index", inp, [&] { return "index " + vp::list(v) + " comes back as " + vp::list(back); });
        ++k;
    }
    vp::check(seen.size() == N, "index to offset is onto", inp, [&] { return std::to_string(seen.size()); });
    if (!dims.empty()) {
        vp::check(throws([&] { (void) t.offset_to_index(N); }) && throws([&] { t.validate_offset(N + 7); }), "offset out of range is rejected", inp, [&] { return std::to_string(N); });
        for (size_t d = 0; d < dims.size(); ++d) for (size_t add : {size_t{0}, size_t{1}, size_t(-1) - dims[d]}) {
            Idx i{}; if constexpr (requires { i.resize(1); }) i.resize(dims.size()); for (auto& x : i) x = 0; i[d] = dims[d] + add;
            vp::check(throws([&] { (void) t.index_to_offset(i); }) && throws([&] { t.validate_index(i); }), "index out of range is rejected", inp, [&] { return vp::list(i); });
            vp::check(throws([&] { t.validate_index_inclusive(i); }) == (add != 0), "inclusive index check", inp, [&] { return vp::list(i); });
        }
        for (auto& v : all) { Idx i{}; if constexpr (requires { i.resize(1); }) i.resize(v.size()); std::copy(v.begin(), v.end(), i.begin()); vp::check(!throws([&] { t.validate_index(i); t.validate_index_inclusive(i); }), "index in range is accepted", inp, [&] { return vp::list(v); }); }
    }
    if constexpr (requires (Idx i) { i.resize(1); }) {
        for (size_t r : {dims.size() + 1, dims.size() - 1}) if (r + 1 != 0 && r <= dims.size() + 1) { Idx i(r, 0); vp::check(throws([&] { (void) t.index_to_offset(i); }) && throws([&] { t.validate_index_inclusive(i); }), "index of wrong rank is rejected", inp, [&] { return "rank " + std::to_string(r); }); }
    }
}
struct Auto : AutoStorageTensor<size_t, 100> {
    mutable size_t made = 0;
    Auto(V d, TensorStorageType s) : AutoStorageTensor(std::move(d), s) { if (StorageType == TensorStorageType::Explicit) for (size_t i = 0; i < ElementCount; ++i) data.push_back(code(offset_to_index_no_checks(i))); }
    static size_t code(IndexView i) { size_t h = 7; for (auto x : i) h = h * 31 + x + 1; return h; }
    size_t make_element_no_checks(IndexView i) const override { ++made; return code(i); }
};
static void autotensor(const V& dims, TensorStorageType st, vp::Rng& rng) {
    std::string in = "auto-storage shape " + vp::list(dims) + (st == TensorStorageType::Explicit ? " explicit" : st == TensorStorageType::Virtual ? " virtual" : " automatic"); auto inp = [&] { return in; };
    vp::current = "auto-storage tensor"; vp::current_input = in;
    Auto t{dims, st}; auto all = box(dims);
    if (st == TensorStorageType::Automatic) vp::check((t.StorageType == TensorStorageType::Explicit) == (all.size() <= 100), "automatic storage choice", inp, [&] { return std::string("wrong"); });
    size_t k = 0;
    for (auto& v : all) { size_t want = Auto::code(v); const size_t &a = t(v), &b = t.at(k), &c = t.elem_no_checks(v), &d = t.elem_no_checks(k);
        size_t va = t(v), vb = t.at(k), vc = t.elem_no_checks(v), vd = t.elem_no_checks(k); (void) a; (void) b; (void) c; (void) d;
        vp::check(va == want && vb == want && vc == want && vd == want, "element access reads the indexed cell", inp, [&] { return vp::list(v); }); ++k; }
    k = 0; for (auto it = t.begin(), e = t.end(); it != e && k <= all.size(); ++it, ++k) vp::check(k < all.size() && *it == Auto::code(all[k]) && it.index() == all[k] && it.offset() == k && (bool) it && !!it, "whole-tensor iteration", inp, [&] { return "position " + std::to_string(k); });
    vp::check(k == all.size(), "whole-tensor iteration", inp, [&] { return "visited " + std::to_string(k); });
    vp::check(throws([&] { (void) t.at(all.size()); }), "offset out of range is rejected", inp, [&] { return std::string("at(N)"); });
    for (size_t d = 0; d < dims.size(); ++d) { V i(dims.size(), 0); i[d] = dims[d]; vp::check(throws([&] { (void) t(i); }), "index out of range is rejected", inp, [&] { return vp::list(i); }); }
    { V i(dims.size() + 1, 0); vp::check(throws([&] { (void) t(i); }), "index of wrong rank is rejected", inp, [&] { return vp::list(i); }); }
    for (int q = 0; q < 12 && !all.empty(); ++q) {
        V lo(dims.size()), hi(dims.size()), ext; for (size_t d = 0; d < dims.size(); ++d) { lo[d] = rng(dims[d]); hi[d] = lo[d] + rng(dims[d] - lo[d] + 1); ext.push_back(hi[d] - lo[d]); }
        std::string in2 = in + " splice " + vp::list(lo) + ".." + vp::list(hi); auto inp2 = [&] { return in2; }; vp::current_input = in2;
        auto r = t.Splice(std::span<const size_t>(lo), std::span<const size_t>(hi)); auto want = box(ext); size_t n = 0;
        auto dm = r.Dimensions(); vp::check(V(dm.begin(), dm.end()) == ext && r.size() == want.size(), "splice extent", inp2, [&] { return std::to_string(r.size()); });
        for (auto it = r.begin(); it != r.end() && n <= want.size(); ++it, ++n) { V w = n < want.size() ? want[n] : V(dims.size(), 0); for (size_t d = 0; d < w.size(); ++d) w[d] += lo[d]; auto ix = it.index();
            vp::check(V(ix.begin(), ix.end()) == w && *it == Auto::code(w) && it.block_offset() == n && it.offset() == t.index_to_offset_no_checks(w), "splice iteration", inp2, [&] { return "position " + std::to_string(n) + " index " + vp::list(ix); }); }
        vp::check(n == want.size(), "splice iteration", inp2, [&] { return "visited " + std::to_string(n); });
    }
    if (!all.empty()) for (size_t d = 0; d < dims.size(); ++d) { V lo(dims.size(), 0), hi(dims); hi[d] = dims[d] + 1; vp::check(throws([&] { (void) t.Splice(std::span<const size_t>(lo), std::span<const size_t>(hi)); }), "splice out of range is rejected", inp, [&] { return vp::list(hi); });
        hi = V(dims); lo[d] = dims[d] - 1; hi[d] = lo[d]; if (lo[d] > 0) { hi[d] = lo[d] - 1; vp::check(throws([&] { (void) t.Splice(std::span<const size_t>(lo), std::span<const size_t>(hi)); }), "splice in wrong order is rejected", inp, [&] { return vp::list(lo) + vp::list(hi); }); } }
}
static void flatten(const V& dims, const std::vector<V>& lists) {
    std::string in = "flattener shape " + vp::list(dims); for (auto& l : lists) in += " " + vp::list(l); auto inp = [&] { return in; };
    vp::current = "index flattener"; vp::current_input = in;
    IndexFlattener f{V(dims), std::vector<V>(lists)}; V sz; for (auto& l : lists) sz.push_back(l.size()); auto want = box(sz); size_t n = 0;
    vp::check(f.size() == want.size() && f.empty() == want.empty(), "flattened size", inp, [&] { return std::to_string(f.size()); });
    for (auto it = f.begin(); it != f.end() && n <= want.size(); ++it, ++n) {
        V v; size_t off = 0, stride = 1; if (n < want.size()) for (size_t d = 0; d < dims.size(); ++d) { v.push_back(lists[d][want[n][d]]); off += v.back() * stride; stride *= dims[d]; }
        vp::check(n < want.size() && it.index_index() == want[n] && it.index() == v && *it == off, "flattened indices", inp, [&] { return "position " + std::to_string(n) + " got offset " + std::to_string(*it) + " expected " + std::to_string(off); });
    }
    vp::check(n == want.size(), "flattened indices", inp, [&] { return "visited " + std::to_string(n); });
}
template<class VW> void triangle(const std::string& name, size_t n, VW view, bool upper, bool incl) {
    std::vector<std::pair<size_t, size_t>> want; for (size_t c = 0; c < n; ++c) for (size_t r = 0; r < n; ++r) if (upper ? (incl ? r <= c : r < c) : (incl ? r >= c : r > c)) want.emplace_back(r, c);
    std::string in = name + " of dimension " + std::to_string(n); auto inp = [&] { return in; }; vp::current = "triangle iteration"; vp::current_input = in; size_t k = 0;
    for (auto it = view.begin(), e = view.end(); it != e && k <= want.size(); ++k) {
        bool ok = k < want.size() && it.Row() == want[k].first && it.Col() == want[k].second && it.Index()[0] == want[k].first && it.Index()[1] == want[k].second && it.Offset() == want[k].first + n * want[k].second && it.diagonal() == (want[k].first == want[k].second);
        vp::check(ok && *it == (int) (1000 * it.Row() + it.Col()), "triangle iteration", inp, [&] { return "position " + std::to_string(k) + " at (" + std::to_string(it.Row()) + "," + std::to_string(it.Col()) + ") offset " + std::to_string(it.Offset()); });
        if (k & 1) ++it; else { auto old = it++; vp::check(k >= want.size() || (old.Row() == want[k].first && old.Col() == want[k].second), "triangle iteration: post-increment", inp, [&] { return std::to_string(k); }); }
    }
    vp::check(k == want.size(), "triangle iteration", inp, [&] { return "visited " + std::to_string(k) + " expected " + std::to_string(want.size()); });
}
static void square(size_t n) {
    std::vector<int> data(n * n); for (size_t c = 0; c < n; ++c) for (size_t r = 0; r < n; ++r) data[r + n * c] = 1000 * r + c;
    SquareMatrix<int> m{n, std::vector<int>(data)}; const auto& cm = m; std::string in = "square matrix of dimension " + std::to_string(n); auto inp = [&] { return in; };
    vp::current = "square matrix"; vp::current_input = in;
    vp::check(m.dimension == n && m.ElementCount == n * n && std::equal(cm.begin(), cm.end(), data.begin(), data.end()) && std::equal(m.cbegin(), m.cend(), data.begin(), data.end()), "square matrix data", inp, [&] { return std::string("wrong"); });
    for (size_t r = 0; r < n; ++r) for (size_t c = 0; c < n; ++c) { std::array<size_t, 2> ix{r, c};
        vp::check(cm(r, c) == (int) (1000 * r + c) && m(ix) == cm(r, c) && cm[r + n * c] == cm(r, c) && m.raw()[r + n * c] == cm(r, c), "square matrix element", inp, [&] { return vp::list(ix); });
        std::array<size_t, 2> t{c, r}; vp::check(const_cast<SquareMatrix<int>::TransposeView&>(reinterpret_cast<const SquareMatrix<int>::TransposeView&>(m.Transpose))(ix) == cm(t), "transposed element", inp, [&] { return vp::list(ix); });
        auto copy = SquareMatrix<int>{n, std::vector<int>(data)}; copy(ix) = -1; size_t diff = 0, where = 0; for (size_t k = 0; k < n * n; ++k) if (copy[k] != data[k]) { ++diff; where = k; }
        vp::check(diff == 1 && where == r + n * c, "a write touches exactly its cell", inp, [&] { return vp::list(ix); }); }
    size_t k = 0; for (auto it = m.Transpose.begin(); it != m.Transpose.end() && k <= n * n; ++it, ++k) vp::check(k < n * n && *it == (int) (1000 * (k / n) + k % n) && *it.operator->() == *it, "transposed iteration", inp, [&] { return "position " + std::to_string(k); });
    vp::check(k == n * n, "transposed iteration", inp, [&] { return std::to_string(k); });
    triangle("upper triangle", n, m.UpperTriangle(), true, true); triangle("const upper triangle", n, cm.UpperTriangle(), true, true);
    triangle("strict upper triangle", n, m.ExclusiveUpperTriangle(), true, false); triangle("const strict upper triangle", n, cm.ExclusiveUpperTriangle(), true, false);
    triangle("lower triangle", n, m.LowerTriangle(), false, true); triangle("const lower triangle", n, cm.LowerTriangle(), false, true);
    triangle("strict lower triangle", n, m.ExclusiveLowerTriangle(), false, false); triangle("const strict lower triangle", n, cm.ExclusiveLowerTriangle(), false, false);
    for (size_t p = 0; p <= 3; ++p) { auto b = m.pad(p, -7); const auto& cb = b; bool ok = b.dimension == n + p; for (size_t r = 0; ok && r < n + p; ++r) for (size_t c = 0; c < n + p; ++c) ok &= cb(r, c) == (r < n && c < n ? (int) (1000 * r + c) : -7);
        vp::check(ok, "padding", inp, [&] { return "by " + std::to_string(p); }); }
    SquareMatrix<int> mv{std::move(m)}; bool ok = mv.dimension == n; for (size_t k2 = 0; ok && k2 < n * n; ++k2) ok &= mv[k2] == data[k2]; size_t q = 0; for (auto it = mv.Transpose.begin(); it != mv.Transpose.end() && q <= n * n; ++it, ++q) ok &= q < n * n && *it == (int) (1000 * (q / n) + q % n);
    vp::check(ok, "moved square matrix", inp, [&] { return std::string("wrong"); });
}
template<size_t R> void arrays(size_t lim) {
    V hi(R, lim + 1); for (auto& v : box(hi)) { std::array<size_t, R> a; std::copy(v.begin(), v.end(), a.begin()); shape<Tensor<size_t, std::array<size_t, R>, std::span<const size_t, R>, true>>(a, "last-major array"); shape<Tensor<size_t, std::array<size_t, R>, std::span<const size_t, R>, false>>(a, "first-major array"); }
}
int main(int argc, char** argv) {
    vp::init(argc, argv); vp::Rng rng{vp::seed};
    using TL = Tensor<size_t, V, std::span<const size_t>, true>; using TF = Tensor<size_t, V, std::span<const size_t>, false>;
    vp::group("tensor shapes", [&] {
        for (size_t r = 1; r <= 3; ++r) for (auto& d : box(V(r, r == 3 ? 4 : 6))) { V e(d); shape<TL>(e, "last-major"); shape<TF>(e, "first-major"); }
        for (int i = 0; i < (vp::thorough ? 400 : 60); ++i) { V d(4 + rng(4)); size_t p = 1; for (auto& x : d) { x = 1 + rng(4); p *= x; } if (p < 2000) { shape<TL>(d, "last-major"); shape<TF>(d, "first-major"); } }
        arrays<1>(6); arrays<2>(5); arrays<3>(3);
    });
    vp::group("auto-storage tensors", [&] {
        for (size_t r = 1; r <= 3; ++r) for (auto& d : box(V(r, r == 3 ? 4 : 6))) for (auto s : {TensorStorageType::Explicit, TensorStorageType::Virtual, TensorStorageType::Automatic}) { bool z = false; for (auto x : d) z |= x == 0; if (!z) autotensor(d, s, rng); }
        autotensor({100}, TensorStorageType::Automatic, rng); autotensor({101}, TensorStorageType::Automatic, rng); autotensor({3, 2, 4, 3}, TensorStorageType::Virtual, rng);
    });
    vp::group("index flattening", [&] { for (int i = 0; i < (vp::thorough ? 3000 : 300); ++i) { V d(1 + rng(4)); std::vector<V> l; for (auto& x : d) { x = 1 + rng(5); V li(rng(5)); for (auto& y : li) y = rng(x); l.push_back(li); } flatten(d, l); } });
    vp::group("square matrices", [&] { for (size_t n = 0; n <= 8; ++n) square(n); });
    return vp::finish();
}
