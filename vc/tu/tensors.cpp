#include "vp.h"
#include <cassert>
#include "tensor/tensor.h"
#include "tensor/square_matrix.h"
using namespace Moment;
using TL = Tensor<size_t, std::vector<size_t>, std::span<const size_t>, true>; using TF = Tensor<size_t, std::vector<size_t>, std::span<const size_t>, false>;
using SM = SquareMatrix<uint64_t>; using TM = SM::TensorType;
#define TT(n, T) VP_SIZE(n, T) VP_OFF(n##_dim, T, Dimensions) VP_OFF(n##_str, T, Strides) VP_OFF(n##_cnt, T, DimensionCount) VP_OFF(n##_el, T, ElementCount)
TT(tl, TL) TT(tf, TF) TT(tm, TM)
VP_SIZE(sm, SM) VP_OFF(sm_n, SM, dimension) VP_OFF(sm_data, SM, data)
#define FNS(n, T) size_t vp_raw_##n(const T * t, const size_t * i, size_t r) { return t->index_to_offset_no_checks(std::span<const size_t>(i, r)); } \
  size_t vp_off_##n##_chk(const T * t, const size_t * i, size_t r) { return t->index_to_offset(std::span<const size_t>(i, r)); } \
  void vp_idx_##n(std::vector<size_t> * o, const T * t, size_t off) { new (o) std::vector<size_t>(t->offset_to_index_no_checks(off)); } \
  void vp_voff_##n(const T * t, size_t off) { t->validate_offset(off); } \
  void vp_vidx_##n(const T * t, const size_t * i, size_t r) { t->validate_index(std::span<const size_t>(i, r)); } \
  void vp_vrng_##n(const T * t, const size_t * i, size_t r, const size_t * j, size_t r2) { t->validate_range(std::span<const size_t>(i, r), std::span<const size_t>(j, r2)); } \
  void vp_ctor_##n(T * o, std::vector<size_t> * d) { new (o) T(std::move(*d)); }
extern "C" {
FNS(tl, TL) FNS(tf, TF)
size_t vp_raw_tm(const TM * t, const size_t * i) { return t->index_to_offset_no_checks(std::span<const size_t, 2>(i, 2)); }
size_t vp_chk_tm(const TM * t, const size_t * i) { return t->index_to_offset(std::span<const size_t, 2>(i, 2)); }
void vp_idx_tm(size_t * o, const TM * t, size_t off) { auto r = t->offset_to_index_no_checks(off); o[0] = r[0]; o[1] = r[1]; }
void vp_ctor_tm(TM * o, size_t n) { new (o) TM(std::array<size_t, 2>{n, n}); }
const uint64_t * vp_at_sm(const SM * m, const size_t * i) { return &(*m)(std::span<const size_t, 2>(i, 2)); }
}
