#include "vp.h"
#include <cassert>
#include "tensor/multi_dimensional_index_iterator.h"
#include "tensor/multi_dimensional_offset_index_iterator.h"
#include "dictionary/multi_operator_iterator.h"
#include "utilities/combinations.h"
#include "utilities/triangular_index_iterator.h"
using namespace Moment;
using MF = MultiDimensionalIndexIterator<false>; using MR = MultiDimensionalIndexIterator<true>;
using OF = MultiDimensionalOffsetIndexIterator<false>; using OR = MultiDimensionalOffsetIndexIterator<true>;
using TD = TriangularIndexIterator<size_t, std::vector<size_t>, true>; using TS = TriangularIndexIterator<size_t, std::vector<size_t>, false>;
using CI = CombinationIndexIterator; using CC = CommutingIndexIterator; using MO = MultiOperatorIterator;
#define MD(n, T) VP_SIZE(n, T) VP_OFF(n##_num, T, num_indices) VP_OFF(n##_glob, T, global_index) VP_OFF(n##_max, T, max_vals) VP_OFF(n##_idx, T, indices) VP_OFF(n##_done, T, is_done)
MD(mf, MF) MD(mr, MR) MD(of, OF) MD(or, OR) VP_OFF(of_min, OF, min_vals) VP_OFF(or_min, OR, min_vals)
#define TR(n, T) VP_SIZE(n, T) VP_OFF(n##_max, T, maximum_index) VP_OFF(n##_len, T, word_length) VP_OFF(n##_glob, T, global_index) VP_OFF(n##_idx, T, indices) VP_OFF(n##_done, T, is_done)
TR(td, TD) TR(ts, TS)
#define CO(n, T) VP_SIZE(n, T) VP_OFF(n##_n, T, N) VP_OFF(n##_k, T, K) VP_OFF(n##_idx, T, indices) VP_OFF(n##_end, T, endState)
CO(ci, CI) CO(cc, CC)
VP_SIZE(mo, MO) VP_OFF(mo_ctx, MO, context) VP_OFF(mo_len, MO, length) VP_OFF(mo_min, MO, min_op_num) VP_OFF(mo_max, MO, max_op_num) VP_OFF(mo_idx, MO, indices) VP_OFF(mo_done, MO, is_done)
using SV = sequence_storage_t; VP_SIZE(sv, SV) VP_OFF(sv_size, SV, _size) VP_OFF(sv_data, SV, data_start) VP_OFF(sv_cap, SV, _capacity)
#define INC(n, T) void vp_inc_##n(T * o) { ++*o; } bool vp_eq_##n(const T * a, const T * b) { return *a == *b; } bool vp_ne_##n(const T * a, const T * b) { return *a != *b; }
extern "C" {
INC(mf, MF) INC(mr, MR) INC(of, OF) INC(or, OR) INC(td, TD) INC(ts, TS) INC(ci, CI) INC(cc, CC) INC(mo, MO)
void vp_ctor_mf(MF * o, std::vector<size_t> * v, bool e) { new (o) MF(std::move(*v), e); }
void vp_ctor_td(TD * o, size_t m, size_t n) { new (o) TD(m, n); }
void vp_ctor_ts(TS * o, size_t m, size_t n) { new (o) TS(m, n); }
void vp_ctor_ci(CI * o, size_t n, size_t k) { new (o) CI(n, k); }
}
