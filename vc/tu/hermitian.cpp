#include "vp.h"
#include <cassert>
#include <new>
#include "matrix/operator_matrix/is_hermitian.cpp"
using namespace Moment; using SM = SquareMatrix<OperatorSequence>;
VP_SIZE(sm, SM) VP_OFF(sm_n, SM, dimension) VP_OFF(sm_data, SM, data) VP_OFF(sm_dim, SM, Dimensions) VP_OFF(sm_str, SM, Strides) VP_OFF(sm_cnt, SM, DimensionCount) VP_OFF(sm_el, SM, ElementCount)
VP_SIZE(os, OperatorSequence) VP_OFF(os_ops, HashedSequence, operators) VP_OFF(sv_heap, sequence_storage_t, heap_data) VP_OFF(os_hash, HashedSequence, the_hash) VP_OFF(os_sign, HashedSequence, sign)
extern "C" const size_t vp_off_os_heap = __builtin_offsetof(HashedSequence, operators) + __builtin_offsetof(sequence_storage_t, heap_data);
extern "C" {
void vp_nonh(std::optional<NonHInfo> * o, const SM * m) { new (o) std::optional<NonHInfo>(NonHInfo::find_first_index(*m)); }
}
