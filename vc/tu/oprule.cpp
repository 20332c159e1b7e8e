#include "vp.h"
#include <cassert>
#include "scenarios/algebraic/operator_rule.cpp"
using namespace Moment; using namespace Moment::Algebraic;
using R = OperatorRule; using HS = HashedSequence; using SV = sequence_storage_t;
VP_SIZE(hs, HS) VP_OFF(hs_hash, HS, the_hash) VP_OFF(hs_ops, HS, operators) VP_OFF(hs_sign, HS, sign)
VP_OFF(sv_heap, SV, heap_data) VP_OFF(sv_stack, SV, stack_data) VP_OFF(sv_size, SV, _size) VP_OFF(sv_cap, SV, _capacity) VP_OFF(sv_data, SV, data_start) VP_SIZE(sv, SV)
VP_SIZE(rule, R) VP_OFF(r_lhs, R, rawLHS) VP_OFF(r_rhs, R, rawRHS) VP_OFF(r_zero, R, map_to_zero) VP_OFF(r_triv, R, is_trivial) VP_OFF(r_delta, R, delta)
extern "C" {
void vp_apply(SV * o, const R * r, const SV * in, size_t at) { new (o) SV(r->apply_match_with_hint(*in, in->begin() + at)); }
void vp_rule(R * o, HS * a, HS * b) { new (o) R(std::move(*a), std::move(*b)); }
bool vp_implies_zero(const R * r) { return r->implies_zero(); }
int vp_sign(const R * r) { return (int)r->rule_sign(); }
bool vp_trivial(const R * r) { return r->trivial(); }
}
