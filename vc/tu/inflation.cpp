#include "vp.h"
#include <cassert>
#include "scenarios/inflation/observable.cpp"
#include "scenarios/inflation/causal_network.cpp"
#include "scenarios/inflation/inflation_context.cpp"
#include "scenarios/inflation/factor_table.cpp"
using namespace Moment; using namespace Moment::Inflation; using IC = InflationContext; using SV = sequence_storage_t; using OI = IC::ICOperatorInfo;
VP_OFF(sv_heap, SV, heap_data) VP_OFF(sv_stack, SV, stack_data) VP_OFF(sv_size, SV, _size) VP_OFF(sv_cap, SV, _capacity) VP_OFF(sv_data, SV, data_start) VP_SIZE(sv, SV)
VP_OFF(si_size, SourceIndex, _size) VP_OFF(si_data, SourceIndex, data_start) VP_OFF(si_stack, SourceIndex, stack_data) VP_OFF(si_heap, SourceIndex, heap_data) VP_OFF(si_cap, SourceIndex, _capacity) VP_SIZE(si, SourceIndex)
VP_OFF(ctx_info, IC, operator_info) VP_OFF(ctx_obs, IC, inflated_observables) VP_OFF(ctx_count, IC, operator_count) VP_OFF(ctx_inf, IC, inflation) VP_OFF(ctx_net, IC, base_network) VP_SIZE(ctx, IC)
VP_OFF(info_id, OI, global_id) VP_OFF(info_obs, OI, observable) VP_OFF(info_var, OI, variant) VP_OFF(info_out, OI, outcome) VP_OFF(info_proj, OI, projective) VP_SIZE(info, OI)
VP_OFF(obs_id, Observable, id) VP_OFF(obs_outcomes, Observable, outcomes) VP_OFF(obs_count, Observable, source_count) VP_OFF(obs_single, Observable, singleton) VP_SIZE(obs, Observable)
using ICO = IC::ICObservable; VP_OFF(ico_op, ICO, operator_offset) VP_OFF(ico_voff, ICO, variant_offset) VP_OFF(ico_vcount, ICO, variant_count) VP_OFF(ico_outcomes, ICO, outcomes) VP_SIZE(ico, ICO)
VP_SIZE(src, Source) VP_OFF(net_obs, CausalNetwork, observables) VP_OFF(net_src, CausalNetwork, sources) VP_OFF(net_imp, CausalNetwork, implicit_source_index) VP_SIZE(net, CausalNetwork)
extern "C" {
bool vp_simplify(const IC * c, SV * w, SequenceSignType * s) { return c->IC::additional_simplification(*w, *s); }
bool vp_canonical(const IC * c, const SV * w) { return c->IC::get_if_canonical(*w).has_value(); }
oper_name_t vp_flatten(const Observable * o, size_t inf, const oper_name_t * d, size_t n) { return o->flatten_index(inf, std::span<const oper_name_t>{d, n}); }
void vp_unflatten(SourceIndex * out, const Observable * o, size_t inf, oper_name_t i) { new (out) SourceIndex(o->unflatten_index(inf, i)); }
size_t vp_copies(const Observable * o, size_t inf) { return o->count_copies(inf); }
size_t vp_operators(const Observable * o, size_t inf) { return o->count_operators(inf); }
size_t vp_src_to_global(const CausalNetwork * n, size_t inf, size_t s, size_t v) { return n->source_variant_to_global_source(inf, s, v); }
void vp_global_to_src(size_t * o, const CausalNetwork * n, size_t inf, size_t g) { auto [s, v] = n->global_source_to_source_variant(inf, g); o[0] = s; o[1] = v; }
size_t vp_total_src(const CausalNetwork * n, size_t inf) { return n->total_source_count(inf); }
oper_name_t vp_opnumber(const IC * c, oper_name_t o, oper_name_t v, oper_name_t x) { return c->operator_number(o, v, x); }
oper_name_t vp_ov(const IC * c, oper_name_t o, oper_name_t v) { return c->obs_variant_to_index(o, v); }
void vp_combine(std::vector<symbol_name_t> * o, const std::vector<symbol_name_t> * a, const std::vector<symbol_name_t> * b) { FactorTable::combine_symbolic_factors(*o, *a, *b); }
}
