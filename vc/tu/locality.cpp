#include "vp.h"
#include <cassert>
#include "scenarios/locality/party.cpp"
#include "scenarios/locality/locality_context.cpp"
using namespace Moment; using namespace Moment::Locality; using LC = LocalityContext; using SV = sequence_storage_t;
VP_OFF(sv_heap, SV, heap_data) VP_OFF(sv_stack, SV, stack_data) VP_OFF(sv_size, SV, _size) VP_OFF(sv_cap, SV, _capacity) VP_OFF(sv_data, SV, data_start) VP_SIZE(sv, SV)
VP_OFF(ctx_count, LC, operator_count) VP_SIZE(ctx, LC) VP_SIZE(party, Party) VP_SIZE(mmt, Measurement) VP_SIZE(pm, PMIndex) VP_OFF(pm_party, PMIndex, party) VP_OFF(pm_mmt, PMIndex, mmt) VP_OFF(pm_global, PMIndex, global_mmt)
VP_OFF(mmt_outcomes, Measurement, num_outcomes)
VP_OFF(ctx_parties, LC, parties) VP_OFF(ctx_mmt2party, LC, global_mmt_id_to_party) VP_OFF(ctx_op2party, LC, global_op_id_to_party)
VP_OFF(party_mmts, Party, measurements) VP_OFF(party_op2mmt, Party, offset_id_to_local_mmt) VP_OFF(party_gmmt, Party, global_measurement_offset) VP_OFF(party_gop, Party, global_operator_offset) VP_OFF(party_count, Party, party_operator_count) VP_OFF(party_ctx, Party, context) VP_OFF(party_inc, Party, included_operators) VP_OFF(mmt_off, Measurement, party_offset)
extern "C" {
bool vp_simplify(const LC * c, SV * w, SequenceSignType * s) { return c->LC::additional_simplification(*w, *s); }
bool vp_mutex(const Party * p, oper_name_t a, oper_name_t b) { return p->mutually_exclusive(a, b); }
oper_name_t vp_outcome(const Party * p, size_t m, size_t o) { return p->measurement_outcome(m, o); }
const Measurement * vp_mmtof(const Party * p, oper_name_t o) { return &p->measurement_of(o); }
oper_name_t vp_op(const Party * p, size_t i) { return (*p)[i]; }
void vp_pm(size_t * o, const LC * c, size_t g) { const auto x = c->global_index_to_PM(g); o[0] = x.party; o[1] = x.mmt; o[2] = x.global_mmt; }
size_t vp_gmmt(const LC * c, party_name_t p, mmt_name_t m) { return c->get_global_mmt_index(p, m); }
}
