#include "vp.h"
#include <cassert>
#include "scenarios/pauli/pauli_context.cpp"
using namespace Moment; using namespace Moment::Pauli;
using HS = HashedSequence; using SV = sequence_storage_t; using OS = OperatorSequence; using PC = PauliContext;
VP_SIZE(hs, HS) VP_OFF(hs_hash, HS, the_hash) VP_OFF(hs_ops, HS, operators) VP_OFF(hs_sign, HS, sign)
VP_OFF(sv_heap, SV, heap_data) VP_OFF(sv_stack, SV, stack_data) VP_OFF(sv_size, SV, _size) VP_OFF(sv_cap, SV, _capacity) VP_OFF(sv_data, SV, data_start) VP_SIZE(sv, SV)
VP_SIZE(os, OS) VP_OFF(os_ctx, OS, context) VP_SIZE(ctx, PC) VP_OFF(ctx_hasher, PC, hasher)
extern "C" {
bool vp_simplify(const PC * c, SV * w, SequenceSignType * s) { return c->PC::additional_simplification(*w, *s); }
void vp_mult(OS * o, const PC * c, const OS * a, const OS * b) { new (o) OS(c->PC::multiply(*a, *b)); }
void vp_conj(OS * o, const PC * c, const OS * a) { new (o) OS(c->PC::conjugate(*a)); }
void vp_comm(OS * o, const PC * c, const OS * a, const OS * b) { new (o) OS(c->PC::commutator(*a, *b)); }
void vp_acomm(OS * o, const PC * c, const OS * a, const OS * b) { new (o) OS(c->PC::anticommutator(*a, *b)); }
void vp_sx(OS * o, const PC * c, oper_name_t q, int s) { new (o) OS(c->sigmaX(q, (SequenceSignType) s)); }
void vp_sy(OS * o, const PC * c, oper_name_t q, int s) { new (o) OS(c->sigmaY(q, (SequenceSignType) s)); }
void vp_sz(OS * o, const PC * c, oper_name_t q, int s) { new (o) OS(c->sigmaZ(q, (SequenceSignType) s)); }
}
