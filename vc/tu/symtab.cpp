#include "vp.h"
#include <cassert>
#include "symbolic/symbol.cpp"
#include "symbolic/symbol_table.cpp"
#include "scenarios/context.h"
using namespace Moment;
using T = SymbolTable; using B = T::BasisView; using OS = OperatorSequence;
VP_SIZE(sym, Symbol) VP_OFF(sym_id, Symbol, id) VP_OFF(sym_op, Symbol, opSeq) VP_OFF(sym_cop, Symbol, conjSeq) VP_OFF(sym_h, Symbol, hermitian) VP_OFF(sym_a, Symbol, antihermitian) VP_OFF(sym_re, Symbol, real_index) VP_OFF(sym_im, Symbol, img_index)
VP_SIZE(os, OS) VP_OFF(os_hash, OS, the_hash) VP_OFF(os_ops, OS, operators) VP_OFF(os_sign, OS, sign) VP_OFF(sv_size, sequence_storage_t, _size) VP_OFF(sv_data, sequence_storage_t, data_start)
VP_SIZE(table, T) VP_OFF(t_seq, T, unique_sequences) VP_OFF(t_map, T, hash_table) VP_OFF(t_ctx, T, context) VP_OFF(t_basis, T, Basis) VP_OFF(t_alias, T, can_have_aliases)
VP_OFF(b_tab, B, symbol_table) VP_OFF(b_re, B, real_symbols) VP_OFF(b_im, B, imaginary_symbols) VP_OFF(b_ior, B, im_of_real) VP_OFF(b_roi, B, re_of_imaginary)
extern "C" {
void vp_push(ptrdiff_t * o, B * b, symbol_name_t id, bool re, bool im) { auto p = b->push_back(id, re, im); o[0] = p.first; o[1] = p.second; }
void vp_renum(size_t * o, B * b) { auto p = b->renumerate_bases(); o[0] = p.first; o[1] = p.second; }
void vp_h2i(ptrdiff_t * o, const T * t, size_t h) { auto p = t->hash_to_index(h); o[0] = p.first; o[1] = p.second; }
symbol_name_t vp_merge(T * t, Symbol * s, size_t * n) { return t->merge_in(std::move(*s), n); }
symbol_name_t vp_create(T * t, bool re, bool im) { return t->create(re, im); }
void vp_symbol(Symbol * o, OS * a, OS * b) { new (o) Symbol(std::move(*a), std::move(*b)); }
void vp_byid(ptrdiff_t * o, const T * t, symbol_name_t id) { auto p = t->Basis(id); o[0] = p.first; o[1] = p.second; }
ptrdiff_t vp_im_from_re(const T * t, ptrdiff_t i) { return t->Basis.imaginary_from_real(i); }
ptrdiff_t vp_re_from_im(const T * t, ptrdiff_t i) { return t->Basis.real_from_imaginary(i); }
}
