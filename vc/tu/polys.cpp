#include "vp.h"
#include <cassert>
#include "symbolic/symbol.h"
#include "symbolic/polynomial.h"
#include "symbolic/polynomial.cpp"
#include "symbolic/polynomial_factory.h"
using namespace Moment;
using P = Polynomial; using SV = P::storage_t; using M = Monomial; using cd = std::complex<double>;
VP_SIZE(mono, M) VP_OFF(m_id, M, id) VP_OFF(m_conj, M, conjugated) VP_OFF(m_f, M, factor)
VP_SIZE(poly, P) VP_OFF(sv_heap, SV, heap_data) VP_OFF(sv_stack, SV, stack_data) VP_OFF(sv_size, SV, _size) VP_OFF(sv_cap, SV, _capacity) VP_OFF(sv_data, SV, data_start)
VP_SIZE(sym, Symbol) VP_OFF(sym_h, Symbol, hermitian) VP_OFF(sym_a, Symbol, antihermitian)
VP_SIZE(table, SymbolTable) VP_OFF(table_seq, SymbolTable, unique_sequences)
VP_SIZE(fac, PolynomialFactory) VP_OFF(fac_tol, PolynomialFactory, zero_tolerance)
extern "C" {
void vp_factory(P * o, const PolynomialFactory * f, SV * d);   // the factory's operator(), by contract
void (*vp_factory_p)(P *, const PolynomialFactory *, SV *) = vp_factory;
void vp_Re(P * o, const P * p, const PolynomialFactory * f) { new (o) P(p->Real(*f)); }
void vp_Im(P * o, const P * p, const PolynomialFactory * f) { new (o) P(p->Imaginary(*f)); }
bool vp_meq(const M * a, const M * b, double t) { return a->approximately_equals(*b, t); }
bool vp_mne(const M * a, const M * b, double t) { return a->not_approximately_equals(*b, t); }
bool vp_zero(const M * a, double t) { return approximately_zero(a->factor, t); }
bool vp_less(const M * a, const M * b) { return IdLessComparator{}(*a, *b); }
bool vp_more(const M * a, const M * b) { return IdMoreComparator{}(*a, *b); }
void vp_key_less(uint64_t * o, const M * a) { auto k = IdLessComparator{}.key(*a); o[0] = k.first; o[1] = k.second; }
void vp_key_more(uint64_t * o, const M * a) { auto k = IdMoreComparator{}.key(*a); o[0] = k.first; o[1] = k.second; }
void vp_dups(SV * d) { P::remove_duplicates(*d); }
void vp_zeros(SV * d, double t) { P::remove_zeros(*d, t); }
void vp_scale(P * p, const double * f, double t) { p->scale(cd{f[0], f[1]}, t); }
bool vp_peq(const P * a, const P * b, double t) { return a->approximately_equals(*b, t); }
bool vp_real(const P * p) { return p->real_factors(); }
bool vp_fixcc(P * p, const SymbolTable * t, bool can, double tol) { return p->fix_cc_in_place(*t, can, tol); }
bool vp_conj(P * p, const SymbolTable * t) { return p->conjugate_in_place(*t); }
bool vp_herm(const P * p, const SymbolTable * t, double tol) { return p->is_hermitian(*t, tol); }
bool vp_anti(const P * p, const SymbolTable * t, double tol) { return p->is_antihermitian(*t, tol); }
void vp_append(P * a, const P * b, double tol) { a->append(*b, IdLessComparator{}, tol); }
void vp_appendm(P * a, const P * b, double tol) { a->append(*b, IdMoreComparator{}, tol); }
void vp_ctor1(P * o, const M * m, double tol) { new (o) P(*m, tol); }
}
