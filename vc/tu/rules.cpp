#include "vp.h"
#include <cassert>
#include "symbolic/symbol.h"
#include "symbolic/polynomial.h"
#include "symbolic/symbol_tools.cpp"
#include "symbolic/rules/moment_rule.cpp"
using namespace Moment;
using P = Polynomial; using SV = P::storage_t; using M = Monomial; using R = MomentRule;
VP_SIZE(mono, M) VP_OFF(m_id, M, id) VP_OFF(m_conj, M, conjugated) VP_OFF(m_f, M, factor)
VP_SIZE(poly, P) VP_OFF(sv_heap, SV, heap_data) VP_OFF(sv_stack, SV, stack_data) VP_OFF(sv_size, SV, _size) VP_OFF(sv_cap, SV, _capacity) VP_OFF(sv_data, SV, data_start)
VP_SIZE(sym, Symbol) VP_OFF(sym_h, Symbol, hermitian) VP_OFF(sym_a, Symbol, antihermitian)
VP_SIZE(table, SymbolTable) VP_OFF(table_seq, SymbolTable, unique_sequences)
VP_SIZE(fac, PolynomialFactory) VP_OFF(fac_tol, PolynomialFactory, zero_tolerance)
VP_SIZE(rule, R) VP_OFF(rule_lhs, R, lhs) VP_OFF(rule_rhs, R, rhs) VP_OFF(rule_part, R, partial)
extern "C" {
int vp_difficulty(const P * p, double tol) { return static_cast<int>(R::get_difficulty(*p, tol)); }
extern const int vp_d_trivial = (int)R::PolynomialDifficulty::Trivial, vp_d_contra = (int)R::PolynomialDifficulty::Contradiction, vp_d_simple = (int)R::PolynomialDifficulty::Simple,
  vp_d_re = (int)R::PolynomialDifficulty::NeedsReorienting, vp_d_non = (int)R::PolynomialDifficulty::NonorientableRule;
bool vp_matches(const R * r, const P * p) { return r->matches(*p); }
void vp_info(size_t * o, const R * r, const P * p) { auto [n, it] = r->match_info(*p); o[0] = n; o[1] = it - p->begin(); }
void vp_transform(const R * r, const M * m, SV * out) { r->append_transformed(*m, std::back_inserter(*out)); }
void vp_reduce_mono(M * out, const R * r, const SymbolTable * t, const M * m) { *out = r->reduce_monomial(*t, *m); }
void vp_canon(M * m, const SymbolTable * t) { SymbolTools{*t}.make_canonical(*m); }
bool vp_same_norm(const double * a, const double * b, double t) { return approximately_same_norm(std::complex<double>{a[0], a[1]}, std::complex<double>{b[0], b[1]}, t); }
}
