#define EIGEN_SPARSEMATRIX_PLUGIN "../../replay/eigen_shim.h"
#include "vp.h"
#include <cassert>

#include "symbolic/symbol.h"
#include "symbolic/polynomial.h"
#include "symbolic/polynomial_to_basis.cpp"
#include "symbolic/polynomial_to_basis_mask.cpp"
using namespace Moment;
using P = Polynomial; using SV = P::storage_t; using M = Monomial; using cd = std::complex<double>; using T = Eigen::Triplet<double>;
VP_SIZE(mono, M) VP_OFF(m_id, M, id) VP_OFF(m_conj, M, conjugated) VP_OFF(m_f, M, factor)
VP_SIZE(poly, P) VP_OFF(sv_heap, SV, heap_data) VP_OFF(sv_stack, SV, stack_data) VP_OFF(sv_size, SV, _size) VP_OFF(sv_cap, SV, _capacity) VP_OFF(sv_data, SV, data_start)
VP_SIZE(sym, Symbol) VP_OFF(sym_h, Symbol, hermitian) VP_OFF(sym_a, Symbol, antihermitian) VP_OFF(sym_re, Symbol, real_index) VP_OFF(sym_im, Symbol, img_index)
VP_SIZE(table, SymbolTable) VP_OFF(table_seq, SymbolTable, unique_sequences) VP_OFF(table_basis, SymbolTable, Basis)
VP_OFF(basis_re, SymbolTable::BasisView, real_symbols) VP_OFF(basis_im, SymbolTable::BasisView, imaginary_symbols)
VP_SIZE(rbv, RealBasisVector) VP_OFF(rbv_re, RealBasisVector, real) VP_OFF(rbv_im, RealBasisVector, imaginary)
VP_SIZE(ribv, RealAndImaginaryBasisVector) VP_OFF(ribv_re, RealAndImaginaryBasisVector, real_part) VP_OFF(ribv_im, RealAndImaginaryBasisVector, imaginary_part)
VP_SIZE(cbv, ComplexBasisVector) VP_OFF(cbv_re, ComplexBasisVector, real) VP_OFF(cbv_im, ComplexBasisVector, imaginary)
using Mask = PolynomialToBasisMask::MaskType; VP_SIZE(mask, Mask)
extern "C" {
bool vp_small(double x, double t) { return approximately_zero(x, t); }
void vp_re(RealBasisVector * o, const SymbolTable * t, double tol, const P * p) { new (o) RealBasisVector(PolynomialToBasisVec{*t, tol}.Real(*p)); }
void vp_im(RealBasisVector * o, const SymbolTable * t, double tol, const P * p) { new (o) RealBasisVector(PolynomialToBasisVec{*t, tol}.Imaginary(*p)); }
void vp_both(RealAndImaginaryBasisVector * o, const SymbolTable * t, double tol, const P * p) { new (o) RealAndImaginaryBasisVector(PolynomialToBasisVec{*t, tol}(*p)); }
void vp_cplx(ComplexBasisVector * o, const SymbolTable * t, double tol, const P * p) { new (o) ComplexBasisVector(PolynomialToComplexBasisVec{*t, tol}(*p)); }
void vp_trip(const SymbolTable * t, double tol, const P * p, ptrdiff_t r, ptrdiff_t i, std::vector<T> * re, std::vector<T> * im) { PolynomialToBasisVec{*t, tol}.add_triplet_row(*p, r, i, *re, *im); }
void vp_trip1(const SymbolTable * t, double tol, const P * p, ptrdiff_t r, ptrdiff_t i, std::vector<T> * o) { PolynomialToBasisVec{*t, tol}.add_triplet_row(*p, r, i, *o); }
void vp_mask(const SymbolTable * t, double tol, const P * p, Mask * re, Mask * im) { PolynomialToBasisMask{*t, tol}.set_bits(*re, *im, *p); }
void vp_maskm(const SymbolTable * t, double tol, const M * p, Mask * re, Mask * im) { PolynomialToBasisMask{*t, tol}.set_bits(*re, *im, *p); }
}
