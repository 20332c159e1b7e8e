#include "vp.h"
#include <cassert>
#include "probability/collins_gisin.cpp"
#include "scenarios/locality/tensor_conversion.cpp"
#include "scenarios/locality/locality_collins_gisin.cpp"
#define make_dimensions make_dimensions_pt
#include "scenarios/locality/locality_probability_tensor.cpp"
#undef make_dimensions
#include "probability/probability_tensor.cpp"
#include "probability/full_correlator.cpp"
using namespace Moment; using CG = CollinsGisin; using PT = ProbabilityTensor; using LCG = Locality::LocalityCollinsGisin; using LPT = Locality::LocalityProbabilityTensor; using CR = CollinsGisinRange; using PR = ProbabilityTensorRange; using GM = CG::GlobalMeasurementIndex; using LGM = LPT::GlobalMeasurementIndex; using Locality::PMIndex; using Locality::PMOIndex; using EI = PT::ElementConstructInfo; using DI = PT::OneDimensionInfo;
VP_SIZE(cg, CG) VP_SIZE(lcg, LCG) VP_SIZE(lpt, LPT) VP_SIZE(gm, GM) VP_OFF(gm_party, GM, party) VP_OFF(gm_offset, GM, offset) VP_OFF(gm_length, GM, length) VP_SIZE(lgm, LGM) VP_OFF(lgm_party, LGM, party) VP_OFF(lgm_offset, LGM, offset) VP_OFF(lgm_length, LGM, length)
VP_OFF(cg_dims, CG, Dimensions) VP_OFF(cg_gm, CG, gmIndex) VP_OFF(pt_dims, LPT, Dimensions) VP_OFF(pt_gm, LPT, gmInfo) VP_SIZE(cr, CR) VP_OFF(cr_first, CR, first) VP_OFF(cr_last, CR, last) VP_OFF(cr_tensor, CR, tensor)
VP_SIZE(pr, PR) VP_OFF(pr_first, PR, first) VP_OFF(pr_last, PR, last) VP_OFF(pr_tensor, PR, tensor)
VP_SIZE(pmi, PMIndex) VP_OFF(pmi_global, PMIndex, global_mmt) VP_SIZE(pmo, PMOIndex) VP_OFF(pmo_global, PMOIndex, global_mmt) VP_OFF(pmo_outcome, PMOIndex, outcome)
VP_SIZE(ei, EI) VP_OFF(ei_base, EI, baseIndex) VP_OFF(ei_final, EI, finalIndex) VP_OFF(ei_imp, EI, implicitMmts) VP_SIZE(di, DI) VP_OFF(di_cg, DI, cgDimensionIndex) VP_OFF(di_out, DI, outcome_index) VP_OFF(di_imp, DI, implicit) VP_OFF(pt_info, PT, dimensionInfo)
extern "C" {
void vp_cg_range(CR * o, const CG * c, const size_t * m, size_t n) { new (o) CR(c->measurement_to_range(std::span<const size_t>(m, n))); }
void vp_cg_fixed(CR * o, const CG * c, const size_t * m, size_t n, const oper_name_t * f) { new (o) CR(c->measurement_to_range(std::span<const size_t>(m, n), std::span<const oper_name_t>(f, n))); }
void vp_lcg_range(CR * o, const LCG * c, const PMIndex * m, size_t n) { new (o) CR(c->measurement_to_range(std::span<const PMIndex>(m, n))); }
void vp_lcg_fixed(CR * o, const LCG * c, const PMIndex * m, size_t n, const PMOIndex * f, size_t k) { new (o) CR(c->measurement_to_range(std::span<const PMIndex>(m, n), std::span<const PMOIndex>(f, k))); }
void vp_lpt_range(PR * o, const LPT * c, const PMIndex * m, size_t n) { new (o) PR(c->measurement_to_range(std::span<const PMIndex>(m, n))); }
void vp_lpt_fixed(PR * o, const LPT * c, const PMIndex * m, size_t n, const PMOIndex * f, size_t k) { new (o) PR(c->measurement_to_range(std::span<const PMIndex>(m, n), std::span<const PMOIndex>(f, k))); }
void vp_info(const PT * t, const size_t * i, size_t n, EI * o) { t->element_info(std::span<const size_t>(i, n), *o); }
void vp_fc2cg(std::vector<double> * o, const Locality::TensorConvertor * t, const double * f, size_t n) { new (o) std::vector<double>(t->full_correlator_to_collins_gisin(std::span<const double>(f, n))); }
void vp_cg2fc(std::vector<double> * o, const Locality::TensorConvertor * t, const double * f, size_t n) { new (o) std::vector<double>(t->collins_gisin_to_full_correlator(std::span<const double>(f, n))); }
}
