#include "sequence_sign_type.h"
#include "hashed_sequence.h"
using namespace Moment;
using S = SequenceSignType;
extern "C" {
uint8_t vp_neg(uint8_t a) { return (uint8_t) negate((S) a); }
bool vp_is_neg(uint8_t a) { return is_negative((S) a); }
bool vp_is_imag(uint8_t a) { return is_imaginary((S) a); }
uint8_t vp_conj(uint8_t a) { return (uint8_t) conjugate((S) a); }
uint8_t vp_mul(uint8_t a, uint8_t b) { return (uint8_t) ((S) a * (S) b); }
uint8_t vp_diff(uint8_t a, uint8_t b) { return (uint8_t) difference((S) a, (S) b); }
bool vp_are_neg(uint8_t a, uint8_t b) { return are_negatives((S) a, (S) b); }
void vp_scalar(uint8_t a, double * out) { const std::complex<double> x = to_scalar((S) a); out[0] = x.real(); out[1] = x.imag(); }
}
