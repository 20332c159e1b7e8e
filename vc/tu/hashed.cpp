#include "vp.h"
#include "hashed_sequence.cpp"
#include "utilities/substring_hasher.h"
using namespace Moment;
VP_SIZE(hs, HashedSequence) VP_OFF(hs_hash, HashedSequence, the_hash) VP_OFF(hs_ops, HashedSequence, operators) VP_OFF(hs_sign, HashedSequence, sign)
VP_OFF(sv_heap, sequence_storage_t, heap_data) VP_OFF(sv_stack, sequence_storage_t, stack_data) VP_OFF(sv_size, sequence_storage_t, _size)
VP_OFF(sv_cap, sequence_storage_t, _capacity) VP_OFF(sv_data, sequence_storage_t, data_start) VP_SIZE(sv, sequence_storage_t)
VP_SIZE(hasher, ShortlexHasher) VP_OFF(radix, ShortlexHasher, radix) VP_OFF(offset, ShortlexHasher, offset)
extern "C" {
hash_t vp_hash(const ShortlexHasher * h, const oper_name_t * s, size_t n) { return h->hash(std::span<const oper_name_t>(s, n)); }
hash_t vp_hash_call(const ShortlexHasher * h, const oper_name_t * s, size_t n) { return (*h)(std::span<const oper_name_t>(s, n)); }
hash_t vp_hash1(const ShortlexHasher * h, oper_name_t s) { return h->hash(s); }
bool vp_matches(const HashedSequence * p, const oper_name_t * b, const oper_name_t * e) { return p->matches(b, e); }
const oper_name_t * vp_anywhere(const HashedSequence * p, const oper_name_t * b, const oper_name_t * e) { return p->matches_anywhere(b, e); }
ptrdiff_t vp_overlap(const HashedSequence * p, const HashedSequence * q) { return p->suffix_prefix_overlap(*q); }
bool vp_eq(const HashedSequence * p, const HashedSequence * q) { return *p == *q; }
bool vp_ne(const HashedSequence * p, const HashedSequence * q) { return *p != *q; }
bool vp_lt(const HashedSequence * p, const HashedSequence * q) { return *p < *q; }
int vp_csn(const HashedSequence * p, const HashedSequence * q) { return HashedSequence::compare_same_negation(*p, *q); }
bool vp_zero(const HashedSequence * p) { return p->zero(); }
bool vp_negated(const HashedSequence * p) { return p->negated(); }
bool vp_imaginary(const HashedSequence * p) { return p->imaginary(); }
void vp_rehash(HashedSequence * p, const ShortlexHasher * h) { p->rehash(*h); }
}
