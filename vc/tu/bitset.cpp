#include "vp.h"
#include "utilities/dynamic_bitset.h"
using namespace Moment;
using B = DynamicBitset<uint64_t>;
VP_SIZE(bs, B) VP_OFF(bs_size, B, bit_size) VP_OFF(bs_pages, B, page_count) VP_OFF(bs_mask, B, final_page_mask) VP_OFF(bs_data, B, data)
extern "C" {
size_t vp_required(size_t n) { return B::pages_required(n); }
uint64_t vp_mask(size_t n) { return B::make_final_mask(n); }
void vp_ctor(B * o, size_t n) { new (o) B(n); }
void vp_ctor2(B * o, size_t n, bool v) { new (o) B(n, v); }
void vp_set(B * o, size_t i) { o->set(i); }
void vp_unset(B * o, size_t i) { o->unset(i); }
bool vp_test(const B * o, size_t i) { return o->test(i); }
bool vp_sub(const B * o, size_t i) { return (*o)[i]; }
bool vp_proxy_get(B * o, size_t i) { return (*o)[i]; }
void vp_proxy_set(B * o, size_t i, bool v) { (*o)[i] = v; }
void vp_clear(B * o) { o->clear(); }
bool vp_empty(const B * o) { return o->empty(); }
size_t vp_first(const B * o) { return o->first_index(); }
bool vp_eq(const B * a, const B * b) { return *a == *b; }
bool vp_ne(const B * a, const B * b) { return *a != *b; }
void vp_and(B * a, const B * b) { *a &= *b; }
void vp_or(B * a, const B * b) { *a |= *b; }
void vp_inv(B * a) { a->invert_in_place(); }
uint64_t vp_small(const B * a, size_t f, size_t n) { return a->small_subset(f, n); }
void vp_subset(B * o, const B * a, size_t f, size_t n) { new (o) B(a->subset(f, n)); }
size_t vp_count(const B * a) { return a->count(); }
void vp_swap(B * a, B * b) { a->swap(*b); }
}
