#include "vp.h"
#include "utilities/small_vector.h"
#include "hashed_sequence.h"
using namespace Moment;
using SV = sequence_storage_t; using V = oper_name_t;
VP_OFF(sv_heap, SV, heap_data) VP_OFF(sv_stack, SV, stack_data) VP_OFF(sv_size, SV, _size) VP_OFF(sv_cap, SV, _capacity) VP_OFF(sv_data, SV, data_start) VP_SIZE(sv, SV)
extern "C" const size_t vp_sv_N = op_seq_stack_length;
extern "C" {
size_t vp_suggest(size_t n) { return SV::suggest_capacity(n); }
void vp_default(SV * o) { new (o) SV{}; }
void vp_copy(SV * o, const SV * r) { new (o) SV(*r); }
void vp_move(SV * o, SV * r) { new (o) SV(std::move(*r)); }
void vp_assign(SV * o, const SV * r) { *o = *r; }
void vp_massign(SV * o, SV * r) { *o = std::move(*r); }
void vp_repeat(SV * o, size_t n, V v) { new (o) SV(n, v); }
void vp_range(SV * o, const V * b, const V * e) { new (o) SV(b, e); }
void vp_push(SV * o, V v) { o->push_back(v); }
void vp_emplace(SV * o, V v) { o->emplace_back(v); }
void vp_pop(SV * o) { o->pop_back(); }
void vp_clear(SV * o) { o->clear(); }
void vp_reserve(SV * o, size_t n) { o->reserve(n); }
void vp_insert(SV * o, V * w, const V * b, const V * e) { o->insert(w, b, e); }
V * vp_erase(SV * o, V * b, V * e) { return o->erase(b, e); }
void vp_swap(SV * a, SV * b) { a->swap(*b); }
void vp_fswap(SV * a, SV * b) { swap(*a, *b); }
bool vp_eq(const SV * a, const SV * b) { return *a == *b; }
bool vp_ne(const SV * a, const SV * b) { return *a != *b; }
V vp_at(const SV * a, size_t i) { return (*a)[i]; }
V vp_front(const SV * a) { return a->front(); }
V vp_back(const SV * a) { return a->back(); }
V * vp_begin(SV * a) { return a->begin(); }
V * vp_end(SV * a) { return a->end(); }
const V * vp_cbegin(const SV * a) { return a->cbegin(); }
const V * vp_cend(const SV * a) { return a->cend(); }
size_t vp_size(const SV * a) { return a->size(); }
bool vp_empty(const SV * a) { return a->empty(); }
size_t vp_capacity(const SV * a) { return a->capacity(); }
bool vp_on_heap(const SV * a) { return a->on_heap(); }
void vp_destroy(SV * a) { a->~SV(); }
const V * vp_span(const SV * a, size_t * n) { std::span<const V> s = *a; *n = s.size(); return s.data(); }
}
