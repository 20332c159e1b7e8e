#include "vp.h"
#include <cassert>
#include <span>
#include <cstdint>
#include "dictionary/operator_sequence.h"
#include "scenarios/pauli/symmetry/site_hasher.h"
using namespace Moment; using namespace Moment::Pauli; using u64 = uint64_t; using SV = sequence_storage_t;
using H1 = SiteHasher<1>; using H2 = SiteHasher<2>; using H3 = SiteHasher<3>; using A2 = std::array<u64, 2>; using A3 = std::array<u64, 3>;
VP_OFF(sv_size, SV, _size) VP_OFF(sv_cap, SV, _capacity) VP_OFF(sv_data, SV, data_start) VP_OFF(sv_heap, SV, heap_data) VP_OFF(sv_stack, SV, stack_data) VP_SIZE(sv, SV)
VP_SIZE(h1, H1) VP_SIZE(h2, H2) VP_SIZE(h3, H3)
extern "C" {
void vp_ctor1(H1 * o, size_t h, size_t w) { new (o) H1(h, w); }
void vp_ctor2(H2 * o, size_t h, size_t w) { new (o) H2(h, w); }
void vp_ctor3(H3 * o, size_t h, size_t w) { new (o) H3(h, w); }
void vp_cyc1(u64 * o, const H1 * h, const u64 * i, size_t k) { *o = h->cyclic_shift(*i, k); }
void vp_cyc2(A2 * o, const H2 * h, const A2 * i, size_t k) { *o = h->cyclic_shift(*i, k); }
void vp_cyc3(A3 * o, const H3 * h, const A3 * i, size_t k) { *o = h->cyclic_shift(*i, k); }
void vp_row1(u64 * o, const H1 * h, const u64 * i, size_t k) { *o = h->row_cyclic_shift(*i, k); }
void vp_row2(A2 * o, const H2 * h, const A2 * i, size_t k) { *o = h->row_cyclic_shift(*i, k); }
void vp_row3(A3 * o, const H3 * h, const A3 * i, size_t k) { *o = h->row_cyclic_shift(*i, k); }
void vp_col1(u64 * o, const H1 * h, const u64 * i, size_t k) { *o = h->col_shift(*i, k); }
void vp_col2(A2 * o, const H2 * h, const A2 * i, size_t k) { *o = h->col_shift(*i, k); }
void vp_col3(A3 * o, const H3 * h, const A3 * i, size_t k) { *o = h->col_shift(*i, k); }
void vp_lat1(u64 * o, const H1 * h, const u64 * i, size_t r, size_t c) { *o = h->lattice_shift(*i, r, c); }
void vp_lat2(A2 * o, const H2 * h, const A2 * i, size_t r, size_t c) { *o = h->lattice_shift(*i, r, c); }
void vp_lat3(A3 * o, const H3 * h, const A3 * i, size_t r, size_t c) { *o = h->lattice_shift(*i, r, c); }
u64 vp_ext1(const H1 * h, const u64 * i, size_t c) { return h->extract_column(*i, c); }
u64 vp_ext2(const H2 * h, const A2 * i, size_t c) { return h->extract_column(*i, c); }
u64 vp_ext3(const H3 * h, const A3 * i, size_t c) { return h->extract_column(*i, c); }
bool vp_less1(const u64 * a, const u64 * b) { return H1::less(*a, *b); }
bool vp_less2(const A2 * a, const A2 * b) { return H2::less(*a, *b); }
bool vp_less3(const A3 * a, const A3 * b) { return H3::less(*a, *b); }
void vp_hash1(u64 * o, const H1 * h, const oper_name_t * p, size_t n) { *o = h->hash(std::span<const oper_name_t>(p, n)); }
void vp_hash2(A2 * o, const H2 * h, const oper_name_t * p, size_t n) { *o = h->hash(std::span<const oper_name_t>(p, n)); }
void vp_hash3(A3 * o, const H3 * h, const oper_name_t * p, size_t n) { *o = h->hash(std::span<const oper_name_t>(p, n)); }
void vp_unhash1(SV * o, const H1 * h, const u64 * i) { new (o) SV(h->unhash(*i)); }
void vp_unhash2(SV * o, const H2 * h, const A2 * i) { new (o) SV(h->unhash(*i)); }
void vp_unhash3(SV * o, const H3 * h, const A3 * i) { new (o) SV(h->unhash(*i)); }
void vp_canon1(std::pair<u64, u64> * o, const H1 * h, const oper_name_t * p, size_t n) { *o = h->canonical_hash(std::span<const oper_name_t>(p, n)); }
void vp_canon2(std::pair<A2, A2> * o, const H2 * h, const oper_name_t * p, size_t n) { *o = h->canonical_hash(std::span<const oper_name_t>(p, n)); }
}
