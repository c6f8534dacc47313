// Entry points for the select inventories (public API only).
#include <cassert>
#include "bit_vector.hpp"
#include "darray.hpp"
#include "darray64.hpp"
using namespace succinct;
typedef bit_vector_builder B;
extern "C" {
B* hb_new(uint64_t n, bool init) { return new B(n, init); }
void hb_del(B* b) { delete b; }
uint64_t* hb_data(B* b) { return b->move_bits().data(); }
bit_vector* bv_new(B* b) { return new bit_vector(b); }
void bv_del(bit_vector* v) { delete v; }
darray1* d1_new(bit_vector* v) { return new darray1(*v); }
darray0* d0_new(bit_vector* v) { return new darray0(*v); }
void d1_del(darray1* d) { delete d; }
void d0_del(darray0* d) { delete d; }
uint64_t d1_len(darray1 const* d) { return d->num_positions(); }
uint64_t d0_len(darray0 const* d) { return d->num_positions(); }
uint64_t d1_select(darray1 const* d, bit_vector const* v, uint64_t i) { return d->select(*v, i); }
uint64_t d0_select(darray0 const* d, bit_vector const* v, uint64_t i) { return d->select(*v, i); }
darray64::builder* d64b_new() { return new darray64::builder(); }
void d64b_add(darray64::builder* b, uint64_t k) { b->append1(k); }
void d64b_del(darray64::builder* b) { delete b; }
darray64* d64_new(darray64::builder* b) { return new darray64(b); }
void d64_del(darray64* d) { delete d; }
uint64_t d64_len(darray64 const* d) { return d->num_ones(); }
uint64_t d64_select(darray64 const* d, uint64_t i) { return d->select(i); }
uint64_t d64_size(darray64 const* d) { return d->bits().size(); }
bool d64_bit(darray64 const* d, uint64_t i) { return d->bits()[i]; }
}
