// Entry points for rank/select structures (public API only).
#include <cassert>
#include "bit_vector.hpp"
#include "rs_bit_vector.hpp"
#include "rs_bit_vector.cpp"
#include "darray.hpp"
using namespace succinct;
typedef bit_vector_builder B;
typedef rs_bit_vector R;
extern "C" {
B* hb_new(uint64_t n, bool init) { return new B(n, init); }
uint64_t* hb_data(B* b) { return b->move_bits().data(); }
uint64_t hb_word(B* b, uint64_t i) { return b->move_bits()[i]; }
R* hr_new(B* b, bool h1, bool h0) { return new R(b, h1, h0); }
R* hr_empty() { return new R(); }
void hr_del(R* r) { delete r; }
uint64_t hr_rank(R const* r, uint64_t p) { return r->rank(p); }
uint64_t hr_rank0(R const* r, uint64_t p) { return r->rank0(p); }
uint64_t hr_ones(R const* r) { return r->num_ones(); }
uint64_t hr_zeros(R const* r) { return r->num_zeros(); }
uint64_t hr_size(R const* r) { return r->size(); }
bool hr_at(R const* r, uint64_t p) { return (*r)[p]; }
uint64_t hr_select(R const* r, uint64_t n) { return r->select(n); }
uint64_t hr_select0(R const* r, uint64_t n) { return r->select0(n); }
void hr_swap(R* a, R* b) { a->swap(*b); }

typedef bit_vector V;
V* hv_from(B* b) { return new V(b); }
darray1* hd1_new(V const* v) { return new darray1(*v); }
darray0* hd0_new(V const* v) { return new darray0(*v); }
uint64_t hd1_num(darray1 const* d) { return d->num_positions(); }
uint64_t hd0_num(darray0 const* d) { return d->num_positions(); }
uint64_t hd1_select(darray1 const* d, V const* v, uint64_t n) { return d->select(*v, n); }
uint64_t hd0_select(darray0 const* d, V const* v, uint64_t n) { return d->select(*v, n); }
}
