// Entry points for elias_fano (public API only).
#include <cassert>
#include "bit_vector.hpp"
#include "elias_fano.hpp"
using namespace succinct;
typedef elias_fano E;
typedef elias_fano::elias_fano_builder EB;
typedef bit_vector_builder B;
extern "C" {
B* hb_new(uint64_t n, bool init) { return new B(n, init); }
uint64_t* hb_data(B* b) { return b->move_bits().data(); }
uint64_t hb_word(B* b, uint64_t i) { return b->move_bits()[i]; }
EB* eb_new(uint64_t n, uint64_t m) { return new EB(n, m); }
void eb_push(EB* b, uint64_t i) { b->push_back(i); }
void eb_del(EB* b) { delete b; }
E* ef_new(EB* b, bool rank) { return new E(b, rank); }
E* ef_from(B* b, bool rank) { return new E(b, rank); }
E* ef_empty() { return new E(); }
void ef_del(E* e) { delete e; }
uint64_t ef_size(E const* e) { return e->size(); }
uint64_t ef_ones(E const* e) { return e->num_ones(); }
uint64_t ef_select(E const* e, uint64_t i) { return e->select(i); }
uint64_t ef_delta(E const* e, uint64_t i) { return e->delta(i); }
uint64_t ef_rank(E const* e, uint64_t i) { return e->rank(i); }
bool ef_at(E const* e, uint64_t i) { return (*e)[i]; }
uint64_t ef_pred(E const* e, uint64_t i) { return e->predecessor1(i); }
uint64_t ef_succ(E const* e, uint64_t i) { return e->successor1(i); }
void ef_range(E const* e, uint64_t i, uint64_t* out) { std::pair<uint64_t, uint64_t> p = e->select_range(i); out[0] = p.first; out[1] = p.second; }
E::select_enumerator* ee_new(E const* e, uint64_t i) { return new E::select_enumerator(*e, i); }
uint64_t ee_next(E::select_enumerator* s) { return s->next(); }
void ee_del(E::select_enumerator* s) { delete s; }
void ef_swap(E* a, E* b) { a->swap(*b); }
}
