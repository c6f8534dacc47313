// Entry points for bit_vector_builder / bit_vector / enumerators (public API only).
#include <cassert>
#include "bit_vector.hpp"
#include "rs_bit_vector.hpp"
using namespace succinct;
typedef bit_vector_builder B;
typedef bit_vector V;
extern "C" {
B* hb_new(uint64_t n, bool init) { return new B(n, init); }
B* hb_empty() { return new B(); }
void hb_del(B* b) { delete b; }
void hb_push(B* b, bool x) { b->push_back(x); }
void hb_set(B* b, uint64_t p, bool x) { b->set(p, x); }
void hb_set_bits(B* b, uint64_t p, uint64_t x, size_t l) { b->set_bits(p, x, l); }
void hb_append_bits(B* b, uint64_t x, size_t l) { b->append_bits(x, l); }
void hb_zero_extend(B* b, uint64_t n) { b->zero_extend(n); }
void hb_one_extend(B* b, uint64_t n) { b->one_extend(n); }
void hb_append(B* b, B* r) { b->append(*r); }
void hb_reverse(B* b) { b->reverse(); }
void hb_reserve(B* b, uint64_t n) { b->reserve(n); }
void hb_swap(B* a, B* b) { a->swap(*b); }
uint64_t hb_size(B* b) { return b->size(); }
uint64_t hb_nwords(B* b) { return b->move_bits().size(); }
uint64_t hb_word(B* b, uint64_t i) { return b->move_bits()[i]; }
uint64_t* hb_data(B* b) { return b->move_bits().data(); }

V* hv_from(B* b) { return new V(b); }
V* hv_empty() { return new V(); }
void hv_del(V* v) { delete v; }
V* hv_range(std::vector<uint8_t> const* r) { return new V(*r); }
std::vector<uint8_t>* h_bytes(uint64_t n) { return new std::vector<uint8_t>(n); }
void h_byte_set(std::vector<uint8_t>* v, uint64_t i, uint8_t x) { (*v)[i] = x; }
uint64_t hv_size(V const* v) { return v->size(); }
bool hv_at(V const* v, uint64_t p) { return (*v)[p]; }
uint64_t hv_get_bits(V const* v, uint64_t p, uint64_t l) { return v->get_bits(p, l); }
uint64_t hv_get_word(V const* v, uint64_t p) { return v->get_word(p); }
uint64_t hv_get_word56(V const* v, uint64_t p) { return v->get_word56(p); }
uint64_t hv_pred0(V const* v, uint64_t p) { return v->predecessor0(p); }
uint64_t hv_pred1(V const* v, uint64_t p) { return v->predecessor1(p); }
uint64_t hv_succ0(V const* v, uint64_t p) { return v->successor0(p); }
uint64_t hv_succ1(V const* v, uint64_t p) { return v->successor1(p); }
uint64_t hv_nwords(V const* v) { return v->data().size(); }
uint64_t hv_word(V const* v, uint64_t i) { return v->data()[i]; }
uint64_t const* hv_data(V const* v) { return v->data().data(); }
void hv_swap(V* a, V* b) { a->swap(*b); }

typedef V::enumerator E;
E* he_new(V const* v, uint64_t p) { return new E(*v, p); }
bool he_next(E* e) { return e->next(); }
uint64_t he_take(E* e, size_t l) { return e->take(l); }
uint64_t he_skip_zeros(E* e) { return e->skip_zeros(); }
uint64_t he_pos(E const* e) { return e->position(); }
typedef V::unary_enumerator U;
U* hu_new(V const* v, uint64_t p) { return new U(*v, p); }
uint64_t hu_next(U* u) { return u->next(); }
uint64_t hu_pos(U const* u) { return u->position(); }
void hu_skip(U* u, uint64_t k) { u->skip(k); }
uint64_t hu_skip_no_move(U* u, uint64_t k) { return u->skip_no_move(k); }
void hu_skip0(U* u, uint64_t k) { u->skip0(k); }
}
