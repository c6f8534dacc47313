// Entry points for balanced parentheses, range minima and top-k (public API only).
#include <cassert>
#include <vector>
#include "bit_vector.hpp"
#include "util.hpp"
#include "rs_bit_vector.hpp"
#include "rs_bit_vector.cpp"
#include "bp_vector.hpp"
#include "bp_vector.cpp"
#include "cartesian_tree.hpp"
#include "topk_vector.hpp"
#include "elias_fano_list.hpp"
using namespace succinct;
typedef bit_vector_builder B;
typedef boost::iterator_range<const uint64_t*> R64;
typedef mapper::mappable_vector<uint64_t> MV;
typedef topk_vector<MV> TM;
typedef topk_vector<elias_fano_list> TK;
extern "C" {
B* hb_new(uint64_t n, bool init) { return new B(n, init); }
void hb_del(B* b) { delete b; }
uint64_t* hb_data(B* b) { return b->move_bits().data(); }
bp_vector* bp_new(B* b, uint64_t h) { return new bp_vector(b, h & 1, h >> 1); }
void bp_del(bp_vector* v) { delete v; }
uint64_t bp_len(bp_vector const* v) { return v->size(); }
uint64_t bp_close(bp_vector const* v, uint64_t i) { return v->find_close(i); }
uint64_t bp_open(bp_vector const* v, uint64_t i) { return v->find_open(i); }
uint64_t bp_enclose(bp_vector const* v, uint64_t i) { return v->enclose(i); }
uint64_t bp_excess(bp_vector const* v, uint64_t i) { return uint64_t(int64_t(v->excess(i))); }
uint64_t bp_rmq(bp_vector const* v, uint64_t a, uint64_t b, uint64_t* e) { bp_vector::excess_t x; uint64_t r = v->excess_rmq(a, b, x); *e = uint64_t(int64_t(x)); return r; }
uint64_t bp_rmq2(bp_vector const* v, uint64_t a, uint64_t b) { return v->excess_rmq(a, b); }
cartesian_tree* ct_new(const uint64_t* p, uint64_t n) { return new cartesian_tree(R64(p, p + n)); }
cartesian_tree* ct_newg(const uint64_t* p, uint64_t n) { return new cartesian_tree(R64(p, p + n), std::greater<uint64_t>()); }
typedef cartesian_tree::builder<uint64_t> CB;
CB* cb_new(uint64_t n) { return new CB(n); }
void cb_push(CB* b, uint64_t v) { b->push_back(v, std::less<uint64_t>()); }
void cb_pushg(CB* b, uint64_t v) { b->push_back(v, std::greater<uint64_t>()); }
void cb_del(CB* b) { delete b; }
cartesian_tree* ct_newb(CB* b) { return new cartesian_tree(b); }
typedef boost::iterator_range<const int32_t*> RI;
typedef boost::iterator_range<const uint8_t*> RC;
cartesian_tree* ct_newi(const int32_t* p, uint64_t n) { return new cartesian_tree(RI(p, p + n)); }
cartesian_tree* ct_newc(const uint8_t* p, uint64_t n) { return new cartesian_tree(RC(p, p + n)); }
void ct_del(cartesian_tree* t) { delete t; }
uint64_t ct_len(cartesian_tree const* t) { return t->size(); }
uint64_t ct_rmq(cartesian_tree const* t, uint64_t a, uint64_t b) { return t->rmq(a, b); }
bool ct_bit(cartesian_tree const* t, uint64_t i) { return t->get_bp()[i]; }
#define TOPK(P, T) \
T* P##_new(const uint64_t* p, uint64_t n) { return new T(R64(p, p + n)); } \
void P##_del(T* t) { delete t; } \
uint64_t P##_len(T const* t) { return t->size(); } \
uint64_t P##_at(T const* t, uint64_t i) { return (*t)[i]; } \
T::entry_vector_type* P##_topk(T const* t, uint64_t a, uint64_t b, uint64_t k) { return new T::entry_vector_type(t->topk(a, b, k)); } \
uint64_t P##_rlen(T::entry_vector_type const* r) { return r->size(); } \
uint64_t P##_rval(T::entry_vector_type const* r, uint64_t i) { return boost::get<0>((*r)[i]); } \
uint64_t P##_ridx(T::entry_vector_type const* r, uint64_t i) { return boost::get<1>((*r)[i]); } \
void P##_rdel(T::entry_vector_type* r) { delete r; } \
T::enumerator* P##_eval_new(T const* t, uint64_t a, uint64_t b) { return new T::enumerator(t->get_topk_enumerator(a, b)); } \
T::enumerator* P##_ecopy(T::enumerator const* e) { return new T::enumerator(*e); } \
T::enumerator* P##_enew() { return new T::enumerator(); } \
void P##_eset(T const* t, T::enumerator* e, uint64_t a, uint64_t b) { t->get_topk_enumerator(a, b, *e); } \
bool P##_enext(T::enumerator* e) { return e->next(); } \
uint64_t P##_eval(T::enumerator const* e) { return boost::get<0>(e->value()); } \
uint64_t P##_eidx(T::enumerator const* e) { return boost::get<1>(e->value()); } \
void P##_eclear(T::enumerator* e) { e->clear(); } \
void P##_eswap(T::enumerator* a, T::enumerator* b) { a->swap(*b); } \
void P##_edel(T::enumerator* e) { delete e; }
TOPK(tm, TM)
TOPK(tk, TK)
}
