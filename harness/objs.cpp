// Entry points for whole objects: construction, destruction, exchange, persistence (public API only).
#include <cassert>
#include <vector>
#include "bit_vector.hpp"
#include "util.hpp"
#include "rs_bit_vector.hpp"
#include "rs_bit_vector.cpp"
#include "bp_vector.hpp"
#include "bp_vector.cpp"
#include "darray.hpp"
#include "darray64.hpp"
#include "elias_fano.hpp"
#include "elias_fano_list.hpp"
#include "elias_fano_compressed_list.hpp"
#include "gamma_vector.hpp"
#include "gamma_bit_vector.hpp"
#include "nibble_vector.hpp"
#include "cartesian_tree.hpp"
#include "topk_vector.hpp"
#include "mapper.hpp"
using namespace succinct;
typedef bit_vector_builder B;
typedef boost::iterator_range<const uint64_t*> R64;
typedef boost::iterator_range<const uint8_t*> R8;
typedef mapper::mappable_vector<uint64_t> MV;
typedef mapper::mappable_vector<uint16_t> MV16;
typedef topk_vector<elias_fano_list> TK;
typedef topk_vector<MV> TM;

// named copies of every type, so that their layouts are dumped
#define OBJ(P, T) \
struct lay_##P { T obj; }; extern "C" char arr_##P[sizeof(lay_##P)]; char arr_##P[sizeof(lay_##P)]; \
extern "C" uint64_t P##_sizeof() { return sizeof(lay_##P); } \
extern "C" T* P##_empty() { return new T(); } \
extern "C" void P##_del(T* t) { delete t; } \
extern "C" void P##_swap(T* a, T* b) { a->swap(*b); } \
extern "C" void P##_dispose(T* a) { util::dispose(*a); } \
extern "C" uint64_t P##_freeze(T* a, std::ofstream* f, uint64_t fl) { return mapper::freeze(*a, *f, fl); } \
extern "C" uint64_t P##_map(T* a, const char* p, uint64_t fl) { return mapper::map(*a, p, fl); } \
extern "C" uint64_t P##_size_of(T* a) { return mapper::size_of(*a); }
OBJ(bv, bit_vector)
OBJ(rs, rs_bit_vector)
OBJ(bp, bp_vector)
OBJ(d1, darray1)
OBJ(d0, darray0)
OBJ(d64, darray64)
OBJ(ef, elias_fano)
OBJ(el, elias_fano_list)
OBJ(ec, elias_fano_compressed_list)
OBJ(gv, gamma_vector)
OBJ(gb, gamma_bit_vector)
OBJ(nb, nibble_vector)
OBJ(ct, cartesian_tree)
OBJ(tk, TK)
OBJ(tm, TM)
OBJ(mv, MV)
OBJ(mh, MV16)
extern "C" {
B* hb_new(uint64_t n, bool init) { return new B(n, init); }
void hb_del(B* b) { delete b; }
uint64_t* hb_data(B* b) { return b->move_bits().data(); }
uint64_t hb_word(B* b, uint64_t i) { return b->move_bits()[i]; }
uint64_t hb_size(B* b) { return b->size(); }
void hb_swap(B* a, B* b) { a->swap(*b); }
void hb_push(B* b, bool x) { b->push_back(x); }
void hb_set(B* b, uint64_t p, bool x) { b->set(p, x); }
void hb_set_bits(B* b, uint64_t p, uint64_t x, size_t l) { b->set_bits(p, x, l); }
void hb_append_bits(B* b, uint64_t x, size_t l) { b->append_bits(x, l); }
void hb_zero_extend(B* b, uint64_t n) { b->zero_extend(n); }
void hb_one_extend(B* b, uint64_t n) { b->one_extend(n); }
void hb_append(B* b, B* r) { b->append(*r); }
void hb_reverse(B* b) { b->reverse(); }
void hb_reserve(B* b, uint64_t n) { b->reserve(n); }
struct lay_hb { B obj; }; char arr_hb[sizeof(lay_hb)];

bit_vector* bv_new(B* b) { return new bit_vector(b); }
rs_bit_vector* rs_new(B* b, uint64_t h) { return new rs_bit_vector(b, h & 1, h >> 1); }
bp_vector* bp_new(B* b, uint64_t h) { return new bp_vector(b, h & 1, h >> 1); }
darray1* d1_new(bit_vector* v) { return new darray1(*v); }
darray0* d0_new(bit_vector* v) { return new darray0(*v); }
darray64::builder* d64b_new() { return new darray64::builder(); }
void d64b_add(darray64::builder* b, uint64_t k) { b->append1(k); }
void d64b_del(darray64::builder* b) { delete b; }
darray64* d64_new(darray64::builder* b) { return new darray64(b); }
elias_fano* ef_new(B* b, bool r) { return new elias_fano(b, r); }
elias_fano_list* el_new(const uint64_t* p, uint64_t n) { return new elias_fano_list(R64(p, p + n)); }
elias_fano_compressed_list* ec_new(const uint64_t* p, uint64_t n) { return new elias_fano_compressed_list(R64(p, p + n)); }
gamma_vector* gv_new(const uint64_t* p, uint64_t n) { return new gamma_vector(R64(p, p + n)); }
gamma_bit_vector* gb_new(const uint64_t* p, uint64_t n) { return new gamma_bit_vector(R64(p, p + n)); }
nibble_vector* nb_new(const uint8_t* p, uint64_t n) { return new nibble_vector(R8(p, p + n)); }
cartesian_tree* ct_new(const uint64_t* p, uint64_t n) { return new cartesian_tree(R64(p, p + n)); }
TK* tk_new(const uint64_t* p, uint64_t n) { return new TK(R64(p, p + n)); }
TM* tm_new(const uint64_t* p, uint64_t n) { return new TM(R64(p, p + n)); }
MV* mv_new(const uint64_t* p, uint64_t n) { return new MV(R64(p, p + n)); }
MV16* mh_new(const uint16_t* p, uint64_t n) { return new MV16(boost::iterator_range<const uint16_t*>(p, p + n)); }
void mv_assign(MV* v, const uint64_t* p, uint64_t n) { v->assign(R64(p, p + n)); }
void mv_clear(MV* v) { v->clear(); }
typedef std::vector<uint64_t> SV;
SV* sv_new(uint64_t n) { return new SV(n); }
void sv_del(SV* s) { delete s; }
uint64_t* sv_data(SV* s) { return s->data(); }
uint64_t sv_size(SV* s) { return s->size(); }
void mv_steal(MV* v, SV* s) { v->steal(*s); }
uint64_t mv_at(MV* v, uint64_t i) { return (*v)[i]; }
uint64_t mv_len(MV* v) { return v->size(); }
const uint64_t* mv_begin(MV* v) { return v->begin(); }
const uint64_t* mv_end(MV* v) { return v->end(); }
// sizes
uint64_t bv_len(bit_vector const* t) { return t->size(); }
uint64_t rs_len(rs_bit_vector const* t) { return t->size(); }
uint64_t rs_ones(rs_bit_vector const* t) { return t->num_ones(); }
uint64_t rs_zeros(rs_bit_vector const* t) { return t->num_zeros(); }
uint64_t rs_rank(rs_bit_vector const* t, uint64_t i) { return t->rank(i); }
uint64_t bp_len(bp_vector const* t) { return t->size(); }
uint64_t bp_ones(bp_vector const* t) { return t->num_ones(); }
uint64_t d1_len(darray1 const* t) { return t->num_positions(); }
uint64_t d0_len(darray0 const* t) { return t->num_positions(); }
uint64_t d64_len(darray64 const* t) { return t->num_ones(); }
uint64_t ef_len(elias_fano const* t) { return t->size(); }
uint64_t ef_ones(elias_fano const* t) { return t->num_ones(); }
uint64_t el_len(elias_fano_list const* t) { return t->size(); }
uint64_t el_sum(elias_fano_list const* t) { return t->sum(); }
uint64_t ec_len(elias_fano_compressed_list const* t) { return t->size(); }
uint64_t gv_len(gamma_vector const* t) { return t->size(); }
uint64_t gb_len(gamma_bit_vector const* t) { return t->size(); }
uint64_t nb_len(nibble_vector const* t) { return t->size(); }
uint64_t ct_len(cartesian_tree const* t) { return t->size(); }
uint64_t tk_len(TK const* t) { return t->size(); }
uint64_t tm_len(TM const* t) { return t->size(); }
}
