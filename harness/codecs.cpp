// Entry points for the integer codecs (public API only).
#include <cassert>
#include <vector>
#include "bit_vector.hpp"
#include "util.hpp"
#include "elias_fano.hpp"
#include "elias_fano_list.hpp"
#include "elias_fano_compressed_list.hpp"
#include "gamma_vector.hpp"
#include "gamma_bit_vector.hpp"
#include "nibble_vector.hpp"
#include "forward_enumerator.hpp"
#include "vbyte.hpp"
using namespace succinct;
typedef boost::iterator_range<const uint64_t*> R64;
typedef boost::iterator_range<const uint8_t*> R8;
#define LIST(P, T) \
extern "C" T* P##_new(const uint64_t* p, uint64_t n) { return new T(R64(p, p + n)); } \
extern "C" T* P##_empty() { return new T(); } \
extern "C" void P##_del(T* t) { delete t; } \
extern "C" uint64_t P##_at(T const* t, uint64_t i) { return (*t)[i]; } \
extern "C" uint64_t P##_size(T const* t) { return t->size(); } \
extern "C" void P##_swap(T* a, T* b) { a->swap(*b); } \
extern "C" forward_enumerator<T>* P##_enum(T const* t, uint64_t i) { return new forward_enumerator<T>(*t, i); } \
extern "C" uint64_t P##_next(forward_enumerator<T>* e) { return e->next(); } \
extern "C" void P##_edel(forward_enumerator<T>* e) { delete e; }
LIST(gv, gamma_vector)
LIST(gb, gamma_bit_vector)
LIST(ec, elias_fano_compressed_list)
LIST(el, elias_fano_list)
extern "C" {
void gb_skip(forward_enumerator<gamma_bit_vector>* e, uint64_t k) { e->skip(k); }
uint64_t el_sum(elias_fano_list const* l) { return l->sum(); }
nibble_vector* nb_new(const uint8_t* p, uint64_t n) { return new nibble_vector(R8(p, p + n)); }
nibble_vector* nb_empty() { return new nibble_vector(); }
uint64_t nb_at(nibble_vector const* t, uint64_t i) { return (*t)[i]; }
uint64_t nb_size(nibble_vector const* t) { return t->size(); }
void nb_del(nibble_vector* t) { delete t; }

typedef std::vector<uint8_t> BV;
BV* vb_new() { return new BV(); }
void vb_del(BV* v) { delete v; }
uint64_t vb_len(BV* v) { return v->size(); }
uint8_t vb_at(BV* v, uint64_t i) { return (*v)[i]; }
uint64_t vb_size(uint64_t x) { return vbyte_size(x); }
uint64_t vb_append(BV* v, uint64_t x) { return append_vbyte(*v, x); }
uint64_t vb_decode(BV const* v, uint64_t off, uint64_t* out) { size_t x = 0; uint64_t r = decode_vbyte(*v, off, x); *out = x; return r; }
uint64_t zz_enc(uint64_t x) { return util::int2nat(int64_t(x)); }
uint64_t zz_dec(uint64_t x) { return uint64_t(util::nat2int(x)); }
uint64_t cd_u64(uint64_t a, uint64_t b) { return util::ceil_div(a, b); }
}
