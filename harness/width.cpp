// Entry points for the width analysis: parameters named g_* are lengths, positions, ranks or counts that grow with the
// input; results of functions named g_* are such quantities (public API only).
#include "objs.cpp"
typedef boost::iterator_range<const uint64_t*> WR;
typedef std::vector<bool> VB;
extern "C" {
B* wb_new(uint64_t g_n, bool x) { return new B(g_n, x); }
void wb_push(B* b, bool x) { b->push_back(x); }
void wb_set(B* b, uint64_t g_p, bool x) { b->set(g_p, x); }
void wb_set_bits(B* b, uint64_t g_p, uint64_t x, size_t l) { b->set_bits(g_p, x, l); }
void wb_append_bits(B* b, uint64_t x, size_t l) { b->append_bits(x, l); }
void wb_zero_extend(B* b, uint64_t g_n) { b->zero_extend(g_n); }
void wb_one_extend(B* b, uint64_t g_n) { b->one_extend(g_n); }
void wb_append(B* b, B* r) { b->append(*r); }
void wb_reverse(B* b) { b->reverse(); }
void wb_reserve(B* b, uint64_t g_n) { b->reserve(g_n); }
uint64_t g_wb_size(B* b) { return b->size(); }
bit_vector* wv_from(B* b) { return new bit_vector(b); }
bit_vector* wv_range(VB const* r) { return new bit_vector(*r); }
uint64_t g_wv_size(bit_vector const* v) { return v->size(); }
bool wv_at(bit_vector const* v, uint64_t g_p) { return (*v)[g_p]; }
uint64_t wv_get_bits(bit_vector const* v, uint64_t g_p, uint64_t l) { return v->get_bits(g_p, l); }
uint64_t wv_get_word(bit_vector const* v, uint64_t g_p) { return v->get_word(g_p); }
uint64_t wv_get_word56(bit_vector const* v, uint64_t g_p) { return v->get_word56(g_p); }
uint64_t g_wv_pred0(bit_vector const* v, uint64_t g_p) { return v->predecessor0(g_p); }
uint64_t g_wv_pred1(bit_vector const* v, uint64_t g_p) { return v->predecessor1(g_p); }
uint64_t g_wv_succ0(bit_vector const* v, uint64_t g_p) { return v->successor0(g_p); }
uint64_t g_wv_succ1(bit_vector const* v, uint64_t g_p) { return v->successor1(g_p); }
typedef bit_vector::enumerator WE;
typedef bit_vector::unary_enumerator WU;
WE* we_new(bit_vector const* v, uint64_t g_p) { return new WE(*v, g_p); }
bool we_next(WE* e) { return e->next(); }
uint64_t we_take(WE* e, size_t l) { return e->take(l); }
uint64_t g_we_skip_zeros(WE* e) { return e->skip_zeros(); }
uint64_t g_we_pos(WE const* e) { return e->position(); }
WU* wu_new(bit_vector const* v, uint64_t g_p) { return new WU(*v, g_p); }
uint64_t g_wu_next(WU* u) { return u->next(); }
uint64_t g_wu_pos(WU const* u) { return u->position(); }
void wu_skip(WU* u, uint64_t g_k) { u->skip(g_k); }
uint64_t g_wu_skip_no_move(WU* u, uint64_t g_k) { return u->skip_no_move(g_k); }
void wu_skip0(WU* u, uint64_t g_k) { u->skip0(g_k); }

rs_bit_vector* wr_new(B* b, bool h, bool z) { return new rs_bit_vector(b, h, z); }
uint64_t g_wr_rank(rs_bit_vector const* r, uint64_t g_p) { return r->rank(g_p); }
uint64_t g_wr_rank0(rs_bit_vector const* r, uint64_t g_p) { return r->rank0(g_p); }
uint64_t g_wr_select(rs_bit_vector const* r, uint64_t g_i) { return r->select(g_i); }
uint64_t g_wr_select0(rs_bit_vector const* r, uint64_t g_i) { return r->select0(g_i); }
uint64_t g_wr_ones(rs_bit_vector const* r) { return r->num_ones(); }
uint64_t g_wr_zeros(rs_bit_vector const* r) { return r->num_zeros(); }

darray1* wd1_new(bit_vector const* v) { return new darray1(*v); }
darray0* wd0_new(bit_vector const* v) { return new darray0(*v); }
uint64_t g_wd1_len(darray1 const* d) { return d->num_positions(); }
uint64_t g_wd0_len(darray0 const* d) { return d->num_positions(); }
uint64_t g_wd1_select(darray1 const* d, bit_vector const* v, uint64_t g_i) { return d->select(*v, g_i); }
uint64_t g_wd0_select(darray0 const* d, bit_vector const* v, uint64_t g_i) { return d->select(*v, g_i); }
darray64* wd_new(darray64::builder* b) { return new darray64(b); }
void wdb_add(darray64::builder* b, uint64_t k) { b->append1(k); }
uint64_t g_wd_len(darray64 const* d) { return d->num_ones(); }
uint64_t g_wd_select(darray64 const* d, uint64_t g_i) { return d->select(g_i); }

typedef elias_fano::elias_fano_builder WB;
WB* web_new(uint64_t g_n, uint64_t g_m) { return new WB(g_n, g_m); }
void web_push(WB* b, uint64_t g_i) { b->push_back(g_i); }
elias_fano* wf_new(WB* b, bool r) { return new elias_fano(b, r); }
elias_fano* wf_from(B* b, bool r) { return new elias_fano(b, r); }
uint64_t g_wf_size(elias_fano const* e) { return e->size(); }
uint64_t g_wf_ones(elias_fano const* e) { return e->num_ones(); }
uint64_t g_wf_select(elias_fano const* e, uint64_t g_i) { return e->select(g_i); }
uint64_t g_wf_delta(elias_fano const* e, uint64_t g_i) { return e->delta(g_i); }
uint64_t g_wf_rank(elias_fano const* e, uint64_t g_i) { return e->rank(g_i); }
bool wf_at(elias_fano const* e, uint64_t g_i) { return (*e)[g_i]; }
uint64_t g_wf_pred(elias_fano const* e, uint64_t g_i) { return e->predecessor1(g_i); }
uint64_t g_wf_succ(elias_fano const* e, uint64_t g_i) { return e->successor1(g_i); }
uint64_t g_wf_range(elias_fano const* e, uint64_t g_i) { std::pair<uint64_t, uint64_t> p = e->select_range(g_i); return p.first; }
elias_fano::select_enumerator* ws_new(elias_fano const* e, uint64_t g_i) { return new elias_fano::select_enumerator(*e, g_i); }
uint64_t g_ws_next(elias_fano::select_enumerator* s) { return s->next(); }

bp_vector* wp_new(B* b) { return new bp_vector(b, true, true); }
uint64_t g_wp_close(bp_vector const* v, uint64_t g_i) { return v->find_close(g_i); }
uint64_t g_wp_open(bp_vector const* v, uint64_t g_i) { return v->find_open(g_i); }
uint64_t g_wp_enclose(bp_vector const* v, uint64_t g_i) { return v->enclose(g_i); }
int32_t wp_excess(bp_vector const* v, uint64_t g_i) { return v->excess(g_i); }
uint64_t g_wp_rmq(bp_vector const* v, uint64_t g_a, uint64_t g_b) { return v->excess_rmq(g_a, g_b); }
typedef cartesian_tree::builder<uint64_t> WCB;
WCB* wc_bnew(uint64_t g_n) { return new WCB(g_n); }
void wc_push(WCB* b, uint64_t x) { b->push_back(x, std::less<uint64_t>()); }
cartesian_tree* wc_new(WCB* b) { return new cartesian_tree(b); }
cartesian_tree* wc_range(WR const* r) { return new cartesian_tree(*r); }
uint64_t g_wc_size(cartesian_tree const* t) { return t->size(); }
uint64_t g_wc_rmq(cartesian_tree const* t, uint64_t g_a, uint64_t g_b) { return t->rmq(g_a, g_b); }
TM* wt_new(WR const* r) { return new TM(*r); }
uint64_t g_wt_size(TM const* t) { return t->size(); }
uint64_t wt_at(TM const* t, uint64_t g_i) { return (*t)[g_i]; }
void wt_set(TM const* t, TM::enumerator* e, uint64_t g_a, uint64_t g_b) { t->get_topk_enumerator(g_a, g_b, *e); }
bool wt_next(TM::enumerator* e) { return e->next(); }
TM::entry_vector_type* wt_topk(TM const* t, uint64_t g_a, uint64_t g_b, uint64_t g_k) { return new TM::entry_vector_type(t->topk(g_a, g_b, g_k)); }
#define WLIST(P, T, R) \
T* w##P##_new(R const* r) { return new T(*r); } \
uint64_t g_w##P##_size(T const* t) { return t->size(); } \
uint64_t w##P##_at(T const* t, uint64_t g_i) { return (*t)[g_i]; }
WLIST(gv, gamma_vector, WR)
WLIST(gb, gamma_bit_vector, WR)
WLIST(ec, elias_fano_compressed_list, WR)
WLIST(el, elias_fano_list, WR)
WLIST(nb, nibble_vector, R8)
#define WENUM(P, T) \
forward_enumerator<T>* w##P##_enum(T const* t, uint64_t g_i) { return new forward_enumerator<T>(*t, g_i); } \
uint64_t w##P##_next(forward_enumerator<T>* e) { return e->next(); }
WENUM(gv, gamma_vector)
WENUM(gb, gamma_bit_vector)
WENUM(ec, elias_fano_compressed_list)
WENUM(el, elias_fano_list)
void wgb_skip(forward_enumerator<gamma_bit_vector>* e, uint64_t g_k) { e->skip(g_k); }
uint64_t g_w_ceil_div(uint64_t g_a, uint64_t g_b) { return util::ceil_div(g_a, g_b); }
}
