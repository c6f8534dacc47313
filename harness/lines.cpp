// Entry points for the line readers and the file handle (public API only).
#include <cassert>
#include <cstdio>
#include <iterator>
#include "util.hpp"
using namespace succinct;
typedef std::string S;
typedef util::line_iterator LI;
typedef util::line_range_t LR;
typedef util::buffer_line_iterator BI;
extern "C" {
S* s_new(const char* p, uint64_t n) { return new S(p, n); }
void s_del(S* s) { delete s; }
const char* s_data(S* s) { return s->data(); }
uint64_t s_size(S* s) { return s->size(); }
uint64_t csize(S const* s) { return s->size(); }
const char* cdata(S const* s) { return s->data(); }
void s_trim(S* s) { util::trim_newline_chars(*s); }
bool gl(S* s, FILE* f, bool trim) { return util::fast_getline(*s, f, trim); }
bool gl2(S* s, FILE* f) { return util::fast_getline(*s, f); }
LR* lr_new(FILE* f, bool trim) { return new LR(util::lines(f, trim)); }
LR* lr_new1(FILE* f) { return new LR(util::lines(f)); }
bool lr_done(LR* r) { return r->first == r->second; }
S const* lr_get(LR* r) { return &*r->first; }
uint64_t lr_arrow(LR* r) { return r->first->size(); }
void lr_inc(LR* r) { ++r->first; }
S* lr_postinc(LR* r) { return new S(*r->first++); }
LI* lr_copy(LR* r) { return new LI(r->first); }
void lr_assign(LR* r, LI* i) { r->first = *i; }
S const* li_get(LI* i) { return &**i; }
bool li_eq(LI* a, LI* b) { return *a == *b; }
LI* li_new() { return new LI(); }
void li_del(LI* i) { delete i; }
void lr_del(LR* r) { delete r; }
BI* bi_new(const char* p, uint64_t n) { return new BI(p, n); }
BI* bi_end() { return new BI(); }
bool bi_eq(BI* a, BI* b) { return *a == *b; }
S const* bi_get(BI* i) { return &**i; }
void bi_inc(BI* i) { ++*i; }
S* bi_postinc(BI* i) { return new S(*(*i)++); }
BI* bi_copy(BI* i) { return new BI(*i); }
void bi_del(BI* i) { delete i; }
typedef util::mmap_lines ML;
ML* ml_new(const char* name) { return new ML(S(name)); }
BI* ml_begin(ML const* m) { return new BI(m->begin()); }
BI* ml_end(ML const* m) { return new BI(m->end()); }
void ml_del(ML* m) { delete m; }
typedef util::auto_file AF;
AF* af_new(const char* name) { return new AF(name); }
AF* af_new2(const char* name, const char* mode) { return new AF(name, mode); }
FILE* af_get(AF* f) { return f->get(); }
void af_del(AF* f) { delete f; }
bool af_scope(const char* name, FILE** out) { AF f(name); *out = f.get(); return true; }
const uint8_t* ad_begin(S const* s) { return util::stl_string_adaptor()(*s).first; }
uint64_t ad_len(S const* s) { util::char_range r = util::stl_string_adaptor()(*s); return uint64_t(r.second - r.first); }
uint64_t id_same(const uint8_t* p, uint64_t n) { util::char_range r = util::identity_adaptor()(util::char_range(p, p + n)); return r.first == p && r.second == p + n; }
}
