// Persistence through named files and memory-mapped sources.
#include "objs.cpp"
typedef boost::iostreams::mapped_file_source MF;
#define NAMED(P, T) \
extern "C" uint64_t P##_freeze_to(T* a, const char* name) { return mapper::freeze(*a, name); } \
extern "C" uint64_t P##_freeze_to2(T* a, const char* name, uint64_t fl) { return mapper::freeze(*a, name, fl); } \
extern "C" uint64_t P##_map_from(T* a, MF const* m, uint64_t fl) { return mapper::map(*a, *m, fl); }
NAMED(bv, bit_vector)
NAMED(rs, rs_bit_vector)
NAMED(bp, bp_vector)
NAMED(d1, darray1)
NAMED(d0, darray0)
NAMED(d64, darray64)
NAMED(ef, elias_fano)
NAMED(el, elias_fano_list)
NAMED(ec, elias_fano_compressed_list)
NAMED(gv, gamma_vector)
NAMED(gb, gamma_bit_vector)
NAMED(nb, nibble_vector)
NAMED(ct, cartesian_tree)
NAMED(tk, TK)
NAMED(tm, TM)
NAMED(mv, MV)
NAMED(mh, MV16)
