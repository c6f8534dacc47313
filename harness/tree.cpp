// Size reports of whole objects (compiled with a C++20 front end so that std::string is instantiated in this module).
#include "objs.cpp"
typedef mapper::size_node_ptr NP;
#define TREE(P, T) extern "C" NP* P##_tree(T* t, const char* name) { return new NP(mapper::size_tree_of(*t, name)); }
TREE(bv, bit_vector)
TREE(rs, rs_bit_vector)
TREE(bp, bp_vector)
TREE(d1, darray1)
TREE(d0, darray0)
TREE(d64, darray64)
TREE(ef, elias_fano)
TREE(el, elias_fano_list)
TREE(ec, elias_fano_compressed_list)
TREE(gv, gamma_vector)
TREE(gb, gamma_bit_vector)
TREE(nb, nibble_vector)
TREE(ct, cartesian_tree)
TREE(tk, TK)
TREE(tm, TM)
extern "C" {
mapper::size_node* tree_top(NP* p) { return p->get(); }
uint64_t tree_size(mapper::size_node* n) { return n->size; }
uint64_t tree_kids(mapper::size_node* n) { return n->children.size(); }
mapper::size_node* tree_kid(mapper::size_node* n, uint64_t i) { return n->children[i].get(); }
const char* tree_name(mapper::size_node* n) { return n->name.c_str(); }
void tree_del(NP* p) { delete p; }
}
