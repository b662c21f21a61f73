// Stand-ins for the tree and list support functions of libstdc++ (ordered as documented, without rebalancing).
#include <map>
#include <list>
namespace std {
typedef _Rb_tree_node_base N;
static N* inc(N* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } N* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
static N* dec(N* x) { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { N* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } N* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
N* _Rb_tree_increment(N* x) throw() { return inc(x); }
const N* _Rb_tree_increment(const N* x) throw() { return inc(const_cast<N*>(x)); }
N* _Rb_tree_decrement(N* x) throw() { return dec(x); }
const N* _Rb_tree_decrement(const N* x) throw() { return dec(const_cast<N*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw()
{
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
N* _Rb_tree_rebalance_for_erase(N* const z, N& h) throw()
{
    if (h._M_left == z) h._M_left = inc(z); if (h._M_right == z) h._M_right = dec(z);
    auto replace = [&](N* a, N* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else { N* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = z->_M_color; }
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
}
}
