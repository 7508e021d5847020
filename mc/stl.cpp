// The parts of std::list and std::map which live in the standard library's binary, compiled with the same instrumentation as the
// code under test: unsynchronised use of a container is then seen, and explored, inside these operations as well.
// The tree is not balanced and all its nodes are black, which the headers do not depend on.
#include <list>
#include <map>
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this == last) return;
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
    _List_node_base* const tmp = _M_prev;
    _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
}
}
typedef _Rb_tree_node_base N;
static N* inc(N* x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    N* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
static N* dec(N* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { N* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    N* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
N* _Rb_tree_increment(N* x) throw() { return inc(x); }
const N* _Rb_tree_increment(const N* x) throw() { return inc(const_cast<N*>(x)); }
N* _Rb_tree_decrement(N* x) throw() { return dec(x); }
const N* _Rb_tree_decrement(const N* x) throw() { return dec(const_cast<N*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;                      // leftmost as well if p is the header
        if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
N* _Rb_tree_rebalance_for_erase(N* const z, N& h) throw() {
    N* const nextNode = inc(z); N* const prevNode = h._M_left == z ? &h : dec(z);
    auto replace = [&](N* u, N* v) {
        N* p = u->_M_parent;
        if (p == &h) h._M_parent = v; else if (p->_M_left == u) p->_M_left = v; else p->_M_right = v;
        if (v) v->_M_parent = p;
    };
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        N* y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    const bool wasLeft = h._M_left == z, wasRight = h._M_right == z;
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
    else { if (wasLeft) h._M_left = nextNode; if (wasRight) h._M_right = prevNode; }
    return z;
}
}
