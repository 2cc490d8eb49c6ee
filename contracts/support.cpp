// standard-library code that libstdc++ normally keeps in its shared object
#include <string>
#include <vector>
#include <map>
#include <set>
#include <chrono>
#include "av.hpp"
template class std::basic_string<char>;
// contracts run in one thread (loops marked parallel are checked for independence separately)
extern "C" { char __libc_single_threaded = 1; }
#ifdef AV_VERIFY
// search trees: ordered insertion without rebalancing (the observable order and contents of a map do not depend on its shape)
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &header) { header._M_parent = x; header._M_right = x; }
        else if (p == header._M_left) header._M_left = x;
    } else {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
}
// the clock shows any time
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(av_int("clock", 0, 1000000000))); }
} }
}
#endif
