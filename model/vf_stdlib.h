// The out-of-line parts of std::list and std::map (they live in libstdc++.so,
// whose text is not translated).  Trees are left unbalanced: order and links
// are what the headers rely on.  Verifier only.
#ifndef VF_STDLIB_H_
#define VF_STDLIB_H_
#ifndef VF_NATIVE
#include <list>
#include <map>
namespace std {
namespace __detail {
__attribute__((weak)) void _List_node_base::_M_hook(_List_node_base* const position) noexcept {
  _M_next = position;
  _M_prev = position->_M_prev;
  position->_M_prev->_M_next = this;
  position->_M_prev = this;
}
__attribute__((weak)) void _List_node_base::_M_unhook() noexcept {
  _List_node_base* const n = _M_next;
  _List_node_base* const p = _M_prev;
  p->_M_next = n;
  n->_M_prev = p;
}
__attribute__((weak)) void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this == last) return;
  last->_M_prev->_M_next = this;
  first->_M_prev->_M_next = last;
  _M_prev->_M_next = first;
  _List_node_base* const t = _M_prev;
  _M_prev = last->_M_prev;
  last->_M_prev = first->_M_prev;
  first->_M_prev = t;
}
}  // namespace __detail
__attribute__((weak)) _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) {
    x = y;
    y = y->_M_parent;
  }
  return x->_M_right != y ? y : x;
}
__attribute__((weak)) const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept {
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
__attribute__((weak)) _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;  // header
  if (x->_M_left) {
    x = x->_M_left;
    while (x->_M_right) x = x->_M_right;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
__attribute__((weak)) const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept {
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
__attribute__((weak)) void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept {
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if (p == header._M_left) {
      header._M_left = x;
    }
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
}
}  // namespace std
#endif
#endif
