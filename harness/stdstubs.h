// The few out-of-line functions of libstdc++'s node containers (their source is not part of
// this repository and not available as IR), with their documented effect.
#pragma once
#if defined(VF_STUBS)
#include <list>
#include <set>
#include <map>
#include <unordered_set>
#include <cwchar>
extern "C" inline wchar_t *wmemcpy(wchar_t *d, const wchar_t *s, size_t n) noexcept { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
namespace std {
namespace __detail {
inline void _List_node_base::_M_hook(_List_node_base *const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
inline void _List_node_base::_M_unhook() noexcept { _List_node_base *n = this->_M_next, *p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
}
// unbalanced trees satisfy the same interface
inline _Rb_tree_node_base *vf_inc(_Rb_tree_node_base *x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
inline _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { return vf_inc(x); }
inline const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return vf_inc(const_cast<_Rb_tree_node_base *>(x)); }
inline _Rb_tree_node_base *vf_dec(_Rb_tree_node_base *x) noexcept {
  if (x->_M_color == _S_red) return x->_M_right; // only the header is red here
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
inline _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { return vf_dec(x); }
inline const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return vf_dec(const_cast<_Rb_tree_node_base *>(x)); }
inline void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
}
#endif
