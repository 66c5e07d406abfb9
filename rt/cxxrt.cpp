// Pieces of libstdc++ that live in the shared library; used inside the engine only.
#include <string>
#include <map>
#include <list>
#include <unordered_map>
#include <new>
#include <cstring>
#include <condition_variable>
#include <thread>
template class std::basic_string<char>;
namespace std {
void __detail::_List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void __detail::_List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void __detail::_List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first; _List_node_base* const t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void __detail::_List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void __detail::_List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* b = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }
size_t __detail::_Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[] = {1, 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557}; for (size_t p : pr) if (p >= n) { const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = (size_t)(p * 1); return p; } return n | 1; }
pair<bool, size_t> __detail::_Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > nb) return {true, _M_next_bkt(std::max<size_t>((ne + ni), nb * 2))}; return {false, 0}; }
// red-black tree (unbalanced insertion is semantically equivalent, but keep it a valid tree): simple BST with header links
static _Rb_tree_node_base* mn(_Rb_tree_node_base* x) { while (x->_M_left) x = x->_M_left; return x; }
static _Rb_tree_node_base* mx(_Rb_tree_node_base* x) { while (x->_M_right) x = x->_M_right; return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { if (x->_M_right) return mn(x->_M_right); _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) return mx(x->_M_left); _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  _Rb_tree_node_base *&root = h._M_parent, *y = z, *x, *xp;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = mn(y->_M_right); x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = xp; xp->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = xp; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else h._M_left = mn(x); } if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else h._M_right = mx(x); } }
  return z; }
const nothrow_t nothrow{};
thread::_State::~_State() {}
}
extern "C" void* __dso_handle; void* __dso_handle = nullptr;
