// C / C++ runtime pieces needed as bitcode by the symbolic executor (libstdc++.so and libc have no IR).
#include <string>
#include <sstream>
#include <stdexcept>
#include <list>
#include <cstring>
#include <cstdlib>
#include <new>

// ------------------------------------------------------------------ libc
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while( s[n] ) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while( n < m && s[n] ) n++; return n; }
int strcmp(const char* a, const char* b) { while( *a && *a == *b ) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while( n && *a && *a == *b ) { a++; b++; n--; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
char* strcpy(char* d, const char* s) { char* r = d; while( (*d++ = *s++) ) {} return r; }
char* stpcpy(char* d, const char* s) { while( (*d = *s) ) { d++; s++; } return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for( ; i < n && s[i]; i++ ) d[i] = s[i]; for( ; i < n; i++ ) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); memcpy(r, s, n); return r; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char* x = (const unsigned char*)a, *y = (const unsigned char*)b; for( size_t i = 0; i < n; i++ ) if( x[i] != y[i] ) return (int)x[i] - (int)y[i]; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int abs(int x) { return x < 0 ? -x : x; }
void qsort(void* b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
   char* p = (char*)b;
   for( size_t i = 1; i < n; i++ ) for( size_t j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; j-- ) for( size_t k = 0; k < sz; k++ ) { char t = p[j * sz + k]; p[j * sz + k] = p[(j - 1) * sz + k]; p[(j - 1) * sz + k] = t; }
}
void* rt_memchr(const void* s, int c, size_t n) __asm__("memchr");
void* rt_memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for( size_t i = 0; i < n; i++ ) if( p[i] == (unsigned char)c ) return (void*)(p + i); return 0; }
char* rt_strchr(const char* s, int c) __asm__("strchr");
char* rt_strchr(const char* s, int c) { for( ;; s++ ) { if( *s == (char)c ) return (char*)s; if( !*s ) return 0; } }
char* rt_strrchr(const char* s, int c) __asm__("strrchr");
char* rt_strrchr(const char* s, int c) { char* r = 0; for( ;; s++ ) { if( *s == (char)c ) r = (char*)s; if( !*s ) return r; } }
char* rt_strstr(const char* s, const char* t) __asm__("strstr");
char* rt_strstr(const char* s, const char* t) { size_t n = strlen(t); for( ;; s++ ) { if( !strncmp(s, t, n) ) return (char*)s; if( !*s ) return 0; } }
}

// ------------------------------------------------------------------ std::list / std::map nodes
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
   if( this != l ) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
      _List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
   if( x._M_next != &x ) {
      if( y._M_next != &y ) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
      else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
   else if( y._M_next != &y ) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while( t != this ); }
}
}
#include <map>
namespace std {
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) { if( x->_M_right ) { x = x->_M_right; while( x->_M_left ) x = x->_M_left; return x; } _Rb_tree_node_base* y = x->_M_parent; while( x == y->_M_right ) { x = y; y = y->_M_parent; } if( x->_M_right != y ) x = y; return x; }
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) { if( x->_M_color == _S_red && x->_M_parent->_M_parent == x ) return x->_M_right; if( x->_M_left ) { _Rb_tree_node_base* y = x->_M_left; while( y->_M_right ) y = y->_M_right; return y; } _Rb_tree_node_base* y = x->_M_parent; while( x == y->_M_left ) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) { _Rb_tree_node_base* const y = x->_M_right; x->_M_right = y->_M_left; if( y->_M_left ) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if( x == root ) root = y; else if( x == x->_M_parent->_M_left ) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) { _Rb_tree_node_base* const y = x->_M_left; x->_M_left = y->_M_right; if( y->_M_right ) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if( x == root ) root = y; else if( x == x->_M_parent->_M_right ) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
   _Rb_tree_node_base*& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
   if( left ) { p->_M_left = x; if( p == &h ) { h._M_parent = x; h._M_right = x; } else if( p == h._M_left ) h._M_left = x; }
   else { p->_M_right = x; if( p == h._M_right ) h._M_right = x; }
   while( x != root && x->_M_parent->_M_color == _S_red ) {
      _Rb_tree_node_base* const g = x->_M_parent->_M_parent;
      if( x->_M_parent == g->_M_left ) { _Rb_tree_node_base* const y = g->_M_right;
         if( y && y->_M_color == _S_red ) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
         else { if( x == x->_M_parent->_M_right ) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); } }
      else { _Rb_tree_node_base* const y = g->_M_left;
         if( y && y->_M_color == _S_red ) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
         else { if( x == x->_M_parent->_M_left ) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); } } }
   root->_M_color = _S_black; }
// erase without recolouring: the tree stays a correct search tree (balance is only a performance matter here)
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
   _Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& lm = h._M_left, *&rm = h._M_right; _Rb_tree_node_base* y = z, *x = 0;
   if( y->_M_left == 0 ) x = y->_M_right; else if( y->_M_right == 0 ) x = y->_M_left; else { y = y->_M_right; while( y->_M_left ) y = y->_M_left; x = y->_M_right; }
   if( y != z ) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
      if( y != z->_M_right ) { if( x ) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
      if( root == z ) root = y; else if( z->_M_parent->_M_left == z ) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
      y->_M_parent = z->_M_parent; y->_M_color = _S_black; }
   else { if( x ) x->_M_parent = y->_M_parent; if( root == z ) root = x; else if( z->_M_parent->_M_left == z ) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
      if( lm == z ) { if( z->_M_right == 0 ) lm = z->_M_parent; else { _Rb_tree_node_base* q = x; while( q->_M_left ) q = q->_M_left; lm = q; } }
      if( rm == z ) { if( z->_M_left == 0 ) rm = z->_M_parent; else { _Rb_tree_node_base* q = x; while( q->_M_right ) q = q->_M_right; rm = q; } } }
   // paint everything black so that later insertions see a consistent (if unbalanced) tree
   if( root ) root->_M_color = _S_black;
   return z; }
}
template class std::__cxx11::basic_string<char>;
