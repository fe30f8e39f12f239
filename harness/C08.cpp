//! {"quick":["0-15"],"thorough":["0-15","50-65"],"level":"model_checking",
//!  "reach":["op","death","cycle"],
//!  "bounds":["every history of 3 (thorough: 4) operations out of 16 kinds over two counted pointers, one pointer-to-const, one container of pointers and objects that themselves hold a counted pointer, from four initial states"],
//!  "assumptions":["one thread (reference counts are documented as not synchronised)"],
//!  "outside":["more than 6 objects, longer histories"]}
#include <cstddef>
#include "sym.h"
#include "IpSmartPtr.hpp"
#include "IpReferenced.hpp"
#include <vector>
using namespace Ipopt;
static const int M = 12; static int alive[M], made; static bool wrong;
struct Base: public ReferencedObject { virtual int id() const = 0; virtual ~Base() {} };
struct Node: public Base { int k; SmartPtr<Node> next; SmartPtr<const Base> cb; Node() : k(made++) { alive[k]++; } int id() const { return k; } ~Node() { alive[k]--; if( k < 0 || k >= M || alive[k] != 0 ) wrong = true; k = -1; } };
// independent model: holders as plain numbers
struct Model { int a, b, c, d; std::vector<int> v; int nx[M], cb[M]; bool al[M]; int n;
   Model() : a(-1), b(-1), c(-1), d(-1), n(0) { for( int i = 0; i < M; i++ ) { nx[i] = cb[i] = -1; al[i] = false; } }
   int mk() { al[n] = true; return n++; }
   bool held(int i) const { if( a == i || b == i || c == i || d == i ) return true; for( size_t k = 0; k < v.size(); k++ ) if( v[k] == i ) return true; for( int k = 0; k < n; k++ ) if( al[k] && (nx[k] == i || cb[k] == i) ) return true; return false; }
   int count(int i) const { int r = (a == i) + (b == i) + (c == i) + (d == i); for( size_t k = 0; k < v.size(); k++ ) r += v[k] == i; for( int k = 0; k < n; k++ ) if( al[k] ) r += (nx[k] == i) + (cb[k] == i); return r; }
   void settle() { bool ch = true; while( ch ) { ch = false; for( int i = 0; i < n; i++ ) if( al[i] && !held(i) ) { al[i] = false; ch = true; REACH("death"); } } } };
static SmartPtr<Node> give(Node* p) { return SmartPtr<Node>(p); }
static SmartPtr<Node> pass(SmartPtr<Node> p) { return p; }
static Model m;
struct W { SmartPtr<Node> a, b; SmartPtr<const Node> c; SmartPtr<const Base> d; std::vector<SmartPtr<Node> > v; };
static int idp(const Base* p) { return p ? p->id() : -1; }
static void verify(const W& w)
{
   m.settle(); CHECK(!wrong, "no object is destroyed twice"); for( int i = 0; i < m.n; i++ ) CHECK(alive[i] == (m.al[i] ? 1 : 0), "an object lives exactly as long as a pointer to it exists");
   CHECK(made == m.n, "no unexpected objects");
   CHECK(idp(GetRawPtr(w.a)) == m.a, "pointer a"); CHECK(idp(GetRawPtr(w.b)) == m.b, "pointer b"); CHECK(idp(GetRawPtr(w.c)) == m.c, "pointer to const"); CHECK(idp(GetRawPtr(w.d)) == m.d, "pointer to const base");
   CHECK(IsValid(w.a) == (m.a >= 0), "IsValid"); CHECK(IsNull(w.b) == (m.b < 0), "IsNull"); CHECK((w.a == w.b) == (m.a == m.b), "comparison of pointers"); CHECK((w.a != w.b) == (m.a != m.b), "inequality of pointers");
   CHECK((w.a == GetRawPtr(w.b)) == (m.a == m.b), "comparison with a raw pointer"); { bool lt = w.a < w.b, gt = w.a > w.b; CHECK((w.a <= w.b) == !gt && (w.a >= w.b) == !lt && lt == (w.b > w.a) && (lt || gt) == (m.a != m.b) && !(lt && gt), "ordering of pointers is a total order of the identities"); }
   if( m.a >= 0 ) { CHECK(w.a->ReferenceCount() == m.count(m.a), "reference count"); CHECK(idp(GetRawPtr(w.a->next)) == m.nx[m.a], "member pointer"); } if( m.b >= 0 ) CHECK((*w.b).ReferenceCount() == m.count(m.b), "reference count b");
   CHECK(w.v.size() == m.v.size(), "container size"); for( size_t k = 0; k < w.v.size() && k < m.v.size(); k++ ) CHECK(idp(GetRawPtr(w.v[k])) == m.v[k], "container element");
}
static void op(W& w, int o)
{
   switch( o ) {
   case 0: w.a = new Node(); m.a = m.mk(); break;
   case 1: w.b = w.a; m.b = m.a; break;
   case 2: w.a = w.b; m.a = m.b; break;
   case 3: w.a = NULL; m.a = -1; break;
   case 4: if( m.a >= 0 ) { w.a->next = w.b; m.nx[m.a] = m.b; if( m.a == m.b ) REACH("cycle"); } break;
   case 5: if( m.a >= 0 ) { w.a = w.a->next; m.a = m.nx[m.a]; } break;
   case 6: { SmartPtr<Node> t(w.a); w.a = w.b; w.b = t; int u = m.a; m.a = m.b; m.b = u; break; }
   case 7: w.a = GetRawPtr(w.b); m.a = m.b; w.a = GetRawPtr(w.a); break;
   case 8: w.c = ConstPtr(w.a); m.c = m.a; w.d = GetRawPtr(w.b); m.d = m.b; break;
   case 9: w.c = NULL; w.d = NULL; m.c = m.d = -1; break;
   case 10: w.v.push_back(w.a); m.v.push_back(m.a); { std::vector<SmartPtr<Node> > u(w.v); u.push_back(w.b); w.v = u; } m.v.push_back(m.b); break;
   case 11: w.v.clear(); m.v.clear(); break;
   case 12: w.b = give(new Node()); m.b = m.mk(); w.a = pass(w.a); break;
   case 13: w.a = w.a; if( m.a >= 0 && m.nx[m.a] >= 0 ) { w.a->next = w.a->next->next; m.nx[m.a] = m.nx[m.nx[m.a]]; } break;
   case 14: if( m.a >= 0 ) { w.a->cb = w.d; m.cb[m.a] = m.d; SmartPtr<Node> s = new Node(); int k = m.mk(); s->next = w.a->next; m.nx[k] = m.nx[m.a]; w.a->next = s; m.nx[m.a] = k; } break;
   case 15: { SmartPtr<Base> g(GetRawPtr(w.a)); SmartPtr<const Base> h = ConstPtr(g); CHECK(h == g, "comparison across constness"); w.c = w.b; m.c = m.b; g = new Node(); m.mk(); break; }
   }
   verify(w); REACH("op");
}
extern "C" int sym_main()
{
   int c = __sym_case(), steps = c >= 50 ? 4 : 3; if( c >= 50 ) c -= 50;
   int init = symfork("initial", 0, 3); unsigned long live0 = __sym_live(); (void) live0;
   { W w; if( init & 1 ) { w.a = new Node(); m.a = m.mk(); } if( init & 2 ) { w.b = new Node(); m.b = m.mk(); if( init & 1 ) { w.a->next = w.b; m.nx[m.a] = m.b; } }
     verify(w); op(w, c); for( int s = 1; s < steps; s++ ) op(w, symfork("op", 0, 15)); }
   m.a = m.b = m.c = m.d = -1; m.v.clear(); m.settle(); CHECK(!wrong, "no object is destroyed twice"); for( int i = 0; i < m.n; i++ ) CHECK(alive[i] == (m.al[i] ? 1 : 0), "after the last pointer is gone only cyclic chains remain");
   return 0;
}
