//! {"quick":["0-23"],"thorough":["0-23","50-73"],"level":"model_checking",
//!  "reach":["hit","miss","evict","stale"],
//!  "bounds":["every history of 3 (thorough: 4) operations out of 12 kinds (store, look up, change, destroy and recreate a dependency, invalidate, clear, resize) on caches of capacity 1, 2, 0 and unlimited, over two tagged objects, absent dependencies and an arbitrary scalar dependency; after every operation all dependency combinations are looked up","every history of 4 attach/detach/change/destroy operations over two observers and two subjects (thorough: 5), starting with an attachment"],
//!  "assumptions":["fewer than 2^32 changes, one thread"],
//!  "outside":["more than three dependencies"]}
#include "sym.h"
#include "IpCachedResults.hpp"
#include "IpTaggedObject.hpp"
#include "IpSmartPtr.hpp"
#include <vector>
using namespace Ipopt;
class Obj: public TaggedObject { public: void change() { ObjectChanged(); } };
typedef std::vector<const TaggedObject*> D; typedef std::vector<Number> SV;
struct Ent { int val; int v0, v1; bool one; double sc; bool has_sc; bool stale; };   // v: version of object 0/1 (-1: absent)
static const char* who[2] = {"the first", "the second"};
// ---- observers
static int got[2][2][2]; // observer, subject, (0 change, 1 destroy)
class Sub: public Subject { public: int k; Sub(int i) : k(i) {} void note() { Notify(Observer::NT_Changed); } };
class Obs: public Observer { public: int k; Obs(int i) : k(i) {} void att(const Subject* s) { RequestAttach(NT_All, s); } void det(const Subject* s) { RequestDetach(NT_All, s); } void ReceiveNotification(NotifyType t, const Subject* s); };
static Sub* sub[2];
void Obs::ReceiveNotification(NotifyType t, const Subject* s) { for( int j = 0; j < 2; j++ ) if( static_cast<const Subject*>(sub[j]) == s ) got[k][j][t == NT_BeingDestroyed ? 1 : 0]++; CHECK(t == NT_Changed || t == NT_BeingDestroyed, "kind of notification"); }
static int observers(int steps, int first)
{
   Obs* ob[2] = {new Obs(0), new Obs(1)}; sub[0] = new Sub(0); sub[1] = new Sub(1); bool on[2][2] = {{false, false}, {false, false}}; int e[2][2][2] = {{{0, 0}, {0, 0}}, {{0, 0}, {0, 0}}};
   ob[0]->att(sub[0]); on[0][0] = true; // without loss of generality the first operation of interest
   for( int s = 0; s < steps; s++ )
   {
      int o = s == 0 ? first : symfork("op", 0, 5), i = symfork("obs", 0, 1), j = symfork("sub", 0, 1);
      if( o == 0 && ob[i] && sub[j] && !on[i][j] ) { ob[i]->att(sub[j]); on[i][j] = true; }
      if( o == 1 && ob[i] && sub[j] && on[i][j] ) { ob[i]->det(sub[j]); on[i][j] = false; }
      if( o == 2 && sub[j] ) { sub[j]->note(); for( int q = 0; q < 2; q++ ) if( on[q][j] ) e[q][j][0]++; }
      if( o == 3 && sub[j] ) { delete sub[j]; sub[j] = NULL; for( int q = 0; q < 2; q++ ) if( on[q][j] ) { e[q][j][1]++; on[q][j] = false; } REACH("evict"); }
      if( o == 4 && ob[i] ) { delete ob[i]; ob[i] = NULL; on[i][0] = on[i][1] = false; REACH("stale"); }
      if( o == 5 ) { if( !ob[i] ) ob[i] = new Obs(i); if( !sub[j] ) sub[j] = new Sub(j); }
      for( int a = 0; a < 2; a++ ) for( int b = 0; b < 2; b++ ) { CHECK(got[a][b][0] == e[a][b][0], "an observer hears of every change of what it observes, once, and of nothing else"); }
   }
   for( int j = 0; j < 2; j++ ) if( sub[j] ) { sub[j]->note(); for( int q = 0; q < 2; q++ ) if( on[q][j] ) e[q][j][0]++; }
   for( int a = 0; a < 2; a++ ) for( int b = 0; b < 2; b++ ) CHECK(got[a][b][0] == e[a][b][0], "notifications at the end");
   for( int j = 0; j < 2; j++ ) delete sub[j]; for( int i = 0; i < 2; i++ ) delete ob[i]; REACH("hit"); REACH("miss");
   return 0;
}
extern "C" int sym_main()
{
   int c = __sym_case(), steps = c >= 50 ? 4 : 3; if( c >= 50 ) c -= 50;
   if( c >= 18 ) return observers(steps, c - 18);
   int cap, first; if( c < 6 ) { cap = 1; first = c; } else if( c < 12 ) { cap = 2; first = c - 6; } else { cap = c < 15 ? -1 : 0; first = c % 3; } first *= c < 12 ? 2 : 3;
   Obj* t[2] = {new Obj(), new Obj()}; int ver[2] = {0, 1}, nver = 2, val = 100; double s0 = symd("scalar0"), s1 = symd("scalar1"); std::vector<Ent> L;
   { CachedResults<int> C(cap); TaggedObject::Tag last = 0; bool created = false;
     for( int s = 0; s < steps; s++ )
     {
        int o = s == 0 ? symfork("op0", first, first + (c < 12 ? 1 : 2)) : symfork("op", 0, 11); int k = o % 2; TaggedObject::Tag before[2] = {t[0]->GetTag(), t[1]->GetTag()};
        auto clean = [&]() { for( size_t i = 0; i < L.size(); ) if( L[i].stale ) L.erase(L.begin() + i); else i++; };
        auto add = [&](Ent e) { clean(); e.val = val++; e.stale = false; L.insert(L.begin(), e); while( cap >= 0 && (int) L.size() > cap ) { L.pop_back(); REACH("evict"); } created = true; };
        Ent e; e.one = false; e.has_sc = false; e.sc = 0.; e.v0 = ver[0]; e.v1 = ver[1];
        switch( o ) {
        case 0: C.AddCachedResult2Dep(val, t[0], t[1]); add(e); break;
        case 1: C.AddCachedResult1Dep(val, t[0]); e.one = true; add(e); break;
        case 2: { D d(1); d[0] = t[1]; SV sv(1, s0); e.one = true; e.v0 = ver[1]; e.has_sc = true; e.sc = s0; C.AddCachedResult(val, d, sv); add(e); break; }
        case 3: { C.AddCachedResult2Dep(val, NULL, t[1]); e.v0 = -1; add(e); break; }
        case 4: case 5: t[k]->change(); CHECK(t[k]->HasChanged(before[k]), "a changed object reports the change"); CHECK(!t[1 - k]->HasChanged(before[1 - k]), "an unchanged object reports none"); for( auto& x : L ) if( x.v0 == ver[k] || (!x.one && x.v1 == ver[k]) ) { x.stale = true; REACH("stale"); } ver[k] = nver++; break;
        case 6: case 7: { for( auto& x : L ) if( x.v0 == ver[k] || (!x.one && x.v1 == ver[k]) ) x.stale = true; delete t[k]; t[k] = new Obj(); ver[k] = nver++; break; }
        case 8: { D d(1); d[0] = t[1]; SV sv(1, s1); bool have = false; size_t w = 0; if( created ) { clean(); for( size_t i = 0; i < L.size() && !have; i++ ) if( L[i].one && L[i].has_sc && L[i].v0 == ver[1] && __sym_decide(L[i].sc == s1) ) { have = true; w = i; } } bool r = C.InvalidateResult(d, sv); CHECK(r == have, "invalidation reports whether there was a result"); if( have ) { L[w].stale = true; } break; }
        case 9: C.Clear(); L.clear(); break;
        case 10: { int nc = symfork("newcap", 0, 2); C.Clear(nc); cap = nc; L.clear(); break; }
        case 11: { int v; bool r = C.GetCachedResult2Dep(v, t[1], t[0]); CHECK(!r, "dependencies in a different order are different dependencies"); break; }
        }
        for( int q = 0; q < 2; q++ ) { CHECK(t[q]->GetTag() > 0, "tag is set"); if( t[q]->GetTag() > last ) last = t[q]->GetTag(); } CHECK(t[0]->GetTag() != t[1]->GetTag(), "tags are unique");
        // look everything up, with the model's own expectation
        struct Q { bool one; int v0, v1; const TaggedObject *a, *b; bool sc; double s; } qs[] = {{false, ver[0], ver[1], t[0], t[1], false, 0.}, {true, ver[0], -2, t[0], NULL, false, 0.}, {true, ver[1], -2, t[1], NULL, false, 0.}, {true, ver[1], -2, t[1], NULL, true, s0}, {true, ver[1], -2, t[1], NULL, true, s1}, {false, -1, ver[1], NULL, t[1], false, 0.}, {false, ver[0], -1, t[0], NULL, false, 0.}};
        for( unsigned i = 0; i < sizeof(qs) / sizeof(qs[0]); i++ ) { Q& q = qs[i]; int exp = -1; for( size_t j = 0; j < L.size() && exp < 0; j++ ) { Ent& x = L[j]; if( x.stale || x.one != q.one || x.has_sc != q.sc || x.v0 != q.v0 || (!x.one && x.v1 != q.v1) ) continue; if( q.sc && !__sym_decide(x.sc == q.s) ) continue; exp = x.val; }
           int v = -7; bool r; if( q.sc ) { D d(1); d[0] = q.a; SV sv(1, q.s); r = C.GetCachedResult(v, d, sv); } else if( q.one ) r = C.GetCachedResult1Dep(v, q.a); else r = C.GetCachedResult2Dep(v, q.a, q.b);
           CHECK(r == (exp >= 0), "a result is found exactly while its dependencies are unchanged and it was not evicted"); if( r && exp >= 0 ) { CHECK(v == exp, "the most recent result for the dependencies is returned"); REACH("hit"); } else REACH("miss"); }
     }
   }
   (void) who; t[0]->change(); delete t[0]; t[1]->change(); delete t[1]; return 0;
}
