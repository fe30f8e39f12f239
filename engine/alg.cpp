// Algebraic decision of equalities between rational functions: exact multivariate polynomials over GMP rationals.
// A "yes" is a proof (normal form of the cross-multiplied difference, reduced by the polynomial equalities of the path
// condition, is the zero polynomial; denominators are nonzero on every path because a division forks on zero).
// A "no" means nothing: the general SMT query is asked then.
#include "solver.h"
#include <gmpxx.h>
#include <chrono>
#include <stdexcept>
#include <memory>
namespace {
typedef std::vector<std::pair<uint32_t, uint32_t>> Mono;   // (atom id, exponent), sorted by atom id
struct MLess { bool operator()(const Mono& a, const Mono& b) const { // lexicographic monomial order (larger atom exponents first)
   size_t i = 0; for( ; i < a.size() && i < b.size(); i++ ) { if( a[i].first != b[i].first ) return a[i].first > b[i].first; if( a[i].second != b[i].second ) return a[i].second < b[i].second; } return a.size() < b.size(); } };
typedef std::map<Mono, mpq_class, MLess> Poly;
struct TooBig {};
size_t budget;
void spend(size_t n) { if( n > budget ) throw TooBig(); budget -= n; }
Mono mmul(const Mono& a, const Mono& b) { Mono r; size_t i = 0, j = 0; while( i < a.size() || j < b.size() ) { if( j == b.size() || (i < a.size() && a[i].first < b[j].first) ) r.push_back(a[i++]); else if( i == a.size() || b[j].first < a[i].first ) r.push_back(b[j++]); else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; } } return r; }
bool mdiv(const Mono& a, const Mono& b, Mono& q) { q.clear(); size_t i = 0, j = 0; while( i < a.size() ) { if( j == b.size() || a[i].first < b[j].first ) q.push_back(a[i++]); else if( b[j].first < a[i].first ) return false; else { if( a[i].second < b[j].second ) return false; if( a[i].second > b[j].second ) q.push_back({a[i].first, a[i].second - b[j].second}); i++; j++; } } return j == b.size(); }
void addTo(Poly& a, const Mono& m, const mpq_class& c) { if( c == 0 ) return; auto it = a.find(m); if( it == a.end() ) a[m] = c; else { it->second += c; if( it->second == 0 ) a.erase(it); } }
Poly padd(const Poly& a, const Poly& b, int s) { Poly r = a; spend(b.size() + a.size()); for( auto& t : b ) addTo(r, t.first, s > 0 ? t.second : mpq_class(-t.second)); return r; }
Poly pmul(const Poly& a, const Poly& b) { spend(a.size() * b.size() + 1); Poly r; for( auto& x : a ) for( auto& y : b ) addTo(r, mmul(x.first, y.first), x.second * y.second); return r; }
Poly pconst(const mpq_class& c) { Poly r; if( c != 0 ) r[Mono()] = c; return r; }
bool isConst(const Poly& p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
typedef std::map<std::shared_ptr<const Poly>, uint32_t> Den;  // factors, interned
struct Frac { Poly n; Den d; };
struct Ctx {
   std::map<Poly, std::shared_ptr<const Poly>> intern; std::map<Expr*, Frac> memo;
   std::shared_ptr<const Poly> in(const Poly& p) { auto it = intern.find(p); if( it != intern.end() ) return it->second; auto q = std::make_shared<const Poly>(p); intern[p] = q; return q; }
   Poly lift(const Poly& n, const Den& have, const Den& want) { Poly r = n; for( auto& f : want ) { uint32_t h = 0; auto it = have.find(f.first); if( it != have.end() ) h = it->second; for( ; h < f.second; h++ ) r = pmul(r, *f.first); } return r; }
   static Den lcm(const Den& a, const Den& b) { Den r = a; for( auto& f : b ) { uint32_t& e = r[f.first]; e = std::max(e, f.second); } return r; }
   void cancel(Frac& f) { // remove denominator factors that are monomials or equal the numerator
      for( auto it = f.d.begin(); it != f.d.end(); ) { while( it->second && it->first->size() == 1 ) { const Mono& m = it->first->begin()->first; Mono q; bool all = !f.n.empty(); for( auto& t : f.n ) if( !mdiv(t.first, m, q) ) { all = false; break; } if( !all ) break; Poly r; for( auto& t : f.n ) { mdiv(t.first, m, q); r[q] = t.second / it->first->begin()->second; } f.n = r; it->second--; }
         while( it->second && it->first->size() > 1 && f.n == *it->first ) { f.n = pconst(1); it->second--; }
         if( !it->second ) it = f.d.erase(it); else ++it; } }
   Frac get(Expr* e) {
      auto it = memo.find(e); if( it != memo.end() ) return it->second;
      spend(1); Frac r;
      switch( e->op ) {
         case O_CONST: { double d = asD(e->c); if( !std::isfinite(d) ) throw TooBig(); r.n = pconst(mpq_class(d)); break; }
         case O_FADD: case O_FSUB: { Frac a = get(e->k[0]), b = get(e->k[1]); r.d = lcm(a.d, b.d); r.n = padd(lift(a.n, a.d, r.d), lift(b.n, b.d, r.d), e->op == O_FADD ? 1 : -1); cancel(r); break; }
         case O_FNEG: { Frac a = get(e->k[0]); r.d = a.d; r.n = padd(Poly(), a.n, -1); break; }
         case O_FMUL: { Frac a = get(e->k[0]), b = get(e->k[1]); r.n = pmul(a.n, b.n); r.d = a.d; for( auto& f : b.d ) r.d[f.first] += f.second; cancel(r); break; }
         case O_FDIV: { Frac a = get(e->k[0]), b = get(e->k[1]); if( b.n.empty() ) throw TooBig(); r.n = lift(a.n, Den(), b.d); r.d = a.d;
            if( b.n.size() == 1 ) { mpq_class c = b.n.begin()->second; for( auto& t : r.n ) t.second /= c; for( auto& v : b.n.begin()->first ) { Poly p; p[Mono{{v.first, 1}}] = 1; r.d[in(p)] += v.second; } }
            else r.d[in(b.n)]++; 
            cancel(r); break; }
         default: r.n[Mono{{e->id, 1}}] = 1;
      }
      return memo[e] = r;
   }
};
// remainder of a modulo the polynomials g (leading-term division)
Poly reduce(Poly a, const std::vector<Poly>& g) {
   Poly rem; Mono q;
   while( !a.empty() ) {
      auto lt = std::prev(a.end()); bool done = false;
      for( auto& p : g ) { auto lp = std::prev(p.end()); if( !mdiv(lt->first, lp->first, q) ) continue; mpq_class c = lt->second / lp->second; spend(p.size()); Poly sub; for( auto& t : p ) sub[mmul(t.first, q)] = t.second * c; for( auto& t : sub ) addTo(a, t.first, -t.second); done = true; break; }
      if( !done ) { rem[lt->first] = lt->second; a.erase(lt); }
   }
   return rem;
}
bool eqOf(Expr* e, Expr*& a, Expr*& b) { if( e->op == O_FEQ ) { a = e->k[0]; b = e->k[1]; return true; } return false; }
}
bool algEqual(Expr* x, Expr* y, const std::vector<Expr*>& path) {
   if( g_mode != REAL ) return false;
   auto t0 = std::chrono::steady_clock::now(); bool ok = false;
   try {
      budget = 60000; Ctx c; Frac a = c.get(x), b = c.get(y); Den d = Ctx::lcm(a.d, b.d); Poly D = padd(c.lift(a.n, a.d, d), c.lift(b.n, b.d, d), -1);
      ok = D.empty();
      if( !ok ) {
         std::vector<Poly> g; Expr* p, *q;
         for( Expr* e : path ) if( eqOf(e, p, q) && g.size() < 12 ) { try { size_t keep = budget; Frac u = c.get(p), v = c.get(q); Den dd = Ctx::lcm(u.d, v.d); Poly N = padd(c.lift(u.n, u.d, dd), c.lift(v.n, v.d, dd), -1); (void)keep; if( !N.empty() && N.size() < 60 && !isConst(N) ) g.push_back(N); } catch( TooBig& ) { break; } }
         if( !g.empty() ) { for( size_t i = 0; i < g.size(); i++ ) { std::vector<Poly> o; for( size_t j = 0; j < g.size(); j++ ) if( j != i && !g[j].empty() ) o.push_back(g[j]); g[i] = reduce(g[i], o); } std::vector<Poly> o; for( auto& p : g ) if( !p.empty() ) o.push_back(p); ok = reduce(D, o).empty(); }
      }
   } catch( TooBig& ) { ok = false; }
   g_ss.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
   if( ok ) { g_ss.queries++; g_ss.unsat++; g_ss.algebraic++; }
   return ok;
}
