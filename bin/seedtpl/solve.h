// Small concrete problems solved end to end by the real algorithm, with reference checks of what the user sees.
#pragma once
#include "hs.h"
static inline double dabs(double v) { return v < 0. ? -v : v; }
static inline double dmax(double a, double b) { return a > b ? a : b; }
static inline bool fin(double v) { return v == v && v < 1e300 && v > -1e300; }
static inline bool near(double a, double b, double tol = 1e-8) { return dabs(a - b) <= tol * dmax(1., dmax(dabs(a), dabs(b))); }
struct SolveTNLP: public QTNLP
{
   // iteration callback behaviour and what it saw
   bool cb_check; int cb_bad; int last_iter; int resto_seen; int cb_n; long order_bad; bool throw_at_fail; double last_obj; int finalized_before; std::vector<double> lastx; int n_getters; int first_fail_iter; int n_failed; bool before_cb;
   virtual void failing(int) { if( !n_failed++ ) { first_fail_iter = last_iter; before_cb = cb_n == 0; } }
   SolveTNLP(int n, int m) : QTNLP(n, m), cb_check(false), cb_bad(0), last_iter(-1), resto_seen(0), cb_n(0), order_bad(0), throw_at_fail(false), last_obj(0.), finalized_before(0), n_getters(0), first_fail_iter(-2), n_failed(0), before_cb(false) {}
   virtual bool intermediate_callback(AlgorithmMode mode, Index iter, Number obj, Number, Number, Number, Number, Number, Number, Number, Index, const IpoptData* d, IpoptCalculatedQuantities* q)
   {
      cb_n++; if( n_fin ) order_bad++; if( mode == RestorationPhaseMode ) resto_seen++; if( iter < last_iter ) order_bad++; last_iter = iter; last_obj = obj;
      if( cb_check ) { std::vector<double> x(n), zl(n), zu(n), g(m + 1), l(m + 1), rg(m + 1); n_getters++;
         if( get_curr_iterate(d, q, false, n, &x[0], &zl[0], &zu[0], m, &g[0], &l[0]) ) { G(&x[0], &rg[0]); for( int i = 0; i < m; i++ ) if( !near(g[i], rg[i]) ) cb_bad++; if( mode == RegularMode && !near(obj, F(&x[0])) && osc == 1. ) cb_bad++; for( int i = 0; i < n; i++ ) if( !fin(x[i]) ) cb_bad++; lastx = x; } }
      return !(stop_at >= 0 && n_ic++ == stop_at);
   }
   void A_(int k, int j, double v) { Trip t = {k, j, v}; A.push_back(t); }
   void Q_(int i, int j, double v) { Trip t = {i, j, v}; Q.push_back(t); }
   void B_(int k, int i, int j, double v) { TripK t = {k, i, j, v}; Bq.push_back(t); }
   // error measures of what finalize_solution received (reference functions)
   double stat(bool skipfix = false) const { std::vector<double> gr(n), J_(m * n + 1); GF(&fx[0], &gr[0]); J(&fx[0], &J_[0]); double e = 0.; for( int i = 0; i < n; i++ ) { if( skipfix && xl[i] == xu[i] ) continue; double r = gr[i] - fzl[i] + fzu[i]; for( int k = 0; k < m; k++ ) r += flam[k] * J_[k * n + i]; e = dmax(e, dabs(r)); } return e; }
   double viol() const { std::vector<double> g_(m + 1); G(&fx[0], &g_[0]); double e = 0.; for( int k = 0; k < m; k++ ) { e = dmax(e, gl[k] - g_[k]); e = dmax(e, g_[k] - gu[k]); } for( int i = 0; i < n; i++ ) { e = dmax(e, xl[i] - fx[i]); e = dmax(e, fx[i] - xu[i]); } return e; }
   double comp() const { std::vector<double> g_(m + 1); G(&fx[0], &g_[0]); double e = 0.; for( int i = 0; i < n; i++ ) { if( xl[i] > -1e19 ) e = dmax(e, dabs(fzl[i] * (fx[i] - xl[i]))); else e = dmax(e, dabs(fzl[i])); if( xu[i] < 1e19 ) e = dmax(e, dabs(fzu[i] * (xu[i] - fx[i]))); else e = dmax(e, dabs(fzu[i])); }
      for( int k = 0; k < m; k++ ) { double l = flam[k]; if( l > 0. ) e = dmax(e, gu[k] < 1e19 ? l * dabs(gu[k] - g_[k]) : l); if( l < 0. ) e = dmax(e, gl[k] > -1e19 ? -l * dabs(g_[k] - gl[k]) : -l); } return e; }
   bool sign() const { for( int i = 0; i < n; i++ ) if( fzl[i] < 0. || fzu[i] < 0. ) return false; return true; }
   bool finite() const { bool r = fin(fobj); for( int i = 0; i < n; i++ ) r = r && fin(fx[i]) && fin(fzl[i]) && fin(fzu[i]); for( int k = 0; k < m; k++ ) r = r && fin(fg[k]) && fin(flam[k]); return r; }
   bool consistent() const { std::vector<double> g_(m + 1); G(&fx[0], &g_[0]); bool r = near(fobj, F(&fx[0])); for( int k = 0; k < m; k++ ) r = r && near(fg[k], g_[k]); return r; }
   bool inbounds(double slack) const { for( int i = 0; i < n; i++ ) { if( fx[i] < xl[i] - slack * dmax(1., dabs(xl[i])) ) return false; if( fx[i] > xu[i] + slack * dmax(1., dabs(xu[i])) ) return false; } return true; }
};
enum { PQP, PNONCVX, PFIXED, PINFEAS, PRESTO, PUNBND, PSQUARE, PFREE, PINEQ, PBOX, NPROB };
static inline SmartPtr<SolveTNLP> problem(int p)
{
   SmartPtr<SolveTNLP> t;
   switch( p ) {
   case PQP: t = new SolveTNLP(2, 1); t->xl[0] = 0.; t->xl[1] = -1.; t->xu[1] = 5.; t->gl[0] = t->gu[0] = 1.; t->x0[0] = t->x0[1] = .5; t->c[0] = 1.; t->Q_(0, 0, 2.); t->Q_(1, 1, 2.); t->A_(0, 0, 1.); t->A_(0, 1, 1.); t->B_(0, 1, 1, 1.); break;
   case PNONCVX: t = new SolveTNLP(2, 2); t->xl[0] = .1; t->xu[0] = 4.; t->gl[0] = 1.; t->gu[0] = 2e19; t->gl[1] = -3.; t->gu[1] = 3.; t->x0[0] = 2.; t->x0[1] = 3.; t->Q_(0, 0, 2.); t->Q_(1, 0, -1.); t->c[1] = 1.; t->A_(1, 0, 1.); t->A_(1, 1, -1.); t->B_(0, 1, 0, 1.); t->B_(0, 1, 1, .5); break;
   case PFIXED: t = new SolveTNLP(3, 1); t->xl[0] = t->xu[0] = 1.5; t->xl[1] = 0.; t->gl[0] = -1.; t->gu[0] = 4.; t->x0[0] = 1.; t->x0[1] = 1.; t->x0[2] = 1.; t->Q_(0, 0, 1.); t->Q_(1, 1, 2.); t->Q_(2, 2, 1.); t->Q_(2, 0, 1.); t->c[1] = -1.; t->A_(0, 0, 1.); t->A_(0, 2, 2.); t->B_(0, 1, 1, 1.); break;
   case PINFEAS: t = new SolveTNLP(2, 1); t->gl[0] = t->gu[0] = -1.; t->x0[0] = 1.; t->x0[1] = .7; t->c[0] = 1.; t->c[1] = .5; t->B_(0, 0, 0, 2.); t->B_(0, 1, 1, 1.); break;
   case PRESTO: t = new SolveTNLP(3, 2); t->xl[1] = t->xl[2] = 0.; t->gl[0] = t->gu[0] = 1.; t->gl[1] = t->gu[1] = .5; t->x0[0] = -2.; t->x0[1] = 3.; t->x0[2] = 1.; t->c[0] = 1.; t->B_(0, 0, 0, 2.); t->A_(0, 1, -1.); t->A_(1, 0, 1.); t->A_(1, 2, -1.); break;
   case PUNBND: t = new SolveTNLP(2, 1); t->xl[0] = 0.; t->gl[0] = -2e19; t->gu[0] = 3.; t->x0[0] = 1.; t->x0[1] = 1.; t->c[0] = -1.; t->Q_(0, 0, -.01); t->A_(0, 0, -1.); t->A_(0, 1, 1.); break;
   case PSQUARE: t = new SolveTNLP(2, 2); t->gl[0] = t->gu[0] = 4.; t->gl[1] = t->gu[1] = 1.; t->x0[0] = 1.; t->x0[1] = 2.; t->A_(0, 0, 1.); t->A_(0, 1, 1.); t->B_(0, 0, 0, 1.); t->A_(1, 1, 1.); t->B_(1, 1, 0, -.5); break;
   case PFREE: t = new SolveTNLP(2, 0); t->x0[0] = 3.; t->x0[1] = -2.; t->Q_(0, 0, 2.); t->Q_(1, 1, 4.); t->Q_(1, 0, 1.); t->c[0] = -2.; break;
   case PINEQ: t = new SolveTNLP(3, 3); t->xl[0] = -1.; t->xu[0] = 1.; t->xu[2] = 2.; t->gl[0] = -2e19; t->gu[0] = 1.; t->gl[1] = 0.; t->gu[1] = 2e19; t->gl[2] = t->gu[2] = .5; t->x0[0] = .3; t->x0[1] = .2; t->x0[2] = 1.; t->c[0] = -1.; t->c[1] = -2.; t->Q_(2, 2, 2.); t->Q_(1, 0, .5); t->Q_(0, 0, 1.); t->Q_(1, 1, 3.); t->B_(0, 0, 0, 2.); t->B_(0, 1, 1, 2.); t->A_(1, 1, 1.); t->A_(1, 2, 1.); t->A_(2, 0, 1.); t->A_(2, 1, 1.); t->A_(2, 2, 1.); break;
   case PBOX: t = new SolveTNLP(3, 0); t->xl[0] = 1.; t->xu[0] = 3.; t->xu[1] = 0.; t->xl[2] = -1.; t->x0[0] = 10.; t->x0[1] = 5.; t->x0[2] = -7.; t->Q_(0, 0, 1.); t->Q_(1, 1, 1.); t->Q_(2, 2, 1.); t->c[1] = -1.; t->Q_(2, 1, .3); break;
   }
   return t;
}
