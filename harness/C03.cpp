//! {"quick":["0-9","20-29","40-46","60-61"],"thorough":["0-29","30-39","40-46","60-61","50-56"],"level":"fault_enumeration","mode":"real","flags":["--max-viol=6"],"reach":["failed","solved","retried","history","start","nonfinite"],
//!  "bounds":["one infinite or NaN value in any component of any function (derivatives: with the check switched on or off), for a new or an already evaluated point","ten concrete problems (equalities, inequalities, fixed variables, square, infeasible, restoration, unbounded, unconstrained); one failing evaluation call at any position among the first 60 (30 where a run is long), of any kind, reported as failure return or as NaN (thorough: infinity too, and failures that persist from any call onwards)","evaluation histories of three requests (objective, gradient, constraints, Jacobians, Hessian) over two points with arbitrary real coordinates, each user call failing or not"],
//!  "assumptions":["linear solver replaced by a dense LDL^T stand-in with the MUMPS calling convention","runs of the complete algorithm use the concrete starting data of the listed problems"],
//!  "outside":["multipliers of fixed variables when the evaluation needed for them alone fails","exceptions thrown by user functions"]}
#include <limits>
#include "solve.h"
#include "adp.h"
// one solve with a fault
static int full(int p, int kind, bool persist)
{
   SmartPtr<SolveTNLP> t = problem(p); t->cb_check = true; int hi = p == PINFEAS || p == PUNBND ? 30 : 60; int k = symi("fail_at", 0, hi);
   if( persist ) { t->fail_from = k; t->fail_mask = 2 << symfork("fkind", 0, 4); } else t->fail_at = k;
   if( kind ) { t->emit_bad = true; t->badval = kind == 1 ? INFINITY : NAN; }
   SmartPtr<IpoptApplication> app = mkapp(); app->Initialize(""); bool threw = false; ApplicationReturnStatus st = Internal_Error;
   try { st = app->OptimizeTNLP(GetRawPtr(t)); } catch( ... ) { threw = true; }
   CHECK(!threw, "no exception escapes from the solve"); if( threw ) return 0;
   CHECK(t->n_fin == 1, "solution delivered exactly once"); if( t->n_fin != 1 ) return 0;
   if( p == PFIXED && kind ) t->fzl[0] = t->fzu[0] = 0.; CHECK(t->finite(), "delivered values are finite"); CHECK(t->cb_bad == 0, "values shown during the run are those of the user functions"); CHECK(t->order_bad == 0, "iteration callbacks in order"); CHECK(!t->bad_call, "sizes passed to user functions");
   bool good = st == Solve_Succeeded || st == Solved_To_Acceptable_Level;
   CHECK(good == (t->status == SUCCESS || t->status == STOP_AT_ACCEPTABLE_POINT), "return code and delivered status agree"); CHECK((st == Invalid_Number_Detected) == (t->status == INVALID_NUMBER_DETECTED), "invalid number status agrees"); CHECK(st != Internal_Error && st != Unrecoverable_Exception && st != NonIpopt_Exception_Thrown, "failure mapped to a regular status");
   if( st == Solve_Succeeded ) { REACH("solved"); CHECK(t->stat(true) < (kind == 1 ? 1. : 1e-3) && t->viol() < 1e-4 && t->comp() < (kind == 1 ? 10. : 1.1e-4) && t->sign(), "success is reported for a KKT point only"); }
   if( st != Invalid_Number_Detected ) CHECK(t->consistent(), "reported objective and constraints are those of the reported point");
   if( t->n_failed ) { REACH("failed"); bool fg = t->fail_kind == 1 || t->fail_kind == 3; bool reg = p == PQP || p == PNONCVX || p == PFIXED || p == PINEQ || p == PBOX || p == PFREE;
      if( fg && t->before_cb ) { REACH("start"); CHECK(st == Invalid_Number_Detected, "objective or constraint failure at the starting point is reported"); }
      else if( fg && reg && !persist ) { REACH("retried"); CHECK(st == Solve_Succeeded, "one failing trial evaluation only shortens the step"); }
      else if( !fg && !t->before_cb && !kind && !persist && reg && p != PFIXED && t->first_fail_iter < t->last_iter ) CHECK(false, "derivative failure at an iterate stops the run"); }
   return 0;
}
// history of evaluation requests at the adapter
static int hist(int op1, bool wide)
{
   SmartPtr<QTNLP> t = new QTNLP(2, 2); t->xl[0] = 0.; t->gl[0] = t->gu[0] = 1.5; t->gl[1] = -1.; t->gu[1] = 3.; t->Q.push_back(Trip{1, 0, 2.}); t->Q.push_back(Trip{1, 1, 1.}); t->c[0] = 3.; t->A.push_back(Trip{0, 0, 2.}); t->A.push_back(Trip{1, 1, -1.}); t->Bq.push_back(TripK{0, 1, 1, 1.}); t->Bq.push_back(TripK{1, 1, 0, 2.});
   Adp a(0); CHECK(a.open(t), "problem accepted"); if( !a.ok ) return 0; REACH("history"); { SmartPtr<Matrix> m1 = a.pxl->MakeNew(), m2 = a.pxu->MakeNew(), m3 = a.pdl->MakeNew(), m4 = a.pdu->MakeNew(); SmartPtr<Vector> v1 = a.xls->MakeNew(), v2 = a.xus->MakeNew(), v3 = a.dls->MakeNew(), v4 = a.dus->MakeNew(); a.ad->GetBoundsInformation(*m1, *v1, *m2, *v2, *m3, *v3, *m4, *v4); }
   std::vector<double> xs[2], yc, yd; SmartPtr<DenseVector> x[2]; x[0] = a.vec(a.xs, "x", xs[0]); x[1] = a.vec(a.xs, "w", xs[1]); SmartPtr<DenseVector> y1 = a.vec(a.cs, "yc", yc), y2 = a.vec(a.ds, "yd", yd);
   for( int step = 0; step < 3; step++ ) {
      int op = step == 0 ? op1 : symfork(nm("op", step), 0, 6), pt = step == 1 ? symfork("pt", 0, 1) : 0; if( step == 1 && !wide && pt ) continue;
      bool fl = symbf(nm("fail", step)); int before = t->calls; t->fail_at = fl ? t->calls : -1; const Vector& X = *x[pt]; const double* xv = &xs[pt][0]; bool r = false; double g[2], J[4], H[4], gr[2], lam[2] = {yc[0], yd[0]}; t->G(xv, g); t->J(xv, J); t->GF(xv, gr); t->H(1.5, lam, H); double f = 0.; bool okv = true; std::vector<double> v;
      switch( op ) {
      case 0: r = a.ad->Eval_f(X, f); if( r ) okv = f == t->F(xv); break;
      case 1: { SmartPtr<DenseVector> o = a.vec(a.xs); r = a.ad->Eval_grad_f(X, *o); if( r ) { dvget(*o, v); okv = (v[0] == gr[0]) & (v[1] == gr[1]); } break; }
      case 2: { SmartPtr<DenseVector> o = a.vec(a.cs); r = a.ad->Eval_c(X, *o); if( r ) okv = dv(*o, 0) == g[0] - 1.5; break; }
      case 3: { SmartPtr<DenseVector> o = a.vec(a.ds); r = a.ad->Eval_d(X, *o); if( r ) okv = dv(*o, 0) == g[1]; break; }
      case 4: case 5: { SmartPtr<Matrix> m = op == 4 ? a.jc->MakeNew() : a.jd->MakeNew(); r = op == 4 ? a.ad->Eval_jac_c(X, *m) : a.ad->Eval_jac_d(X, *m); if( r ) { SmartPtr<DenseVector> o = a.vec(op == 4 ? a.cs : a.ds); double e[2] = {1., 0.}, e2[2] = {0., 1.}; SmartPtr<DenseVector> w = a.vec(a.xs); w->SetValues(e); m->MultVector(1., *w, 0., *o); okv = dv(*o, 0) == J[(op - 4) * 2]; w->SetValues(e2); m->MultVector(1., *w, 0., *o); okv = okv & (dv(*o, 0) == J[(op - 4) * 2 + 1]); } break; }
      case 6: { SmartPtr<SymMatrix> m = a.hs->MakeNewSymMatrix(); r = a.ad->Eval_h(X, 1.5, *y1, *y2, *m); if( r ) { SmartPtr<DenseVector> o = a.vec(a.xs), w = a.vec(a.xs); double e[2] = {0., 1.}; w->SetValues(e); m->MultVector(1., *w, 0., *o); okv = (dv(*o, 0) == H[1]) & (dv(*o, 1) == H[3]); } break; } }
      bool reallyfailed = fl && t->calls > before; CHECK(r != reallyfailed, "a request fails exactly if the user function it needs failed"); CHECK(okv, "a request that succeeds returns the values of the requested point");
   }
   return 0;
}
#include "fix.h"
// a value that is not finite in any component is an evaluation error (first derivatives and Hessian: if asked for)
static int nonfinite(bool deriv)
{
   static const double bad[3] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}; int w = symfork("what", 0, deriv ? 3 : 4), i = symfork("entry", 0, 2), q = symfork("value", 0, 2); bool checked = !deriv || symbf("derivatives checked"), first = symbf("evaluated before"); REACH("nonfinite");
   SmartPtr<QTNLP> t = new QTNLP(3, 3); for( int k = 0; k < 3; k++ ) { t->c[k] = 1. + k; t->gl[k] = k ? -1. : 2.; t->gu[k] = k == 2 ? 9. : 2. - 3. * (k == 1); Trip a = {k, k, 2. + k}, b = {k, (k + 1) % 3, 1.}; t->A.push_back(a); t->A.push_back(b); Trip h = {k, k, 1. + k}; t->Q.push_back(h); } t->gl[1] = t->gu[1] = -1.; 
   Fix F; if( deriv && checked ) F.opt().SetStringValue("check_derivatives_for_naninf", "yes"); F.opt().SetStringValue("dependency_detector", "none"); F.build(t); CHECK(F.ok, "set up"); Itr I; for( int k = 0; k < 8; k++ ) I.b[k].assign(F.dim(k), 1.); F.curr(I); SmartPtr<Vector> x = F.data->curr()->x()->MakeNewCopy(); x->Set(1.); SmartPtr<Vector> x2 = x->MakeNewCopy(); x2->Set(2.);
   if( first ) { F.nlp->f(*x2); F.nlp->grad_f(*x2); F.nlp->c(*x2); F.nlp->d(*x2); F.nlp->jac_c(*x2); F.nlp->jac_d(*x2); }
   bool thrown = false, expect = true; double v = bad[q];
   try
   {
      if( !deriv ) { if( w < 2 ) t->c[i] = v; else if( w < 4 ) { int r = w == 2 ? (i & 1) : 2; t->A[2 * r + (i > 1)].v = v; } else { t->x0[0] = 0.; expect = false; }
         if( w == 0 ) F.nlp->f(*x); if( w == 1 ) F.nlp->grad_f(*x); if( w == 2 ) F.nlp->c(*x); if( w == 3 ) F.nlp->d(*x); if( w == 4 ) { F.nlp->f(*x); F.nlp->d(*x); } }
      else { expect = checked; if( w < 2 ) { int r = w == 0 ? (i & 1) : 2; t->A[2 * r + (i > 1)].v = v; if( w == 0 ) F.nlp->jac_c(*x); else F.nlp->jac_d(*x); } else if( w == 2 ) { t->Q[i].v = v; F.nlp->h(*x, 1., *F.data->curr()->y_c(), *F.data->curr()->y_d()); } else { expect = false; F.nlp->jac_c(*x); F.nlp->jac_d(*x); F.nlp->h(*x, 1., *F.data->curr()->y_c(), *F.data->curr()->y_d()); } }
   }
   catch( IpoptNLP::Eval_Error& ) { thrown = true; }
   CHECK(thrown == expect, "a value that is not finite is an evaluation error"); return 0;
}
extern "C" int sym_main()
{
   int c = __sym_case(); if( c >= 60 ) return nonfinite(c == 61); if( c < 10 ) return full(c, 0, false); if( c < 20 ) return full(c - 10, 1, false); if( c < 30 ) return full(c - 20, 2, false); if( c < 40 ) return full(c - 30, 0, true);
   if( c < 50 ) return hist(c - 40, false); return hist(c - 50, true);
}
