//! {"quick":["0-7"],"level":"model_checking","mode":"real","reach":["converged","acceptable","diverging","maxiter","continue","userstop","fixed","counted"],
//!  "bounds":["1 variable with a lower bound, one equality and one two-sided inequality, user scaling of objective and constraints (positive and negative objective factor); arbitrary iterate, all measures free","histories of three convergence checks with the acceptable-point counter set to 1 or 2","all-fixed problems with an arbitrary constraint value"],
//!  "assumptions":["exact real arithmetic","termination tolerances are fixed distinct numbers (options are text)"],
//!  "outside":["restoration-phase convergence test (C30)","clock limits (C04)"]}
#include "fix.h"
#include "IpOptErrorConvCheck.hpp"
struct CbTNLP: public QTNLP { bool seen, ret; double v[8]; int iter, ls, mode; CbTNLP(int n, int m) : QTNLP(n, m), seen(false), ret(true) {}
   bool intermediate_callback(AlgorithmMode md, Index it, Number f, Number pr, Number du, Number mu, Number dn, Number rg, Number ad, Number ap, Index l, const IpoptData*, IpoptCalculatedQuantities*) { seen = true; mode = md; iter = it; ls = l; double w[8] = {f, pr, du, mu, dn, rg, ad, ap}; for( int i = 0; i < 8; i++ ) v[i] = w[i]; return ret; } };
static SmartPtr<CbTNLP> mk(double fo, double go, double go2) { SmartPtr<CbTNLP> t = new CbTNLP(1, 2); t->xl[0] = 0.; t->c[0] = 2. * fo; t->A.push_back(Trip{0, 0, 1. * go}); t->A.push_back(Trip{1, 0, -1. * go2}); t->gl[0] = t->gu[0] = 1. * go; t->gl[1] = -2. * go2; t->gu[1] = 3. * go2; return t; }
static const double TOL = .0625, DT = .5, CT = .125, CO = .25, AT = 1., ADT = 8., ACT = 2., ACO = 4., OCH = .5, DIV = 100.;
extern "C" int sym_main()
{
   int c = __sym_case();
   if( c >= 6 ) { // every variable fixed
      SmartPtr<QTNLP> t = new QTNLP(2, 1); double v = symd("v", -4., 4.); t->xl[0] = t->xu[0] = 1.; t->xl[1] = t->xu[1] = -1.; t->A.push_back(Trip{0, 0, 1.}); t->g0[0] = v; t->gl[0] = c == 6 ? 2. : -1.; t->gu[0] = 2.; SmartPtr<IpoptApplication> app = mkapp(); app->Options()->SetNumericValue("constr_viol_tol", .25); app->Options()->SetNumericValue("tol", .125); app->Options()->SetNumericValue("bound_relax_factor", 0.); app->Initialize("");
      ApplicationReturnStatus st = app->OptimizeTNLP(GetRawPtr(t)); REACH("fixed"); double g = 1. + v, e = vmax(vmax(t->gl[0] - g, g - t->gu[0]), 0.);
      if( e > .25 ) CHECK(st == Infeasible_Problem_Detected, "fixed point with a violated constraint is reported infeasible"); else CHECK(st == Solve_Succeeded, "fixed feasible point is reported solved"); CHECK(t->n_fin == 1, "solution delivered"); if( t->n_fin == 1 ) { CHECK(t->fx[0] == 1. && t->fx[1] == -1., "fixed values delivered"); CHECKEQ(t->fg[0], g, "constraint value delivered"); }
      return 0; }
   double so = c % 2 ? -2. : 4., s1 = .5, s2 = 2.; Fix F; SmartPtr<CbTNLP> t = mk(1., 1., 1.), ts = mk(so, s1, s2); t->use_sc = true; t->osc = so; t->use_gs = true; t->gs[0] = s1; t->gs[1] = s2; F.opt().SetStringValue("nlp_scaling_method", "user-scaling");
   F.opt().SetNumericValue("tol", TOL); F.opt().SetNumericValue("dual_inf_tol", DT); F.opt().SetNumericValue("constr_viol_tol", CT); F.opt().SetNumericValue("compl_inf_tol", CO); F.opt().SetNumericValue("acceptable_tol", AT); F.opt().SetNumericValue("acceptable_dual_inf_tol", ADT); F.opt().SetNumericValue("acceptable_constr_viol_tol", ACT); F.opt().SetNumericValue("acceptable_compl_inf_tol", ACO); F.opt().SetNumericValue("diverging_iterates_tol", DIV); F.opt().SetIntegerValue("max_iter", 7);
   int acc = c / 2 == 0 ? 0 : c / 2 == 1 ? 1 : 2; F.opt().SetIntegerValue("acceptable_iter", acc); if( c / 2 == 2 ) F.opt().SetNumericValue("acceptable_obj_change_tol", OCH);
   F.build(GetRawPtr(t)); CHECK(F.ok, "set up"); if( !F.ok ) return 0; Ref R(*t), Rs(*ts); OptimalityErrorConvergenceCheck cc; CHECK(cc.Initialize(F.jn(), *F.nlp, *F.data, *F.cq, F.opt(), ""), "initialize");
   int steps = c / 2 == 2 ? 3 : c / 2 == 1 ? 2 : 1; int cnt = 0; double lastf = -1e50;
   for( int k = 0; k < steps; k++ ) {
      Itr I = F.sym(nm("i", k)); if( steps == 1 ) I.b[7][0] = .25; if( steps > 1 ) { I.b[1][0] = -.5; I.b[3][0] = 0.; I.b[6][0] = .125; I.b[7][0] = .125; if( steps == 3 ) { I.b[2][0] = -.75; if( k != 1 ) I.b[4][0] = 8.; } }
      for( int j = 0; j < Rs.nb(); j++ ) { ASSUME(Rs.slack(I, j) > 1e-3); ASSUME(Rs.mult(I, j) > 1e-3); } for( int b = 0; b < 8; b++ ) for( size_t i = 0; i < I.b[b].size(); i++ ) { ASSUME(I.b[b][i] < 1000.); ASSUME(I.b[b][i] > -1000.); }
      F.curr(I); int it = steps == 1 ? symi("iter", 0, 20) : k + 5; F.data->Set_iter_count(it); F.data->Set_mu(.25); F.data->Set_tau(.9); bool cb = c / 2 == 0 && symbf("callback"); t->ret = !(cb && symbf("stop"));
      F.data->Set_info_alpha_primal(.3); F.data->Set_info_alpha_dual(.6); F.data->Set_info_regu_x(.7); F.data->Set_info_ls_count(3); Itr D; if( cb && k == 0 && symbf("have delta") ) { D = F.sym("d"); F.delta(D); }
      // the iterate in the user's terms: y/so*gs
      Itr U = I; U.b[1][0] /= s2; U.b[2][0] *= s1 / so; U.b[3][0] *= s2 / so; U.b[4][0] /= so; U.b[6][0] *= s2 / so; U.b[7][0] *= s2 / so;
      double sd, sc; Rs.scal(I, 100., sd, sc); double du = R.dinf(U), cv = R.nlpviol(U), co = R.compl_(U, 0.); double e = vmax(vmax(Rs.dinf(I) / sd, Rs.nlpviol(I)), Rs.compl_(I, 0.) / sc);
      bool conv = (e <= TOL) & (du <= DT) & (cv <= CT) & (co <= CO); bool ac = (e <= AT) & (du <= ADT) & (cv <= ACT) & (co <= ACO); double f = Rs.f(I); if( k == 0 ) ac = false; else if( c / 2 == 2 ) ac = ac & (vabs(f - lastf) <= OCH * vmax(1., vabs(f)));
      int st = cc.CheckConvergence(cb);
      if( cb ) { CHECK(t->seen, "callback called"); CHECK(t->mode == RegularMode && t->ls == 3 && t->iter == it, "callback counters"); CHECKEQ(t->v[0], R.f(U), "callback objective"); CHECKEQ(t->v[1], Rs.pinf(I), "callback primal infeasibility"); CHECKEQ(t->v[2], Rs.dinf(I), "callback dual infeasibility"); CHECK(t->v[3] == .25 && t->v[5] == .7 && t->v[6] == .6 && t->v[7] == .3, "callback parameters"); CHECKEQ(t->v[4], D.b[0].size() ? vmax(vabs(D.b[0][0]), vabs(D.b[1][0])) : 0., "callback step norm"); } else CHECK(!t->seen, "no callback");
      if( !t->ret ) { REACH("userstop"); CHECK(st == ConvergenceCheck::USER_STOP, "stop request is obeyed"); return 0; }
      int want; lastf = f;
      if( conv ) { want = ConvergenceCheck::CONVERGED; REACH("converged"); }
      else { if( acc && ac ) cnt++; else cnt = 0; if( cnt && steps == 3 ) REACH("counted"); if( acc && cnt >= acc ) { want = ConvergenceCheck::CONVERGED_TO_ACCEPTABLE_POINT; REACH("acceptable"); } else if( vabs(I.b[0][0]) > DIV ) { want = ConvergenceCheck::DIVERGING; REACH("diverging"); } else if( it >= 7 ) { want = ConvergenceCheck::MAXITER_EXCEEDED; REACH("maxiter"); } else { want = ConvergenceCheck::CONTINUE; REACH("continue"); } }
      CHECK(st == want, "termination decision follows the documented criteria"); if( st != ConvergenceCheck::CONTINUE ) return 0;
   }
   return 0;
}
