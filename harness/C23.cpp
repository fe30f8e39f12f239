//! {"quick":["0-9","20-29","40-49"],"level":"model_checking","mode":"real","reach":["g0","g1","g2","g3","g4","g5","g6","g7","g8","g9"],
//!  "bounds":["2 variables, 2 constraints, three bound structures (lower/both-bounded with equality and two-sided row; free/upper-bounded with one-sided rows; no bounds with two equalities)","iterate history current -> trial -> accepted, each an arbitrary iterate with positive slacks and multipliers of size below 1e6","barrier parameter changed between requests","functions quadratic with fixed coefficients"],
//!  "assumptions":["overall/barrier error: one constraint multiplier and one bound multiplier arbitrary, other entries fixed","exact real arithmetic; logarithm uninterpreted","slacks larger than the safe-slack threshold (the correction itself is C22)"],
//!  "outside":["2-norm variants of the measures","larger dimensions"]}
#include "fix.h"
#include "IpOrigIpoptNLP.hpp"
static Fix* F; static Ref* R; static IpoptCalculatedQuantities* q;
static const double KD = 0.25;
static double sgnind(int j) { // damping indicator of bound j: 1 if one-sided
   Ref& r = *R; int a = r.xl.size(), b = a + r.xu.size(), c = b + r.dl.size(); const std::vector<int>& me = j < a ? r.xl : j < b ? r.xu : j < c ? r.dl : r.du; const std::vector<int>& ot = j < a ? r.xu : j < b ? r.xl : j < c ? r.du : r.dl; int i = me[j < a ? j : j < b ? j - a : j < c ? j - b : j - c];
   for( size_t k = 0; k < ot.size(); k++ ) if( ot[k] == i ) return 0.; return 1.; }
static int varof(int j, bool& isx, double& sg) { Ref& r = *R; int a = r.xl.size(), b = a + r.xu.size(), c = b + r.dl.size(); isx = j < b; sg = (j < a || (j >= b && j < c)) ? 1. : -1.; return j < a ? r.xl[j] : j < b ? r.xu[j - a] : j < c ? r.dl[j - b] : r.du[j - c]; }
static double barrier(const Itr& I, double mu) { double v = R->f(I), l = 0., d = 0.; for( int j = 0; j < R->nb(); j++ ) { l += std::log(R->slack(I, j)); d += sgnind(j) * R->slack(I, j); } return v - mu * l + KD * mu * d; }
static void gbar(const Itr& I, double mu, VD& gx, VD& gs) { gx = R->gradf(I); gs.assign(R->iq.size(), 0.); for( int j = 0; j < R->nb(); j++ ) { bool isx; double sg; int i = varof(j, isx, sg); double t = -mu * sg / R->slack(I, j) + sg * KD * mu * sgnind(j); if( isx ) gx[i] += t; else gs[i] += t; } }
static void err(const Itr& I, double mu, double& e, bool bar) { double sd, sc; R->scal(I, 100., sd, sc); e = vmax(vmax(R->dinf(I) / sd, bar ? R->pinf(I) : R->nlpviol(I)), R->compl_(I, bar ? mu : 0.) / sc); }
static double l1(const VD& v) { double s = 0.; for( size_t k = 0; k < v.size(); k++ ) s += vabs(v[k]); return s; }
static double pdse(const Itr& I, double mu) { double r = (l1(R->gradLx(I)) + l1(R->gradLs(I))) / (R->t.n + (int) R->iq.size()); int np = R->eq.size() + R->iq.size(); if( np ) r += R->pinf1(I) / np; double c = 0.; for( int j = 0; j < R->nb(); j++ ) c += vabs(R->slack(I, j) * R->mult(I, j) - mu); if( R->nb() ) r += c / R->nb(); return r; }
#define BOTH(fn) (tr ? q->trial_##fn : q->curr_##fn)
static VD part(const Itr& I, int which, int what, double mu) { VD r; int o[5] = {0, (int) R->xl.size(), 0, 0, R->nb()}; o[2] = o[1] + (int) R->xu.size(); o[3] = o[2] + (int) R->dl.size(); for( int j = o[which]; j < o[which + 1]; j++ ) r.push_back(what == 0 ? R->slack(I, j) : R->slack(I, j) * R->mult(I, j) - mu); return r; }
static void group(int g, const Itr& I, bool tr, double mu, const Itr& D)
{
   if( g == 0 ) {
      CHECKEQ(BOTH(f()), R->f(I), "objective"); CKV(*BOTH(c()), R->c(I), "equality residual"); CKV(*BOTH(d()), R->d(I), "inequality value"); CKV(*BOTH(d_minus_s()), R->dms(I), "slack residual"); CKV(*BOTH(grad_f()), R->gradf(I), "objective gradient");
      CKV(*BOTH(grad_lag_x()), R->gradLx(I), "Lagrangian gradient x"); CKV(*BOTH(grad_lag_s()), R->gradLs(I), "Lagrangian gradient s");
      CHECKEQ(BOTH(primal_infeasibility(NORM_MAX)), R->pinf(I), "primal infeasibility max"); CHECKEQ(BOTH(primal_infeasibility(NORM_1)), R->pinf1(I), "primal infeasibility 1"); CHECKEQ(BOTH(constraint_violation()), R->pinf1(I), "line search constraint violation"); }
   if( g == 1 ) { CHECKEQ(BOTH(dual_infeasibility(NORM_MAX)), R->dinf(I), "dual infeasibility"); CHECKEQ(BOTH(dual_infeasibility(NORM_1)), l1(R->gradLx(I)) + l1(R->gradLs(I)), "dual infeasibility 1"); }
   if( g == 2 ) { CKV(*BOTH(slack_x_L()), part(I, 0, 0, 0.), "slack xL"); CKV(*BOTH(slack_x_U()), part(I, 1, 0, 0.), "slack xU"); CKV(*BOTH(slack_s_L()), part(I, 2, 0, 0.), "slack sL"); CKV(*BOTH(slack_s_U()), part(I, 3, 0, 0.), "slack sU");
      CKV(*BOTH(compl_x_L()), part(I, 0, 1, 0.), "compl xL"); CKV(*BOTH(compl_x_U()), part(I, 1, 1, 0.), "compl xU"); CKV(*BOTH(compl_s_L()), part(I, 2, 1, 0.), "compl sL"); CKV(*BOTH(compl_s_U()), part(I, 3, 1, 0.), "compl sU");
      CHECKEQ(BOTH(complementarity(0., NORM_MAX)), R->compl_(I, 0.), "complementarity"); CHECKEQ(BOTH(complementarity(mu, NORM_MAX)), R->compl_(I, mu), "complementarity against mu"); 
      if( !tr ) { CKV(*q->curr_relaxed_compl_x_L(), part(I, 0, 1, mu), "relaxed compl xL"); CKV(*q->curr_relaxed_compl_x_U(), part(I, 1, 1, mu), "relaxed compl xU"); CKV(*q->curr_relaxed_compl_s_L(), part(I, 2, 1, mu), "relaxed compl sL"); CKV(*q->curr_relaxed_compl_s_U(), part(I, 3, 1, mu), "relaxed compl sU"); } }
   if( g == 3 ) { if( !tr ) CHECKEQ(q->curr_nlp_constraint_violation(NORM_MAX), R->nlpviol(I), "constraint violation max"); if( !tr ) CHECKEQ(q->unscaled_curr_nlp_constraint_violation(NORM_MAX), R->nlpviol(I), "unscaled constraint violation max"); else CHECKEQ(q->unscaled_trial_nlp_constraint_violation(NORM_MAX), R->nlpviol(I), "unscaled trial constraint violation max");
      if( !tr ) CHECKEQ(q->curr_nlp_constraint_violation(NORM_1), R->nlpviol1(I), "constraint violation 1"); }
   if( g == 4 ) { CHECKEQ(BOTH(barrier_obj()), barrier(I, mu), "barrier objective"); if( !tr ) { VD gx, gs; gbar(I, mu, gx, gs); CKV(*q->curr_grad_barrier_obj_x(), gx, "barrier gradient x"); CKV(*q->curr_grad_barrier_obj_s(), gs, "barrier gradient s");
         F->delta(D); double dd = 0.; for( size_t i = 0; i < gx.size(); i++ ) dd += gx[i] * D.b[0][i]; for( size_t i = 0; i < gs.size(); i++ ) dd += gs[i] * D.b[1][i]; CHECKEQ(q->curr_gradBarrTDelta(), dd, "barrier directional derivative");
         VD lx = R->gradLx(I), ls = R->gradLs(I); for( int j = 0; j < R->nb(); j++ ) { bool isx; double sg; int i = varof(j, isx, sg); (isx ? lx : ls)[i] += sg * KD * mu * sgnind(j); } CKV(*q->curr_grad_lag_with_damping_x(), lx, "damped Lagrangian gradient x"); CKV(*q->curr_grad_lag_with_damping_s(), ls, "damped Lagrangian gradient s"); } }
   if( g == 5 ) { double a = 0., mn = 0.; for( int j = 0; j < R->nb(); j++ ) { double p = R->slack(I, j) * R->mult(I, j); a += p; mn = j ? vmin(mn, p) : p; } if( R->nb() ) a /= R->nb(); CHECKEQ(BOTH(avrg_compl()), a, "average complementarity");
      if( !tr ) { if( R->nb() == 0 ) CHECKEQ(q->curr_centrality_measure(), 0., "centrality without bounds"); else CHECKEQ(q->curr_centrality_measure() * a, mn, "centrality measure");
         VD sx(R->t.n, 0.), ss(R->iq.size(), 0.); for( int j = 0; j < R->nb(); j++ ) { bool isx; double sg; int i = varof(j, isx, sg); (isx ? sx : ss)[i] += R->mult(I, j) / R->slack(I, j); } CKV(*q->curr_sigma_x(), sx, "sigma x"); CKV(*q->curr_sigma_s(), ss, "sigma s"); } }
   if( g == 6 ) { if( !tr ) { double e; err(I, mu, e, false); CHECKEQ(q->curr_nlp_error(), e, "overall error"); err(I, mu, e, true); CHECKEQ(q->curr_barrier_error(), e, "barrier error"); } CHECKEQ(BOTH(primal_dual_system_error(mu)), pdse(I, mu), "primal-dual system error"); }
   if( g == 7 && !tr ) { F->delta(D); double tau = .75; double ap = q->curr_primal_frac_to_the_bound(tau), ad = q->curr_dual_frac_to_the_bound(tau); double rp = 1., rd = 1.;
      for( int j = 0; j < R->nb(); j++ ) { bool isx; double sg; int i = varof(j, isx, sg); double dl = sg * D.b[isx ? 0 : 1][i]; double s = R->slack(I, j); if( dl < 0. ) rp = vmin(rp, -tau * s / dl); double dm = R->mult(D, j); if( dm < 0. ) rd = vmin(rd, -tau * R->mult(I, j) / dm); } CHECKEQ(ap, rp, "primal fraction to the boundary"); CHECKEQ(ad, rd, "dual fraction to the boundary");
      CHECKEQ(q->primal_frac_to_the_bound(.5, *F->data->delta()->x(), *F->data->delta()->s()) <= 1. ? 1. : 0., 1., "fraction at most one"); }
   if( g == 8 ) { 
      SmartPtr<const Vector> yc = (tr ? F->data->trial() : F->data->curr())->y_c(), yd = (tr ? F->data->trial() : F->data->curr())->y_d(); CKV(*BOTH(jac_cT_times_vec(*yc)), R->jtv(I, R->eq, I.b[2]), "J_c^T y"); CKV(*BOTH(jac_dT_times_vec(*yd)), R->jtv(I, R->iq, I.b[3]), "J_d^T y");
      if( tr ) { CKV(*q->trial_jac_cT_times_trial_y_c(), R->jtv(I, R->eq, I.b[2]), "J_c^T y_c"); CKV(*q->trial_jac_dT_times_trial_y_d(), R->jtv(I, R->iq, I.b[3]), "J_d^T y_d"); }
      else { CKV(*q->curr_jac_cT_times_curr_y_c(), R->jtv(I, R->eq, I.b[2]), "J_c^T y_c"); CKV(*q->curr_jac_dT_times_curr_y_d(), R->jtv(I, R->iq, I.b[3]), "J_d^T y_d");
         SmartPtr<Vector> dx = F->data->curr()->x()->MakeNew(); VD w(D.b[0]); static_cast<DenseVector*>(GetRawPtr(dx))->SetValues(&w[0]); CKV(*q->curr_jac_c_times_vec(*dx), R->jv(I, R->eq, w), "J_c v"); CKV(*q->curr_jac_d_times_vec(*dx), R->jv(I, R->iq, w), "J_d v");
         SmartPtr<const SymMatrix> W = q->curr_exact_hessian(); SmartPtr<Vector> o = dx->MakeNew(); W->MultVector(1., *dx, 0., *o); VD H = R->hess(1., I), e(R->t.n, 0.); for( int i = 0; i < R->t.n; i++ ) for( int k = 0; k < R->t.n; k++ ) e[i] += H[i * R->t.n + k] * w[k]; CKV(*o, e, "Hessian of the Lagrangian times v"); } }
}
static void legal(const Itr& I) { for( int j = 0; j < R->nb(); j++ ) { ASSUME(R->slack(I, j) > 1e-3); ASSUME(R->mult(I, j) > 1e-3); } for( int k = 0; k < 8; k++ ) for( size_t i = 0; i < I.b[k].size(); i++ ) { ASSUME(I.b[k][i] < 1e6); ASSUME(I.b[k][i] > -1e6); } }
extern "C" int sym_main()
{
   int c = __sym_case(); int g = c % 10, v = c / 20; SmartPtr<QTNLP> t = new QTNLP(2, 2); Fix fx; F = &fx;
   t->c[0] = 1.; t->c[1] = -2.; t->Q.push_back(Trip{0, 0, 2.}); t->Q.push_back(Trip{1, 0, 1.}); t->A.push_back(Trip{0, 0, 1.}); t->A.push_back(Trip{0, 1, -1.}); t->A.push_back(Trip{1, 1, 2.}); t->Bq.push_back(TripK{1, 1, 0, 1.}); if( g != 6 ) t->Bq.push_back(TripK{0, 1, 1, 1.});
   if( v == 0 ) { t->xl[0] = -1.; t->xl[1] = 0.; t->xu[1] = 2.; t->gl[0] = t->gu[0] = 1.; t->gl[1] = -1.; t->gu[1] = 3.; }
   if( v == 1 ) { t->xu[1] = 2.; t->gl[0] = -1.; t->gu[0] = 2e19; t->gl[1] = -2e19; t->gu[1] = 3.; }
   if( v == 2 ) { t->gl[0] = t->gu[0] = 1.; t->gl[1] = t->gu[1] = 0.; }
   F->opt().SetNumericValue("kappa_d", KD); F->opt().SetStringValue("constr_viol_normtype", "1-norm"); F->opt().SetNumericValue("s_max", 100.);
   if( g == 9 ) { F->opt().SetStringValue("nlp_scaling_method", "user-scaling"); t->use_sc = true; t->osc = v == 1 ? -2. : 4.; t->use_xs = true; t->use_gs = true; t->xs[0] = .5; t->xs[1] = 2.; t->gs[0] = 4.; t->gs[1] = .25; F->opt().SetNumericValue("bound_relax_factor", 1e-2); }
   F->build(t); CHECK(F->ok, "set up"); if( !F->ok ) return 0; Ref r(*t); R = &r; q = GetRawPtr(F->cq); REACH(nm("g", g));
   double mu = .125; F->data->Set_mu(mu); F->data->Set_tau(.99);
   if( g == 9 ) { // user terms: u = x / xs, constraints / gs, multipliers * (gs / osc) etc.
      Itr U; for( int i = 0; i < 2; i++ ) U.b[0].push_back(symdi("u_x", i, -100., 100.)); for( size_t i = 0; i < r.iq.size(); i++ ) U.b[1].push_back(symdi("u_s", i, -100., 100.));
      for( int k = 2; k < 8; k++ ) for( int i = 0; i < F->dim(k); i++ ) U.b[k].push_back(k < 4 ? symdi("u_y", 10 * k + i, -100., 100.) : symdi("u_z", 10 * k + i, .01, 100.));
      Itr S = U; for( int i = 0; i < 2; i++ ) S.b[0][i] *= t->xs[i]; for( size_t i = 0; i < r.iq.size(); i++ ) S.b[1][i] *= t->gs[r.iq[i]]; for( size_t i = 0; i < r.eq.size(); i++ ) S.b[2][i] *= t->osc / t->gs[r.eq[i]]; for( size_t i = 0; i < r.iq.size(); i++ ) S.b[3][i] *= t->osc / t->gs[r.iq[i]];
      for( size_t i = 0; i < r.xl.size(); i++ ) S.b[4][i] *= t->osc / t->xs[r.xl[i]]; for( size_t i = 0; i < r.xu.size(); i++ ) S.b[5][i] *= t->osc / t->xs[r.xu[i]]; for( size_t i = 0; i < r.dl.size(); i++ ) S.b[6][i] *= t->osc / t->gs[r.iq[r.dl[i]]]; for( size_t i = 0; i < r.du.size(); i++ ) S.b[7][i] *= t->osc / t->gs[r.iq[r.du[i]]];
      // slack to the relaxed bound (relaxation is the documented amount of the scaled bound, C25); stay clear of the safe-slack correction
      F->curr(S); CHECKEQ(q->unscaled_curr_f(), r.f(U), "unscaled objective"); CHECKEQ(q->curr_f(), t->osc * r.f(U), "scaled objective"); CKV(*q->unscaled_curr_c(), r.c(U), "unscaled equality residual"); CKV(*q->unscaled_curr_d(), r.d(U), "unscaled inequality value");
      double e = 0.; VD a = r.gradLx(U), b = r.gradLs(U); for( size_t k = 0; k < a.size(); k++ ) e = vmax(e, vabs(a[k])); CHECKEQ(q->unscaled_curr_dual_infeasibility(NORM_MAX), vmax(e, [&] { double m = 0.; for( size_t k = 0; k < b.size(); k++ ) m = vmax(m, vabs(b[k])); return m; }()), "unscaled dual infeasibility");
      CHECKEQ(q->unscaled_curr_nlp_constraint_violation(NORM_MAX) <= r.nlpviol(U) ? 1. : 0., 1., "unscaled constraint violation not above that of the unrelaxed bounds");
      double bv = 0.; for( size_t k = 0; k < r.xl.size(); k++ ) bv = vmax(bv, t->xl[r.xl[k]] - U.b[0][r.xl[k]]); for( size_t k = 0; k < r.xu.size(); k++ ) bv = vmax(bv, U.b[0][r.xu[k]] - t->xu[r.xu[k]]); CHECKEQ(q->unscaled_curr_orig_bounds_violation(NORM_MAX), bv, "violation of the original bounds");
      return 0; }
   Itr I = F->sym("c_"), T = F->sym("t_"), D = F->sym("d_"); legal(I); legal(T);
   if( g == 6 ) { for( int i = 0; i < 2; i++ ) { I.b[0][i] = i ? .5 : 1.25; T.b[0][i] = i ? 1. : .75; } for( size_t i = 0; i < I.b[1].size(); i++ ) { I.b[1][i] = .5; T.b[1][i] = 1.; } bool fy = true, fz = true; for( int k = 2; k < 8; k++ ) for( size_t i = 0; i < I.b[k].size(); i++ ) { bool& f = k < 4 ? fy : fz; if( !f ) { I.b[k][i] = (k < 4 ? -1. : 1.) * (k + i + 1); T.b[k][i] = 200. / (k + i); } f = false; } }
   F->curr(I); group(g, I, false, mu, D);
   if( g != 6 && (g != 1 || v == 0) && symbf("one part at a time") ) { Itr X = I; for( int k = 0; k < 8; k++ ) { if( !F->dim(k) ) continue; X.b[k] = T.b[k]; SmartPtr<IteratesVector> p = F->data->curr()->MakeNewContainer(), n = F->make(X); p->SetComp(k, *n->GetComp(k)); F->data->set_trial(p); F->data->AcceptTrialPoint(); group(g, X, false, mu, D); } return 0; }
   // same multipliers, other primal point / same primal, other multipliers / all new
   int h = symfork("trial point", 0, 2); Itr X = T; if( h == 0 ) for( int k = 2; k < 8; k++ ) X.b[k] = I.b[k]; if( h == 1 ) for( int k = 0; k < 2; k++ ) X.b[k] = I.b[k];
   F->trial(X); if( h == 1 && g != 7 ) { SmartPtr<IteratesVector> p = F->data->curr()->MakeNewContainer(), n = F->make(X); for( int k = 2; k < 8; k++ ) p->SetComp(k, *n->GetComp(k)); F->data->set_trial(p); } if( h == 0 ) { SmartPtr<IteratesVector> p = F->data->curr()->MakeNewContainer(), n = F->make(X); for( int k = 0; k < 2; k++ ) p->SetComp(k, *n->GetComp(k)); F->data->set_trial(p); }
   group(g, X, true, mu, D); group(g, I, false, mu, D);
   mu = .0625; F->data->Set_mu(mu); group(g, I, false, mu, D); group(g, X, true, mu, D); F->data->AcceptTrialPoint(); group(g, X, false, mu, D);
   return 0;
}
