//! {"quick":["0-8"],"thorough":["0-8"],"level":"model_checking","mode":"real",
//!  "reach":["user","gradient","relaxed","roundtrip"],
//!  "bounds":["3 variables, 2 constraints (one equality, one two-sided), all coefficients, points, multipliers and scaling factors arbitrary reals (x and constraint factors positive, objective factor nonzero)","bounds arbitrary reals, three combinations of bound_relax_factor and constr_viol_tol, three objective factors"],
//!  "assumptions":["exact real arithmetic"],
//!  "outside":["gradient-based scaling with repeated Jacobian entries (the factor is computed from the single entries)","equilibration-based scaling (needs an external library)","rounding"]}
#include "adp.h"
#include "cmpmat.h"
extern "C" int sym_main()
{
   int c = __sym_case(); int n = 3, m = 2; SmartPtr<QTNLP> t = new QTNLP(n, m); int mode = c == 3 ? 1 : c == 4 ? 2 : 0; Org o(mode); Adp& a = o.a;
   bool conc = c >= 5 && c <= 6; double a0 = 0;
   t->xl[0] = symd("xl0", -1e6, 1e6); t->xu[1] = symd("xu1", -1e6, 1e6); t->xl[2] = symd("xl2", -1e6, 1e6); t->xu[2] = symd("xu2", -1e6, 1e6); ASSUME(t->xl[2] <= t->xu[2]); if( c == 1 ) ASSUME(t->xl[2] < t->xu[2]);
   t->gl[0] = t->gu[0] = symd("g0v", -1e6, 1e6); t->gl[1] = symd("gl1", -1e6, 1e6); t->gu[1] = symd("gu1", -1e6, 1e6); ASSUME(t->gl[1] < t->gu[1]);
   Trip q; q.i = 1; q.j = 0; q.v = symd("q10"); t->Q.push_back(q); q.i = 2; q.j = 2; q.v = symd("q22"); t->Q.push_back(q); for( int i = 0; i < n; i++ ) t->c[i] = symdi("c", i);
   int k = 0; for( int r = 0; r < m; r++ ) for( int j = 0; j < n; j++ ) { if( (r == 0 && j == 2) || (conc && r == 1 && j == 1) ) continue; q.i = r; q.j = j; q.v = symdi("a", k++); t->A.push_back(q); } TripK b; b.k = 1; b.i = conc ? 1 : 2; b.j = conc ? 1 : 0; b.v = symd("b0"); t->Bq.push_back(b);
   (void) conc; (void) a0;
   if( c <= 4 || c == 7 || c == 8 ) { // user scaling
      double df = symd("df"); ASSUME(df != 0.); std::vector<double> dx(n), dg(m); t->use_sc = true; t->osc = df; bool ux = c != 7, ug = c != 8; t->use_xs = ux; t->use_gs = ug; double osf = 1.; if( c == 2 ) { { static const double OS[3] = {-1., 0.25, -1e3}; osf = OS[symfork("osf", 0, 2)]; } a.app->Options()->SetNumericValue("obj_scaling_factor", osf); }
      double D = df * osf; for( int i = 0; i < n; i++ ) { double v = symdi("dx", i); ASSUME(v > 0.); t->xs[i] = v; dx[i] = ux ? v : 1.; } for( int i = 0; i < m; i++ ) { double v = symdi("dg", i); ASSUME(v > 0.); t->gs[i] = v; dg[i] = ug ? v : 1.; }
      double rf = 0., cvt = 1e-4; if( c != 0 ) { static const double RF[3] = {1e-8, 0.5, 0.}, CV[3] = {1e-4, 2., 1e-9}; int s_ = symfork("relax", 0, 2); rf = RF[s_]; cvt = CV[s_]; if( s_ == 0 && c == 2 ) cvt = CV[2]; a.app->Options()->SetNumericValue("constr_viol_tol", cvt); } a.app->Options()->SetNumericValue("bound_relax_factor", rf);
      for( int i = 0; i < n; i++ ) { t->x0[i] = symdi("x0", i); t->zl0[i] = symdi("zl0", i); t->zu0[i] = symdi("zu0", i); } for( int i = 0; i < m; i++ ) t->lam0[i] = symdi("lam0", i);
      CHECK(o.open(t, 1, true, true, true), "problem accepted"); if( !o.ok ) return 0; REACH("user"); if( rf > 0. ) REACH("relaxed");
      // bounds: relaxed by min(constr_viol_tol, factor*max(1,|b|)), then scaled
      auto rel = [&](double bb, double sg) { double ab = bb < 0. ? -bb : bb; double w = rf * (ab > 1. ? ab : 1.); if( cvt < w ) w = cvt; return bb + sg * w; };
      { std::vector<double> l, u, dl, du; dvget(*o.on->x_L(), l); dvget(*o.on->x_U(), u); dvget(*o.on->d_L(), dl); dvget(*o.on->d_U(), du); size_t kl = 0, ku = 0; for( int kk = 0; kk < a.nx; kk++ ) { int i = a.xv[kk]; if( a.haslb(i) && kl < l.size() && !(mode == 2 && a.isfix(i)) ) CHECKEQ(l[kl++], dx[i] * rel(t->xl[i], -1.), "lower bound relaxed and scaled"); else if( a.haslb(i) ) kl++; if( a.hasub(i) && ku < u.size() && !(mode == 2 && a.isfix(i)) ) CHECKEQ(u[ku++], dx[i] * rel(t->xu[i], 1.), "upper bound relaxed and scaled"); else if( a.hasub(i) ) ku++; }
        CHECK(kl == l.size() && ku == u.size(), "bound counts"); if( mode == 2 && a.isfix(2) && rf > 0. ) { CHECK(l[kl - 1] < u[ku - 1], "relax_bounds opens a fixed variable"); CHECK(l[kl - 1] / dx[2] >= rel(rel(t->xl[2], -1.), -1.) && u[ku - 1] / dx[2] <= rel(rel(t->xu[2], 1.), 1.), "relaxation amount"); }
        CHECKEQ(dl[0], dg[1] * rel(t->gl[1], -1.), "constraint lower side relaxed and scaled"); CHECKEQ(du[0], dg[1] * rel(t->gu[1], 1.), "constraint upper side relaxed and scaled"); }
      // starting point in scaled space
      std::vector<double> x; dvget(*o.x, x); for( int kk = 0; kk < a.nx; kk++ ) CHECKEQ(x[kk], dx[a.xv[kk]] * t->x0[a.xv[kk]], "scaled starting point");
      // functions in scaled space
      std::vector<double> xs_, f(n); SmartPtr<DenseVector> xv = a.vec(o.x->OwnerSpace(), "x", xs_); a.full(xs_, f); for( int kk = 0; kk < a.nx; kk++ ) f[a.xv[kk]] = xs_[kk] / dx[a.xv[kk]];
      std::vector<double> g(m), J(m * n), gf(n), H(n * n); t->G(&f[0], &g[0]); t->J(&f[0], &J[0]); t->GF(&f[0], &gf[0]);
      CHECKEQ(o.on->f(*xv), D * t->F(&f[0]), "scaled objective"); { std::vector<double> r; dvget(*o.on->grad_f(*xv), r); for( int kk = 0; kk < a.nx; kk++ ) CHECKEQ(r[kk], D * gf[a.xv[kk]] / dx[a.xv[kk]], "scaled gradient"); }
      { std::vector<double> r; dvget(*o.on->c(*xv), r); CHECKEQ(r[0], dg[0] * (g[0] - t->gl[0]), "scaled equality"); dvget(*o.on->d(*xv), r); CHECKEQ(r[0], dg[1] * g[1], "scaled inequality"); }
      if( c != 2 ) { std::vector<double> Dm(a.nc * a.nx, 0.); for( int kk = 0; kk < a.nx; kk++ ) Dm[kk] = dg[0] * J[a.xv[kk]] / dx[a.xv[kk]]; for( size_t e = 0; e < a.fix.size() && a.nfixrows; e++ ) Dm[(1 + e) * a.nx + a.fix[e]] = 1. / dx[a.fix[e]]; cmpmat(*o.on->jac_c(*xv), Dm, a.nc, a.nx, "scaled equality Jacobian", "scaled equality Jacobian transposed");
        for( int kk = 0; kk < a.nx; kk++ ) Dm[kk] = dg[1] * J[n + a.xv[kk]] / dx[a.xv[kk]]; cmpmat(*o.on->jac_d(*xv), Dm, 1, a.nx, "scaled inequality Jacobian", "scaled inequality Jacobian transposed"); }
      { std::vector<double> yc, yd, lam(m); SmartPtr<DenseVector> ycv = a.vec(o.yc->OwnerSpace(), "yc", yc), ydv = a.vec(o.yd->OwnerSpace(), "yd", yd); double of = symd("of"); lam[0] = dg[0] * yc[0]; lam[1] = dg[1] * yd[0]; t->H(D * of, &lam[0], &H[0]); std::vector<double> Dm(a.nx * a.nx); for( int p = 0; p < a.nx; p++ ) for( int r = 0; r < a.nx; r++ ) Dm[p * a.nx + r] = H[a.xv[p] * n + a.xv[r]] / dx[a.xv[p]] / dx[a.xv[r]]; cmpmat(*o.on->h(*xv, of, *ycv, *ydv), Dm, a.nx, a.nx, "scaled Hessian", "scaled Hessian symmetric"); }
      // round trip: the starting multipliers handed straight back are what the user gave
      o.on->FinalizeSolution(MAXITER_EXCEEDED, *o.x, *o.zl, *o.zu, *o.on->c(*o.x), *o.on->d(*o.x), *o.yc, *o.yd, o.on->f(*o.x), NULL, NULL); REACH("roundtrip");
      for( int i = 0; i < m; i++ ) CHECKEQ(t->flam[i], t->lam0[i], "constraint multipliers round trip"); for( int i = 0; i < n; i++ ) { if( a.par() && a.isfix(i) ) continue; if( a.mode == 1 && a.isfix(i) ) continue; CHECKEQ(t->fx[i], t->x0[i], "x round trip"); CHECKEQ(t->fzl[i], a.haslb(i) ? t->zl0[i] : 0., "lower bound multipliers round trip"); CHECKEQ(t->fzu[i], a.hasub(i) ? t->zu0[i] : 0., "upper bound multipliers round trip"); }
      return 0; }
   // gradient-based scaling
   double mg = 100., mv = 1e-8; if( c == 6 ) { static const double MG[2] = {0.5, 1e4}, MV[2] = {0.25, 0.}; int s_ = symfork("maxgrad", 0, 1); mg = MG[s_]; mv = MV[s_]; a.app->Options()->SetNumericValue("nlp_scaling_max_gradient", mg); a.app->Options()->SetNumericValue("nlp_scaling_min_value", mv); }
   ASSUME(t->xl[2] < t->xu[2]); a.app->Options()->SetNumericValue("bound_relax_factor", 0.); { static const double X0[3] = {1., -2., 0.5}; for( int i = 0; i < n; i++ ) t->x0[i] = X0[i]; t->Q[0].v = 3.; t->Q[1].v = -1.; t->Bq[0].v = 2.; ASSUME(t->xl[0] <= 0.); ASSUME(t->xu[1] >= 0.); }
   CHECK(o.open(t, 2, true, false, false), "problem accepted"); if( !o.ok ) return 0; REACH("gradient");
   std::vector<double> J(m * n), gf(n), g(m); t->J(&t->x0[0], &J[0]); t->GF(&t->x0[0], &gf[0]); t->G(&t->x0[0], &g[0]); auto fac = [&](double am) { double s = am > mg ? mg / am : 1.; return s < mv ? mv : s; }; auto amax = [&](const double* v) { double r = 0.; for( int i = 0; i < n; i++ ) { double w = v[i] < 0. ? -v[i] : v[i]; if( w > r ) r = w; } return r; };
   CHECKEQ(o.on->f(*o.x), fac(amax(&gf[0])) * t->F(&t->x0[0]), "objective scaled by min(1, max_gradient/|grad f|)");
   std::vector<double> r; dvget(*o.on->c(*o.x), r); CHECKEQ(r[0], fac(amax(&J[0])) * (g[0] - t->gl[0]), "equality scaled by its own largest derivative"); dvget(*o.on->d(*o.x), r); CHECKEQ(r[0], fac(amax(&J[n])) * g[1], "inequality scaled by its own largest derivative");
   return 0;
}
