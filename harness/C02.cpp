//! {"quick":["0-12","20-24"],"thorough":["0-12","20-31"],"level":"model_checking","mode":"real",
//!  "reach":["delivered","fixed-mult","scaled","solved"],
//!  "bounds":["3 variables (one fixed, one bounded below, one with arbitrary bounds), 2 constraints with arbitrary sides; all four fixed-variable treatments; every solver status that carries an iterate","user scaling factors for objective, variables and constraints arbitrary nonzero (positive for x and g) reals, in all on/off combinations","point, multipliers, coefficients arbitrary reals","cases 20+: complete solves of small problems, the option combination being the solver's choice"],
//!  "assumptions":["exact real arithmetic in cases 0-11; cases 20+ run in double precision on concrete data"],
//!  "outside":["problem sizes beyond 3 variables"]}
#include "adp.h"
static SolverReturn ST[] = {SUCCESS, MAXITER_EXCEEDED, STOP_AT_TINY_STEP, STOP_AT_ACCEPTABLE_POINT, LOCAL_INFEASIBILITY, USER_REQUESTED_STOP, FEASIBLE_POINT_FOUND, DIVERGING_ITERATES, RESTORATION_FAILURE, ERROR_IN_STEP_COMPUTATION, CPUTIME_EXCEEDED, WALLTIME_EXCEEDED};
static bool conc; static double co(const char* b, int i) { return conc ? 1.5 - .75 * i : symdi(b, i); }
static void model(QTNLP& t, int cpat0, int cpat1, int vpat) {
   int n = t.n, m = t.m; int vp[3] = {2, 4, vpat}; for( int i = 0; i < n; i++ ) symbound(vp[i], i, "xl", "xu", t.xl[i], t.xu[i]); symbound(cpat0, 0, "gl", "gu", t.gl[0], t.gu[0]); symbound(cpat1, 1, "gl", "gu", t.gl[1], t.gu[1]);
   if( vpat == 0 ) { ASSUME(t.xl[2] <= t.xu[2]); ASSUME(t.xl[2] <= 1e18); ASSUME(t.xu[2] >= -1e18); } if( cpat0 == 0 ) { ASSUME(t.gl[0] <= t.gu[0]); ASSUME(t.gl[0] <= 1e18); ASSUME(t.gu[0] >= -1e18); }
   for( int i = 0; i < n; i++ ) t.c[i] = co("c", i); for( int i = 0; i < m; i++ ) t.g0[i] = co("g0", i); Trip q; q.i = 1; q.j = 0; q.v = symd("q10"); t.Q.push_back(q); q.i = 2; q.j = 2; q.v = symd("q22"); t.Q.push_back(q);
   int k = 0; for( int r = 0; r < m; r++ ) for( int j = 0; j < n; j++ ) { q.i = r; q.j = j; q.v = co("a", k++); t.A.push_back(q); } q.i = 0; q.j = 0; q.v = symd("adup"); t.A.push_back(q); TripK b; b.k = 1; b.i = 2; b.j = 0; b.v = symd("b0"); t.Bq.push_back(b);
}
int concrete_case(int c);
extern "C" int sym_main()
{
   int c = __sym_case(); if( c >= 20 ) return concrete_case(c - 20);
   int mode = c % 4, grp = c / 4; bool scaled = grp >= 1; int n = 3, m = 2; SmartPtr<QTNLP> t = new QTNLP(n, m);
   conc = grp == 3; model(*t, grp >= 2 ? 3 : 0, 2, grp >= 2 ? 3 : 0); t->fortran = mode & 1; Org o(mode);
   double df = 1.; std::vector<double> dx(n, 1.), dg(m, 1.);
   if( scaled ) { df = grp == 2 || c == 4 ? -.25 : symd("df"); ASSUME(df != 0.); t->use_sc = true; t->osc = df; if( grp == 2 ) { t->use_xs = symbf("usex"); t->use_gs = symbf("useg"); } else { t->use_xs = t->use_gs = true; } for( int i = 0; i < n; i++ ) { double v = grp >= 2 ? 2. + i : symdi("dx", i); ASSUME(v > 0.); t->xs[i] = v; if( t->use_xs ) dx[i] = v; } for( int i = 0; i < m; i++ ) { double v = grp >= 2 ? .5 + 4. * i : symdi("dg", i); ASSUME(v > 0.); t->gs[i] = v; if( t->use_gs ) dg[i] = v; } REACH("scaled"); }
   o.a.app->Options()->SetNumericValue("bound_relax_factor", 0.);
   Adp& a = o.a; try { CHECK(o.open(t, scaled ? 1 : 0), "problem accepted"); } catch( TOO_FEW_DOF& ) { a.ref(); CHECK(a.nx < a.nc, "too few degrees of freedom"); REACH("dof"); return 0; } if( !o.ok ) return 0;
   std::vector<double> x, yc, yd, zl, zu, f; SmartPtr<DenseVector> xv = a.vec(o.x->OwnerSpace(), "x", x), ycv = a.vec(o.yc->OwnerSpace(), "yc", yc), ydv = a.vec(o.yd->OwnerSpace(), "yd", yd), zlv = a.vec(o.zl->OwnerSpace(), "zl", zl), zuv = a.vec(o.zu->OwnerSpace(), "zu", zu);
   if( symbf("homog") && a.nc + a.nd > 0 ) { double v = symd("yh"); ycv->Set(v); ydv->Set(v); for( auto& e : yc ) e = v; for( auto& e : yd ) e = v; }
   // algorithm-side values at x
   SmartPtr<const Vector> cv = o.on->c(*xv), dvv = o.on->d(*xv); Number fv = o.on->f(*xv);
   if( symbf("elsewhere") ) { std::vector<double> x2; SmartPtr<DenseVector> x2v = a.vec(o.x->OwnerSpace(), "x2", x2); o.on->f(*x2v); if( symbf("elsewhere_c") ) o.on->c(*x2v); }   // a rejected trial point was evaluated last
   int si = symfork("status", 0, 11); t->n_fin = 0;
   o.on->FinalizeSolution(ST[si], *xv, *zlv, *zuv, *cv, *dvv, *ycv, *ydv, fv, NULL, NULL); REACH("delivered");
   CHECK(t->n_fin == 1, "finalize_solution called once"); CHECK(t->status == ST[si], "status"); CHECK(t->f_n == n && t->f_m == m, "sizes"); if( t->n_fin != 1 ) return 0;
   // expectation, in user space
   a.full(x, f); for( int k = 0; k < a.nx; k++ ) f[a.xv[k]] = x[k] / dx[a.xv[k]];
   std::vector<double> g(m), J(m * n), gf(n), lam(m, 0.); t->G(&f[0], &g[0]); t->J(&f[0], &J[0]); t->GF(&f[0], &gf[0]);
   for( int i = 0; i < n; i++ ) CHECKEQ(t->fx[i], f[i], "solution x in user order and units"); for( int i = 0; i < m; i++ ) CHECKEQ(t->fg[i], g[i], "constraint activity at the solution"); CHECKEQ(t->fobj, t->F(&f[0]), "objective value at the solution");
   for( size_t k = 0; k < a.eq.size(); k++ ) lam[a.eq[k]] = yc[k] * dg[a.eq[k]] / df; for( size_t k = 0; k < a.ineq.size(); k++ ) lam[a.ineq[k]] = yd[k] * dg[a.ineq[k]] / df;
   for( int i = 0; i < m; i++ ) CHECKEQ(t->flam[i], lam[i], "constraint multipliers in user order and units");
   std::vector<double> eL(n, 0.), eU(n, 0.); int kl = 0, ku = 0; for( int k = 0; k < a.nx; k++ ) { int i = a.xv[k]; if( a.haslb(i) ) eL[i] = zl[kl++] * dx[i] / df; if( a.hasub(i) ) eU[i] = zu[ku++] * dx[i] / df; }
   for( size_t k = 0; k < a.fix.size(); k++ ) { int i = a.fix[k]; double mu = 0.; if( a.mode == 1 ) mu = -yc[a.eq.size() + k] / df; else if( a.mode == 0 ) { mu = gf[i]; for( int r = 0; r < m; r++ ) mu += lam[r] * J[r * n + i]; } else continue; REACH("fixed-mult"); eL[i] = mu > 0. ? mu : 0.; eU[i] = mu < 0. ? -mu : 0.; }
   for( int i = 0; i < n; i++ ) { CHECKEQ(t->fzl[i], eL[i], "lower bound multipliers"); CHECKEQ(t->fzu[i], eU[i], "upper bound multipliers"); }
   return 0;
}
// complete solves; the configuration is symbolic
int concrete_case(int c)
{
   SmartPtr<IpoptApplication> app = mkapp(); int n = 3, m = 2; SmartPtr<QTNLP> t = new QTNLP(n, m);
   // min (x0-2)^2 + x1^2 + x2 + x0 x1,  s.t. x0 + x1 + x2 in [1, 4] or = 2,  x0^2 + x2 >= .5
   Trip q; q.i = 0; q.j = 0; q.v = 2.; t->Q.push_back(q); q.i = 1; q.j = 1; q.v = 2.; t->Q.push_back(q); q.i = 1; q.j = 0; q.v = 1.; t->Q.push_back(q); t->c[0] = -4.; t->c[2] = 1.; t->c0 = 4.;
   q.i = 0; q.v = 1.; for( int j = 0; j < 3; j++ ) { q.j = j; t->A.push_back(q); } q.i = 1; q.j = 2; t->A.push_back(q); TripK b; b.k = 1; b.i = b.j = 0; b.v = 2.; t->Bq.push_back(b);
   t->xl[0] = -10.; t->xu[0] = 10.; t->xl[1] = -3.; t->xu[1] = 2e19; t->xl[2] = 0.; t->xu[2] = 5.; t->gl[0] = 1.; t->gu[0] = 4.; t->gl[1] = .5; t->gu[1] = 2e19; t->x0[0] = 1.; t->x0[1] = 1.; t->x0[2] = 1.;
   if( c % 4 == 1 ) { t->gl[0] = t->gu[0] = 2.; } if( c % 4 == 2 ) { t->xl[1] = t->xu[1] = -.25; } if( c % 4 == 3 ) { t->xl[0] = t->xu[0] = 1.5; t->gl[0] = t->gu[0] = 2.; }
   double sgn = 1.; static const char* SCM[3] = {"none", "gradient-based", "user-scaling"}; int sm = symfork("scaling", 0, 2); int fv = c % 4 >= 2 ? symfork("fvt", 0, 1) : 0; int mustr = c >= 4 ? symfork("mu", 0, 1) : 0; int hess = c >= 8 ? 1 : 0; bool mx = c == 4 || c == 5;
   app->Options()->SetStringValue("nlp_scaling_method", SCM[sm]); app->Options()->SetStringValue("fixed_variable_treatment", FVT[fv]); if( mustr ) app->Options()->SetStringValue("mu_strategy", "adaptive"); if( hess ) app->Options()->SetStringValue("hessian_approximation", "limited-memory");
   if( sm == 2 ) { t->use_sc = t->use_xs = t->use_gs = true; t->osc = 3.; t->xs[0] = 2.; t->xs[1] = .5; t->xs[2] = 1.; t->gs[0] = .25; t->gs[1] = 5.; }
   if( mx ) { sgn = -1.; for( auto& e : t->Q ) e.v = -e.v; for( auto& e : t->c ) e = -e; t->c0 = -t->c0; app->Options()->SetNumericValue("obj_scaling_factor", -1.); }
   app->Initialize(""); ApplicationReturnStatus st = app->OptimizeTNLP(GetRawPtr(t));
   CHECK(st == Solve_Succeeded, "small convex problem solved"); CHECK(t->n_fin == 1 && t->status == SUCCESS, "finalize_solution once, success"); if( st != Solve_Succeeded || t->n_fin != 1 ) return 0; REACH("solved");
   const double tol = 1e-5; std::vector<double> g(m), J(m * n), gf(n); const double* x = &t->fx[0]; t->G(x, &g[0]); t->J(x, &J[0]); t->GF(x, &gf[0]);
   for( int i = 0; i < m; i++ ) { CHECK(std::fabs(g[i] - t->fg[i]) <= 1e-9, "delivered g is g(x)"); CHECK(g[i] >= t->gl[i] - tol && g[i] <= t->gu[i] + tol, "constraints satisfied"); }
   CHECK(std::fabs(t->F(x) - t->fobj) <= 1e-9, "delivered objective is f(x)"); SmartPtr<SolveStatistics> ss = app->Statistics(); CHECK(IsValid(ss) && std::fabs(ss->FinalObjective() - t->fobj) < 1e-9, "statistics objective");
   for( int i = 0; i < n; i++ ) { double r = gf[i] - t->fzl[i] + t->fzu[i]; for( int k = 0; k < m; k++ ) r += t->flam[k] * J[k * n + i]; CHECK(std::fabs(r) <= tol, "stationarity in user space"); CHECK(x[i] >= t->xl[i] - tol && x[i] <= t->xu[i] + tol, "bounds satisfied");
      CHECK(sgn * t->fzl[i] >= 0. && sgn * t->fzu[i] >= 0., "bound multiplier sign"); if( t->xl[i] > -1e19 ) CHECK(std::fabs(t->fzl[i] * (x[i] - t->xl[i])) <= tol, "complementarity lower"); else CHECK(t->fzl[i] == 0., "no multiplier for absent bound"); if( t->xu[i] < 1e19 ) CHECK(std::fabs(t->fzu[i] * (t->xu[i] - x[i])) <= tol, "complementarity upper"); else CHECK(t->fzu[i] == 0., "no multiplier for absent upper bound"); }
   for( int k = 0; k < m; k++ ) { double l = sgn * t->flam[k]; if( t->gl[k] < t->gu[k] ) { if( l > tol ) CHECK(std::fabs(l * (t->gu[k] - g[k])) <= tol, "positive constraint multiplier only at upper side"); if( l < -tol ) CHECK(std::fabs(l * (g[k] - t->gl[k])) <= tol, "negative constraint multiplier only at lower side"); } }
   return 0;
}
