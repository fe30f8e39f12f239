//! {"quick":["0-6"],"thorough":["0-6"],"level":"model_checking",
//!  "reach":["rejected","created","callbacks","newx","structure","fails","start","missing","final","nullout","solve","stop","iterate","scaling","freed"],
//!  "bounds":["problems with two variables and two constraints; all bounds, points, multipliers and callback results; sequences of four evaluations; every combination of missing arrays","runs up to the first call of the intermediate callback, from every interior starting point"],
//!  "assumptions":["real arithmetic"],
//!  "outside":["the wrappers for Fortran, Java and R"]}
#define AlgorithmMode CAlgorithmMode
#define RegularMode CRegularMode
#define RestorationPhaseMode CRestorationPhaseMode
#define ApplicationReturnStatus CStatus
#include "IpStdCInterface.h"
#undef AlgorithmMode
#undef RegularMode
#undef RestorationPhaseMode
#undef ApplicationReturnStatus
#include "hs.h"
#include "IpStdInterfaceTNLP.hpp"
typedef std::vector<double> VD;
static bool D(bool c) { return __sym_decide(c) != 0; }
// the user's callbacks
struct User { int id, calls, mode; bool ret, nx; VD x, lam; double of; int nele; bool structure; double val[8]; IpoptProblem p; int iter, seen; bool got; VD cx, cg, cl, zl, zu; double a[7]; } static U;
static void rec(ipindex n, ipnumber* x, bool nx, UserDataPtr u) { CHECK(u == &U, "user data is passed through"); CHECK(n == 2, "number of variables"); U.calls++; U.nx = nx; U.x.clear(); if( x ) U.x.assign(x, x + n); }
static bool cf(ipindex n, ipnumber* x, bool nx, ipnumber* o, UserDataPtr u) { rec(n, x, nx, u); U.id = 0; if( U.mode ) *o = x[0] + 3. * x[1]; else *o = U.val[0]; return U.ret; }
static bool cgf(ipindex n, ipnumber* x, bool nx, ipnumber* g, UserDataPtr u) { rec(n, x, nx, u); U.id = 1; g[0] = U.mode ? 1. : U.val[0]; g[1] = U.mode ? 3. : U.val[1]; return U.ret; }
static bool cg(ipindex n, ipnumber* x, bool nx, ipindex m, ipnumber* g, UserDataPtr u) { rec(n, x, nx, u); U.id = 2; CHECK(m == 2, "number of constraints"); g[0] = U.mode ? x[0] + x[1] : U.val[0]; g[1] = U.mode ? x[0] - 2. * x[1] : U.val[1]; return U.ret; }
static bool cj(ipindex n, ipnumber* x, bool nx, ipindex m, ipindex nj, ipindex* r, ipindex* c, ipnumber* v, UserDataPtr u) { rec(n, x, nx, u); U.id = 3; U.nele = nj; CHECK(m == 2, "number of constraints"); U.structure = v == NULL; if( v ) for( int i = 0; i < nj; i++ ) v[i] = U.mode ? (i == 3 ? -2. : 1.) : U.val[i]; else { CHECK(r != NULL && c != NULL, "structure arrays"); for( int i = 0; i < nj; i++ ) { r[i] = 1 + i / 2; c[i] = 1 + i % 2; } } return U.ret; }
static bool ch(ipindex n, ipnumber* x, bool nx, ipnumber of, ipindex m, ipnumber* l, bool nl, ipindex nh, ipindex* r, ipindex* c, ipnumber* v, UserDataPtr u) { rec(n, x, nx, u); U.id = nl ? 5 : 4; U.of = of; U.nele = nh; U.structure = v == NULL; if( v ) { U.lam.assign(l, l + m); for( int i = 0; i < nh; i++ ) v[i] = U.mode ? 0. : U.val[i]; } else for( int i = 0; i < nh; i++ ) { r[i] = i + 1; c[i] = i + 1; } return U.ret; }
static bool ci(ipindex mode, ipindex it, ipnumber ob, ipnumber pr, ipnumber du, ipnumber mu, ipnumber d, ipnumber ru, ipnumber ad, ipnumber ap, ipindex ls, UserDataPtr u)
{
   CHECK(u == &U, "user data is passed through"); U.calls++; U.id = 6 + mode; U.iter = it * 100 + ls; double a[7] = {ob, pr, du, mu, d, ru, ad}; for( int i = 0; i < 7; i++ ) U.a[i] = a[i]; U.val[7] = ap;
   if( U.mode ) { U.cx.assign(2, 0.); U.cg.assign(2, 0.); U.cl.assign(2, 0.); U.zl.assign(2, 0.); U.zu.assign(2, 0.); U.got = GetIpoptCurrentIterate(U.p, false, 2, &U.cx[0], &U.zl[0], &U.zu[0], 2, &U.cg[0], &U.cl[0]); VD v(14, 0.); bool w = GetIpoptCurrentViolations(U.p, false, 2, &v[0], &v[2], &v[4], &v[6], &v[8], 2, &v[10], &v[12]); CHECK(U.got && w, "current iterate is available in the callback"); for( int i = 0; i < 2; i++ ) { CHECKEQ(v[i], 0., "bound violations"); CHECKEQ(v[2 + i], 0., "bound violations"); CHECKEQ(v[4 + i], (U.cx[i] + 100.) * U.zl[i], "complementarity"); CHECKEQ(v[6 + i], (100. - U.cx[i]) * U.zu[i], "complementarity"); } REACH("iterate"); }
   return U.ret;
}
static void create()
{
   double xl[2], xu[2], gl[2], gu[2]; for( int i = 0; i < 2; i++ ) { xl[i] = symdi("xl", i); xu[i] = symdi("xu", i); gl[i] = symdi("gl", i); gu[i] = symdi("gu", i); } int w = symfork("argument", 0, 16); int n = w == 1 ? 0 : 2, m = w == 2 ? -1 : w == 3 || w == 16 ? 0 : 2, nj = w == 4 ? 0 : w == 5 ? -1 : w == 16 ? 0 : 4, nh = w == 6 ? -1 : 2;
   IpoptProblem p = CreateIpoptProblem(n, w == 7 ? NULL : xl, w == 8 ? NULL : xu, m, w == 9 || w == 16 ? NULL : gl, w == 10 || w == 16 ? NULL : gu, nj, nh, w == 15 ? 2 : 1, w == 11 ? NULL : cf, w == 12 || w == 16 ? NULL : cg, w == 13 ? NULL : cgf, w == 14 || w == 16 ? NULL : cj, ch); bool bad = w >= 1 && w <= 14; CHECK((p == NULL) == bad, "a problem is created exactly from valid arguments"); if( bad ) { REACH("rejected"); return; } REACH("created"); char k1[] = "max_iter", k2[] = "tol", k3[] = "mu_strategy", v3[] = "adaptive", v4[] = "unknown"; int iv = symi("value", -2, 2); CHECK(AddIpoptIntOption(p, k1, iv) == (iv >= 0), "integer option"); double dv = symd("number"); CHECK(AddIpoptNumOption(p, k2, dv) == D(dv > 0.), "number option"); CHECK(AddIpoptStrOption(p, k3, v3) && !AddIpoptStrOption(p, k3, v4), "string option"); CHECK(!AddIpoptNumOption(p, k1, 1.), "type of an option"); CHECK(!GetIpoptCurrentIterate(p, false, 2, NULL, NULL, NULL, 2, NULL, NULL) && !GetIpoptCurrentViolations(p, false, 2, NULL, NULL, NULL, NULL, NULL, 2, NULL, NULL), "no iterate outside of a run"); FreeIpoptProblem(p); REACH("freed");
}
struct Arr { double xl[2], xu[2], gl[2], gu[2], x[2], l[2], zl[2], zu[2], sx[2], sg[2]; Arr() { for( int i = 0; i < 2; i++ ) { xl[i] = symdi("xl", i); xu[i] = symdi("xu", i); gl[i] = symdi("gl", i); gu[i] = symdi("gu", i); x[i] = symdi("start x", i); l[i] = symdi("start l", i); zl[i] = symdi("start zl", i); zu[i] = symdi("start zu", i); sx[i] = symdi("sx", i); sg[i] = symdi("sg", i); } } };
static SmartPtr<StdInterfaceTNLP> mk(Arr& a, int miss, double* xs, double* zls, double* zus, double* gs, double* ls, double* os, double osc = 1., bool ic = true, int style = 1) { return new StdInterfaceTNLP(2, a.xl, a.xu, 2, a.gl, a.gu, 4, 2, style, a.x, miss & 1 ? NULL : a.l, miss & 2 ? NULL : a.zl, miss & 4 ? NULL : a.zu, cf, cg, cgf, cj, ch, ic ? ci : NULL, xs, zls, zus, gs, ls, os, &U, osc, miss & 8 ? NULL : a.sx, miss & 16 ? NULL : a.sg); }
static void callbacks(int first)
{
   Arr a; U.mode = 0; SmartPtr<StdInterfaceTNLP> t = mk(a, 0, NULL, NULL, NULL, NULL, NULL, NULL); VD cur; U.calls = 0; for( int i = 0; i < 7; i++ ) U.val[i] = symdi("value", i);
   for( int k = 0; k < 4; k++ )
   {
      bool nx = k == 0 || symbf("new point"); if( nx ) { cur.clear(); for( int i = 0; i < 2; i++ ) cur.push_back(symdi("x", k * 2 + i)); } if( !nx ) REACH("newx"); double buf[2] = {cur[0], cur[1]}; int w = k == 0 ? first : k == 3 ? symfork("function", 0, 4) : (first + k * 2) % 5; U.ret = k == 2 ? !symbf("fails") : true; double o[4] = {0., 0., 0., 0.}; bool r; int calls = U.calls; double lam[2] = {symdi("lambda", k * 2), symdi("lambda", k * 2 + 1)}; bool nl = k & 1; double f = symdi("factor", k);
      if( w == 0 ) r = t->eval_f(2, buf, nx, o[0]); else if( w == 1 ) r = t->eval_grad_f(2, buf, nx, o); else if( w == 2 ) r = t->eval_g(2, buf, nx, 2, o); else if( w == 3 ) r = t->eval_jac_g(2, buf, nx, 2, 4, NULL, NULL, o); else r = t->eval_h(2, buf, nx, f, 2, lam, nl, 2, NULL, NULL, o);
      CHECK(U.calls == calls + 1, "one call for one evaluation"); CHECK(r == U.ret, "success is passed on"); if( !r ) REACH("fails"); CHECK(U.id == (w == 4 ? 4 + nl : w), "right callback"); CHECK(U.nx == nx, "new point is announced"); for( int i = 0; i < 2; i++ ) CHECKEQ(U.x[i], cur[i], "point of evaluation"); int cnt = w == 0 ? 1 : w == 3 ? 4 : 2; for( int i = 0; i < cnt; i++ ) CHECKEQ(o[i], U.val[i], "values are passed on"); if( w >= 3 ) CHECK(!U.structure && U.nele == (w == 3 ? 4 : 2), "values are requested"); if( w == 4 ) { CHECKEQ(U.of, f, "objective factor"); for( int i = 0; i < 2; i++ ) CHECKEQ(U.lam[i], lam[i], "multipliers of the Hessian"); } REACH("callbacks");
      if( k == 1 ) { ipindex R[4], C[4]; U.ret = true; bool s = first & 1 ? t->eval_jac_g(2, NULL, false, 2, 4, R, C, NULL) : t->eval_h(2, NULL, false, 0., 2, NULL, false, 2, R, C, NULL); CHECK(s && U.structure, "structure is requested"); if( first & 1 ) CHECK(R[2] == 2 && C[2] == 1 && R[1] == 1 && C[1] == 2, "structure"); else CHECK(R[0] == 1 && C[0] == 1 && R[1] == 2 && C[1] == 2, "structure"); REACH("structure"); }
   }
}
static void info()
{
   Arr a; int miss = symfork("missing arrays", 0, 31); double osc = symd("objective scaling"); int style = symfork("style", 0, 1); bool ic = symbf("callback"); double xs[2], zls[2], zus[2], gs[2], ls[2], os; int no = symfork("missing results", 0, 6); SmartPtr<StdInterfaceTNLP> t = mk(a, miss, no == 1 ? NULL : xs, no == 2 ? NULL : zls, no == 3 ? NULL : zus, no == 4 ? NULL : gs, no == 5 ? NULL : ls, no == 6 ? NULL : &os, osc, ic, style); Arr c = a; for( int i = 0; i < 2; i++ ) a.sx[i] = a.sg[i] = -7.;
   ipindex n, m, nj, nh; TNLP::IndexStyleEnum is; CHECK(t->get_nlp_info(n, m, nj, nh, is) && n == 2 && m == 2 && nj == 4 && nh == 2 && is == (style ? TNLP::FORTRAN_STYLE : TNLP::C_STYLE), "dimensions"); double b[8]; CHECK(t->get_bounds_info(2, b, b + 2, 2, b + 4, b + 6), "bounds"); for( int i = 0; i < 2; i++ ) { CHECKEQ(b[i], c.xl[i], "lower bounds"); CHECKEQ(b[2 + i], c.xu[i], "upper bounds"); CHECKEQ(b[4 + i], c.gl[i], "constraint lower bounds"); CHECKEQ(b[6 + i], c.gu[i], "constraint upper bounds"); }
   double so = 0., sc[4] = {5., 5., 5., 5.}; bool ux = symbf("x"), ug = !ux; CHECK(t->get_scaling_parameters(so, ux, 2, sc, ug, 2, sc + 2), "scaling"); CHECKEQ(so, osc, "objective scaling"); CHECK(ux == !(miss & 8) && ug == !(miss & 16), "scaling is used exactly if given"); for( int i = 0; i < 2; i++ ) { if( ux ) CHECKEQ(sc[i], c.sx[i], "variable scaling"); if( ug ) CHECKEQ(sc[2 + i], c.sg[i], "constraint scaling"); } REACH("scaling");
   bool ix = !symbf("no x"), iz = !symbf("no z"), il = !symbf("no lambda"); double st[8] = {9., 9., 9., 9., 9., 9., 9., 9.}; bool r = t->get_starting_point(2, ix, st, iz, st + 2, st + 4, 2, il, st + 6); bool w = !(iz && (miss & 6)) && !(il && (miss & 1)); CHECK(r == w, "a starting point is refused exactly if a required part is missing"); if( !w ) REACH("missing"); else { for( int i = 0; i < 2; i++ ) { CHECKEQ(st[i], ix ? c.x[i] : 9., "starting point"); CHECKEQ(st[2 + i], iz ? c.zl[i] : 9., "start multipliers"); CHECKEQ(st[4 + i], iz ? c.zu[i] : 9., "start multipliers"); CHECKEQ(st[6 + i], il ? c.l[i] : 9., "start multipliers"); } REACH("start"); }
   double v[7]; for( int i = 0; i < 7; i++ ) v[i] = symdi("info", i); U.mode = 0; U.calls = 0; U.ret = !symbf("stop"); bool ct = t->intermediate_callback(Ipopt::RestorationPhaseMode, 7, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[0], 3, NULL, NULL); CHECK(U.calls == (ic ? 1 : 0) && ct == (ic ? U.ret : true), "intermediate callback"); if( ic ) { CHECK(U.iter == 703 && U.id == 7, "iteration information"); for( int i = 0; i < 7; i++ ) CHECKEQ(U.a[i], v[i], "iteration information"); CHECKEQ(U.val[7], v[0], "iteration information"); }
   double fx[8]; for( int i = 0; i < 8; i++ ) fx[i] = symdi("final", i); double fl[2] = {symdi("fl", 0), symdi("fl", 1)}; double* all[5] = {xs, zls, zus, gs, ls}; for( int j = 0; j < 5; j++ ) all[j][0] = all[j][1] = 4.; os = 4.; t->finalize_solution(SUCCESS, 2, fx, fx + 2, fx + 4, 2, fx + 6, fl, v[0], NULL, NULL); const double* e[5] = {fx, fx + 2, fx + 4, fx + 6, fl}; for( int j = 0; j < 5; j++ ) for( int i = 0; i < 2; i++ ) CHECKEQ(all[j][i], no == j + 1 ? 4. : e[j][i], "results are stored where the user asked for them"); CHECKEQ(os, no == 6 ? 4. : v[0], "final objective value"); if( no ) REACH("nullout"); REACH("final");
}
static void run(int kind)
{
   U.mode = 1; double xl[2] = {-100., -100.}, xu[2] = {100., 100.}, gl[2] = {-100., -100.}, gu[2] = {100., 100.}; IpoptProblem p = CreateIpoptProblem(2, xl, xu, 2, gl, gu, 4, 0, 1, cf, cg, cgf, cj, ch); CHECK(p != NULL, "problem"); for( int i = 0; i < 2; i++ ) xl[i] = xu[i] = gl[i] = gu[i] = 0.; U.p = p; U.ret = true; U.calls = 0; struct O { const char *k, *v; } so[] = {{"sb", "yes"}, {"nlp_scaling_method", "none"}, {"option_file_name", ""}}; for( auto& o : so ) CHECK(AddIpoptStrOption(p, (char*) o.k, (char*) o.v), "option"); CHECK(AddIpoptIntOption(p, (char*) "print_level", 0) && AddIpoptNumOption(p, (char*) "constr_mult_init_max", 0.) && AddIpoptNumOption(p, (char*) "bound_relax_factor", 0.), "option"); if( kind == 1 ) CHECK(AddIpoptIntOption(p, (char*) "max_iter", 0), "option");
   double x[2], s[2], g[2] = {0., 0.}, o = 0., l[2] = {0., 0.}, zl[2] = {0., 0.}, zu[2] = {0., 0.}; for( int i = 0; i < 2; i++ ) { x[i] = s[i] = symdi("x", i); ASSUME((x[i] > -10.) & (x[i] < 10.)); } if( kind == 2 ) { CHECK(IpoptSolve(p, NULL, g, &o, NULL, NULL, NULL, &U) == ::Invalid_Problem_Definition, "missing starting point"); }
   if( kind == 0 ) CHECK(SetIntermediateCallback(p, ci), "callback"); struct W { static bool cb(ipindex m, ipindex it, ipnumber ob, ipnumber pr, ipnumber du, ipnumber mu, ipnumber d, ipnumber ru, ipnumber ad, ipnumber ap, ipindex ls, UserDataPtr u) { ci(m, it, ob, pr, du, mu, d, ru, ad, ap, ls, u); return false; } }; if( kind == 0 ) SetIntermediateCallback(p, W::cb); if( kind == 2 ) CHECK(AddIpoptIntOption(p, (char*) "max_iter", 0), "option"); CStatus r = IpoptSolve(p, x, g, &o, l, kind == 2 ? NULL : zl, zu, &U); CHECK(r == (kind == 0 ? ::User_Requested_Stop : ::Maximum_Iterations_Exceeded), "outcome of the run"); if( kind == 0 ) REACH("stop"); for( int i = 0; i < 2; i++ ) CHECKEQ(x[i], s[i], "final point"); CHECKEQ(g[0], s[0] + s[1], "final constraint values"); CHECKEQ(g[1], s[0] - 2. * s[1], "final constraint values"); CHECKEQ(o, s[0] + 3. * s[1], "final objective value"); if( kind == 0 ) for( int i = 0; i < 2; i++ ) { CHECKEQ(U.cx[i], s[i], "iterate in the callback"); CHECKEQ(U.cg[i], g[i], "constraint values in the callback"); CHECKEQ(U.cl[i], l[i], "multipliers in the callback"); CHECKEQ(U.zl[i], zl[i], "bound multipliers in the callback"); CHECKEQ(U.zu[i], zu[i], "bound multipliers in the callback"); } CHECK(!GetIpoptCurrentIterate(p, false, 2, x, NULL, NULL, 2, NULL, NULL), "no iterate outside of a run"); REACH("solve"); FreeIpoptProblem(p);
}
static double SXc[2], SGc[2];
static bool scb(ipindex, ipindex, ipnumber ob, ipnumber, ipnumber, ipnumber, ipnumber, ipnumber, ipnumber, ipnumber, ipindex, UserDataPtr) { U.calls++; U.a[0] = ob; double x[2], g[2], y[2], h[2]; CHECK(GetIpoptCurrentIterate(U.p, true, 2, x, NULL, NULL, 2, g, NULL) && GetIpoptCurrentIterate(U.p, false, 2, y, NULL, NULL, 2, h, NULL), "current iterate"); for( int i = 0; i < 2; i++ ) { CHECKEQ(x[i], SXc[i] * U.cx[i], "scaled variables"); CHECKEQ(y[i], U.cx[i], "unscaled variables"); double e = i ? U.cx[0] - 2. * U.cx[1] : U.cx[0] + U.cx[1]; CHECKEQ(g[i], SGc[i] * e, "scaled constraints"); CHECKEQ(h[i], e, "unscaled constraints"); } REACH("scaling"); return false; }
static void scaled()
{
   U.mode = 1; U.ret = true; U.calls = 0; double b0[2] = {-100., -100.}, b1[2] = {100., 100.}; IpoptProblem p = CreateIpoptProblem(2, b0, b1, 2, b0, b1, 4, 0, 1, cf, cg, cgf, cj, ch); U.p = p; struct O { const char *k, *v; } so[] = {{"sb", "yes"}, {"nlp_scaling_method", "user-scaling"}, {"option_file_name", ""}}; for( auto& o : so ) CHECK(AddIpoptStrOption(p, (char*) o.k, (char*) o.v), "option"); CHECK(AddIpoptIntOption(p, (char*) "print_level", 0) && AddIpoptNumOption(p, (char*) "constr_mult_init_max", 0.) && AddIpoptNumOption(p, (char*) "bound_relax_factor", 0.), "option");
   static const double V[3] = {2., .25, 8.}; for( int k = 0; k < 2; k++ ) { int w = symfork("given", 0, 3); double sx[2] = {V[k], V[k + 1]}, sg[2] = {V[k + 1], 16. * V[k]}; for( int i = 0; i < 2; i++ ) { SXc[i] = w & 1 ? sx[i] : 1.; SGc[i] = w & 2 ? sg[i] : 1.; } CHECK(SetIpoptProblemScaling(p, k ? 4. : .5, w & 1 ? sx : NULL, w & 2 ? sg : NULL), "scaling is accepted"); sx[0] = sg[0] = sx[1] = sg[1] = 0.; }
   SetIntermediateCallback(p, scb); double x[2], o = 0.; U.cx.assign(2, 0.); for( int i = 0; i < 2; i++ ) { x[i] = U.cx[i] = symdi("x", i); ASSUME((x[i] > -10.) & (x[i] < 10.)); } CHECK(IpoptSolve(p, x, NULL, &o, NULL, NULL, NULL, &U) == ::User_Requested_Stop, "outcome of the run"); CHECKEQ(o, U.cx[0] + 3. * U.cx[1], "final objective value"); CHECKEQ(U.a[0], o, "objective in the callback"); for( int i = 0; i < 2; i++ ) CHECKEQ(x[i], U.cx[i], "final point"); FreeIpoptProblem(p);
}
extern "C" int sym_main()
{
   int c = __sym_case(); if( c == 0 ) create(); else if( c == 1 ) callbacks(symfork("first", 0, 4)); else if( c == 2 ) info(); else if( c < 6 ) run(c - 3);
   else scaled();
   return 0;
}
