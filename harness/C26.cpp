//! {"quick":["0-12"],"thorough":["0-12","20-27"],"level":"model_checking",
//!  "reach":["inside","moved","mubased","constant","calc ok","calc fails","too large","square","lsduals","lsfail","lsmults","warm","target","delegated","both"],
//!  "bounds":["three variables and one or two constraints; the first variable and the inequality have lower, upper, both or no bounds; all bound values, starting points, constraint values","three pairs of push parameters each for variables and slacks, all initial multiplier values, limits and answers of the multiplier estimate","least-square multipliers: all gradients and bound multipliers, one concrete Jacobian","warm start: all starting values and multipliers, two limits on the multipliers"],
//!  "assumptions":["real arithmetic; margins are compared up to 1e-200 (the code adds a tiny constant)"],
//!  "outside":["least-square start of the primal variables","warm start from a complete iterate","starting points that are not finite"]}
#include "fix.h"
#include "IpDefaultIterateInitializer.hpp"
#include "IpWarmStartIterateInitializer.hpp"
#include "IpEqMultCalculator.hpp"
#include "IpLeastSquareMults.hpp"
#include "IpAlgBuilder.hpp"
static bool D(bool c) { return __sym_decide(c) != 0; }
static double pushed(double x, bool hl, double L, bool hu, double U, double kp, double kf)
{
   double pl = 0., pu = 0.; if( hl ) pl = kp * (D(vabs(L) > 1.) ? vabs(L) : 1.); if( hu ) pu = kp * (D(vabs(U) > 1.) ? vabs(U) : 1.); if( hl && hu ) { double w = kf * (U - L); if( D(w < pl) ) pl = w; if( D(w < pu) ) pu = w; }
   if( hl && D(x < L + pl) ) { REACH("moved"); return L + pl; } if( hu && D(x > U - pu) ) { REACH("moved"); return U - pu; } REACH("inside"); return x;
}
static bool near(double a, double b) { double d = a - b; return (d < 1e-200) & (d > -1e-200); }
static const double KP[3] = {.0078125, 3., .125}, KF[3] = {.0078125, .5, .25};
struct MockCalc: public EqMultiplierCalculator
{
   bool ok; double c, d; int calls; MockCalc() : ok(true), c(0.), d(0.), calls(0) {}
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool CalculateMultipliers(Vector& yc, Vector& yd) { calls++; yc.Set(c); yd.Set(d); return ok; }
};
struct MockAug: public AugSystemSolver
{
   bool ok; VD sx, ss; double c, d; int calls; MockAug() : ok(true), c(0.), d(0.), calls(0) {}
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   ESymSolverStatus Solve(const SymMatrix*, Number wf, const Vector*, Number dx, const Vector*, Number ds, const Matrix*, const Vector*, Number dc, const Matrix*, const Vector*, Number dd, const Vector& rx, const Vector& rs, const Vector& rc, const Vector& rd, Vector& x, Vector& s, Vector& yc, Vector& yd, bool, Index)
   { calls++; CHECK(wf == 0. && dx == 0. && ds == 0. && dc == 0. && dd == 0., "least-square system"); CHECK(rs.Amax() == 0. && rc.Amax() == 0. && rd.Amax() == 0., "least-square right-hand side"); static_cast<DenseVector&>(x).SetValues(&sx[0]); static_cast<DenseVector&>(s).SetValues(&ss[0]); yc.Set(c); yd.Set(d); return ok ? SYMSOLVER_SUCCESS : SYMSOLVER_SINGULAR; }
   Index NumberOfNegEVals() const { return 0; } bool ProvidesInertia() const { return true; } bool IncreaseQuality() { return false; }
};
struct MockWarm: public IterateInitializer { int calls; MockWarm() : calls(0) {} bool InitializeImpl(const OptionsList&, const std::string&) { return true; } bool SetInitialIterates() { calls++; return true; } };
static bool lo(int p) { return p == 0 || p == 1; } static bool up(int p) { return p == 0 || p == 2; }
// x0 with bounds of kind p, x1 free; x0 + x2 = 1; inequality on x1 of kind q
static bool PS = true; // primal data symbolic
static SmartPtr<QTNLP> prob(int p, int q, bool square = false)
{
   int m = square ? 4 : 2; SmartPtr<QTNLP> t = new QTNLP(3, m); double L = -4., U = 5., GL = -2., GU = .5; if( PS ) { L = symd("L", -50., 50.); U = symd("U", -50., 50.); GL = symd("GL", -50., 50.); GU = symd("GU", -50., 50.); ASSUME(U >= L + .0625); ASSUME(GU >= GL + .0625); }
   if( lo(p) ) t->xl[0] = L; if( up(p) ) t->xu[0] = U; for( int k = 0; k < m - 1; k++ ) { t->gl[k] = t->gu[k] = 1.; Trip a = {k, k, 1.}, b = {k, 2, k == 2 ? 0. : 1.}; t->A.push_back(a); if( k < 2 ) t->A.push_back(b); }
   Trip a = {m - 1, 1, 1.}; t->A.push_back(a); t->gl[m - 1] = lo(q) ? GL : -2e19; t->gu[m - 1] = up(q) ? GU : 2e19; for( int i = 0; i < 3; i++ ) { t->x0[i] = PS ? symdi("x", i, -100., 100.) : i ? .25 : 7.; t->c[i] = 1. + i; } return t;
}
static void primal(Fix& fx, int p, int q, int kx, int ks)
{
   QTNLP& t = *fx.t; int m = t.m - 1; VD x, s; dvget(*fx.data->curr()->x(), x); dvget(*fx.data->curr()->s(), s); double e = pushed(t.x0[0], lo(p), t.xl[0], up(p), t.xu[0], KP[kx], KF[kx]); CHECK(near(x[0], e), "starting point is moved exactly as far inside the bounds as documented"); CHECKEQ(x[1], t.x0[1], "variables without bounds keep their starting value"); CHECKEQ(x[2], t.x0[2], "variables without bounds keep their starting value");
   if( lo(p) ) CHECK(x[0] > t.xl[0], "strictly inside the lower bound"); if( up(p) ) CHECK(x[0] < t.xu[0], "strictly inside the upper bound"); CHECK(near(s[0], pushed(t.x0[1], lo(q), t.gl[m], up(q), t.gu[m], KP[ks], KF[ks])), "slacks start from the constraint values, moved inside their bounds"); if( lo(q) ) CHECK(s[0] > t.gl[m], "strictly inside the lower side"); if( up(q) ) CHECK(s[0] < t.gu[m], "strictly inside the upper side");
}
static void opts(OptionsList& o, int kx, int ks, const char* pre = "") { std::string P(pre); o.SetNumericValue(P + "bound_push", KP[kx]); o.SetNumericValue(P + "bound_frac", KF[kx]); o.SetNumericValue(P + "slack_bound_push", KP[ks]); o.SetNumericValue(P + "slack_bound_frac", KF[ks]); }
static void regular(int p, int q, int what)
{
   Fix fx; OptionsList& o = fx.opt(); bool all = what != 0 || p == 3; int kx = what != 1 ? p % 3 : symfork("push", 0, 2), ks = (kx + 1 + (what & 1)) % 3; opts(o, kx, ks); bool mub = what == 1 ? kx == 1 : what == 0 && (p & 1); double bv = kx ? .75 : 2., mu = .25; o.SetStringValue("bound_mult_init_method", mub ? "mu-based" : "constant"); o.SetNumericValue("bound_mult_init_val", bv); o.SetNumericValue("mu_init", mu);
   double mx = all && symbf("no estimate") ? 0. : 1000.; o.SetNumericValue("constr_mult_init_max", mx); bool ls = what == 5; o.SetStringValue("least_square_init_duals", ls ? "yes" : "no"); PS = what < 4; fx.build(prob(p, q, what == 4), false); CHECK(fx.ok, "set up"); SmartPtr<MockCalc> mc = new MockCalc; SmartPtr<MockAug> ma = new MockAug;
   SmartPtr<DefaultIterateInitializer> u = new DefaultIterateInitializer(GetRawPtr(mc), NULL, GetRawPtr(ma)); CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization"); mc->ok = !all || !symbf("estimate fails"); mc->c = PS && what ? 3. : symd("yc"); mc->d = PS && what ? -2. : symd("yd"); 
   if( ls ) { ma->ok = !symbf("system fails"); for( int i = 0; i < 3; i++ ) ma->sx.push_back(PS ? i - 1. : symdi("solx", i)); ma->ss.push_back(PS ? 4. : symd("sols")); ma->c = symd("solc"); ma->d = symd("sold"); }
   CHECK(u->SetInitialIterates(), "initial point"); primal(fx, p, q, kx, ks); SmartPtr<const IteratesVector> I = fx.data->curr(); bool lsd = ls && ma->ok; SmartPtr<const Vector> sl[4] = {fx.cq->curr_slack_x_L(), fx.cq->curr_slack_x_U(), fx.cq->curr_slack_s_L(), fx.cq->curr_slack_s_U()}; CHECK(ma->calls == (ls ? 1 : 0), "least-square duals only on request");
   for( int k = 0; k < 4; k++ ) { VD z, s; dvget(*I->GetComp(4 + k), z); dvget(*sl[k], s); for( size_t i = 0; i < z.size(); i++ ) { double e = mub ? mu / s[i] : bv; if( lsd ) { double w = k < 2 ? ma->sx[0] : ma->ss[0]; if( !(k & 1) ) w = -w; if( D(w > e) ) e = w; } CHECKEQ(z[i], e, "initial bound multipliers"); CHECK(z[i] > 0., "initial bound multipliers are positive"); } } REACH(mub ? "mubased" : "constant");
   double ec = 0., ed = 0.; VD yc, yd; dvget(*I->y_c(), yc); dvget(*I->y_d(), yd); if( lsd ) { ec = -ma->c; ed = -ma->d; REACH("lsduals"); } else { if( ls ) REACH("lsfail"); bool call = what != 4 && mx > 0.; CHECK(mc->calls == (call ? 1 : 0), "multiplier estimate is computed exactly if wanted"); if( what == 4 ) REACH("square"); if( call && mc->ok ) { bool big = D((vabs(mc->c) > mx) | (vabs(mc->d) > mx)); REACH(big ? "too large" : "calc ok"); if( !big ) { ec = mc->c; ed = mc->d; } } else if( call ) REACH("calc fails"); }
   for( size_t i = 0; i < yc.size(); i++ ) CHECKEQ(yc[i], ec, "initial constraint multipliers"); CHECKEQ(yd[0], ed, "initial constraint multipliers");
}
static void lsmults()
{
   Fix fx; OptionsList& o = fx.opt(); SmartPtr<QTNLP> t = new QTNLP(3, 2); t->xl[0] = 0.; t->xu[1] = 9.; t->gl[0] = t->gu[0] = 1.; t->gl[1] = 0.; t->gu[1] = 7.; Trip a = {0, 0, 1.}, b = {0, 2, 2.}, c = {1, 1, 1.}, d = {1, 2, -1.}; t->A.push_back(a); t->A.push_back(b); t->A.push_back(c); t->A.push_back(d); for( int i = 0; i < 3; i++ ) t->c[i] = symdi("c", i, -100., 100.); fx.build(t); CHECK(fx.ok, "set up"); Ref R(*t);
   Itr I; I.b[0] = VD{1., 1., 1.}; I.b[1] = VD{2.}; I.b[2] = VD{symd("yc")}; I.b[3] = VD{symd("yd")}; for( int k = 4; k < 8; k++ ) I.b[k] = VD{symdi("z", k, -100., 100.)}; fx.curr(I); AlgorithmBuilder bld; SmartPtr<AugSystemSolver> as = bld.GetAugSystemSolver(fx.jn(), o, ""); SmartPtr<LeastSquareMultipliers> u = new LeastSquareMultipliers(*as); CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization");
   SmartPtr<Vector> yc = fx.data->curr()->y_c()->MakeNew(), yd = fx.data->curr()->y_d()->MakeNew(); CHECK(u->CalculateMultipliers(*yc, *yd), "estimate succeeds"); VD vc, vd; dvget(*yc, vc); dvget(*yd, vd); I.b[2] = vc; I.b[3] = vd; VD rx = R.gradLx(I), rs = R.gradLs(I), jc = R.jv(I, R.eq, rx), jd = R.jv(I, R.iq, rx); CHECK(vabs(jc[0]) < 1e-9, "estimate minimizes the dual infeasibility"); CHECK(vabs(jd[0] - rs[0]) < 1e-9, "estimate minimizes the dual infeasibility"); REACH("lsmults");
}
static void warm(int p, int q, bool target)
{
   Fix fx; OptionsList& o = fx.opt(); int kx = target ? 2 : p % 3, ks = target ? 0 : (kx + 1) % 3; opts(o, kx, ks, "warm_start_"); double mp = .125, mx = target || symbf("multipliers limited") ? 100. : 0.; o.SetNumericValue("warm_start_mult_bound_push", mp); o.SetNumericValue("warm_start_mult_init_max", mx); double tm = .25; if( target ) { o.SetNumericValue("warm_start_target_mu", tm); }
   PS = target || !symbf("multipliers arbitrary"); SmartPtr<QTNLP> t = prob(p, q); if( target ) { t->x0[0] = symd("xs", -100., 100.); if( lo(p) ) ASSUME(t->x0[0] > t->xl[0] + 1.); if( up(p) ) ASSUME(t->x0[0] < t->xu[0] - 1.); if( lo(q) ) ASSUME(t->x0[1] > t->gl[1] + 1.); if( up(q) ) ASSUME(t->x0[1] < t->gu[1] - 1.); } for( int i = 0; i < 3; i++ ) { t->zl0[i] = PS && !target ? 2. : symdi("zl", i); t->zu0[i] = PS && !target ? 300. : symdi("zu", i); } t->lam0[0] = PS && !target ? -500. : symd("l0"); t->lam0[1] = PS && !target ? 3. : symd("l1"); if( target ) { ASSUME(vabs(t->lam0[1]) < 1e3); ASSUME(vabs(t->zl0[0]) < 1e3); ASSUME(vabs(t->zu0[0]) < 1e3); }
   fx.build(t, false); CHECK(fx.ok, "set up"); SmartPtr<WarmStartIterateInitializer> u = new WarmStartIterateInitializer; CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization"); CHECK(u->SetInitialIterates(), "initial point"); SmartPtr<const IteratesVector> I = fx.data->curr();
   double y[2], z[4]; for( int k = 0; k < 2; k++ ) { y[k] = t->lam0[k]; if( mx > 0. && D(y[k] > mx) ) y[k] = mx; if( mx > 0. && D(y[k] < -mx) ) y[k] = -mx; } z[0] = t->zl0[0]; z[1] = t->zu0[0]; for( int k = 0; k < 2; k++ ) if( mx > 0. && D(z[k] > mx) ) z[k] = mx; z[2] = -y[1]; z[3] = y[1];
   VD yc, yd; dvget(*I->y_c(), yc); dvget(*I->y_d(), yd); CHECKEQ(yc[0], y[0], "constraint multipliers of the user, limited"); CHECKEQ(yd[0], y[1], "constraint multipliers of the user, limited");
   if( !target ) { primal(fx, p, q, kx, ks); for( int k = 0; k < 4; k++ ) { VD v; dvget(*I->GetComp(4 + k), v); for( size_t i = 0; i < v.size(); i++ ) { double e = z[k]; if( D(e < mp) ) e = mp; CHECKEQ(v[i], e, "bound multipliers of the user, limited and positive"); } } REACH("warm"); return; }
   SmartPtr<const Vector> sl[4] = {fx.cq->curr_slack_x_L(), fx.cq->curr_slack_x_U(), fx.cq->curr_slack_s_L(), fx.cq->curr_slack_s_U()}; 
   for( int k = 0; k < 4; k++ ) { VD v, s; dvget(*I->GetComp(4 + k), v); dvget(*sl[k], s); for( size_t i = 0; i < v.size(); i++ ) { CHECK(v[i] >= mp, "bound multipliers are positive"); CHECK(s[i] > 0., "strictly inside the bounds"); double big = KP[k < 2 ? kx : ks]; if( D(v[i] > mp) && D(s[i] > 101. * big) ) CHECKEQ(v[i] * s[i], tm, "complementarity equals its target"); } } REACH("target");
}
// a variable between two bounds: the lower side is adapted first, the upper side from where the variable is then
static void adapt(double& s, double& z, double tm, double rt) { if( D(s > 1e4 * z) ) { z = tm / s; if( D(z > s) ) s = z = rt; } else if( D(z > 1e4 * s) ) { s = tm / z; if( D(s > z) ) s = z = rt; } else s = z = rt; }
static void both(bool slacks)
{
   Fix fx; OptionsList& o = fx.opt(); double sm = 1. / (1 << 30), tm = .0625; const char* nm[4] = {"bound_push", "bound_frac", "slack_bound_push", "slack_bound_frac"}; for( int k = 0; k < 4; k++ ) o.SetNumericValue(std::string("warm_start_") + nm[k], sm); o.SetNumericValue("warm_start_mult_bound_push", sm); o.SetNumericValue("warm_start_target_mu", tm); SmartPtr<QTNLP> t = new QTNLP(1, 1); t->A.push_back(Trip{0, 0, 1.}); t->xl[0] = slacks ? -2e19 : 0.; t->xu[0] = slacks ? 2e19 : 1.; t->gl[0] = slacks ? 0. : -2e19; t->gu[0] = slacks ? 1. : 100.; double V[4] = {sm, 1. / 1024., 1., 64.}; double x = symd("between", 1. / 1024., 1023. / 1024.), zl = V[symfork("zl", 0, 3)], zu = V[symfork("zu", 0, 3)]; t->x0[0] = x; t->zl0[0] = zl; t->zu0[0] = zu; t->lam0[0] = slacks ? zu : 1.;
   fx.build(t, false); CHECK(fx.ok, "set up"); SmartPtr<WarmStartIterateInitializer> u = new WarmStartIterateInitializer; CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization"); CHECK(u->SetInitialIterates(), "initial point"); SmartPtr<const IteratesVector> I = fx.data->curr(); VD v, w, xx; dvget(*(slacks ? I->v_L() : I->z_L()), v); dvget(*(slacks ? I->v_U() : I->z_U()), w); dvget(*(slacks ? I->s() : I->x()), xx);
   if( slacks ) { zl = sm; }
   double s = x, z = zl; adapt(s, z, tm, .25); double x1 = s; CHECKEQ(v[0], vmax(z, sm), "multiplier of the lower bound for the target"); s = 1. - x1; z = zu; adapt(s, z, tm, .25); CHECKEQ(w[0], vmax(z, sm), "multiplier of the upper bound for the target"); CHECKEQ(xx[0], 1. - s, "position between the bounds for the target"); CHECKEQ(w[0] * (1. - xx[0]), tm, "complementarity of the upper bound equals its target"); REACH("both");
}
extern "C" int sym_main()
{
   int c = __sym_case(); if( c < 4 ) regular(c, (c * 3 + 1) % 4, 0); else if( c == 4 ) regular(1, 0, 4); else if( c == 5 ) regular(0, 1, 5); else if( c == 6 ) lsmults(); else if( c == 7 ) warm(0, 2, false); else if( c == 8 ) warm(1, 0, false); else if( c == 9 ) warm(1, 2, true);
   else if( c == 10 ) { Fix fx; OptionsList& o = fx.opt(); bool w = symbf("warm start"); o.SetStringValue("warm_start_init_point", w ? "yes" : "no"); fx.build(prob(0, 0), false); SmartPtr<MockCalc> mc = new MockCalc; SmartPtr<MockWarm> mw = new MockWarm; SmartPtr<DefaultIterateInitializer> u = new DefaultIterateInitializer(GetRawPtr(mc), GetRawPtr(mw), NULL); CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization"); CHECK(u->SetInitialIterates(), "initial point"); CHECK(mw->calls == (w ? 1 : 0), "warm start is used exactly if requested"); REACH("delegated"); }
   else if( c < 13 ) both(c == 12); else if( c < 24 ) regular(c - 20, (c - 20) & 3, 1); else warm(c - 24, (c - 24 + 2) & 3, false);
   return 0;
}
