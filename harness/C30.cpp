//! {"quick":["0-15"],"thorough":["0-15"],"level":"model_checking",
//!  "reach":["functions","bounds","initial","mults","exit","copied","returned","reset","square","continue","accepted","infeasible","tighten","stop","limit","follow"],
//!  "bounds":["problems with two variables, one equality and two inequalities (and a square problem); all points, elastic variables, multipliers and directions; sequences of two barrier parameters; concrete reference points","start of the restoration phase: all constraint values, concrete multiplier signs","end of the restoration phase: every status of the restoration run, all result points and multipliers, concrete slacks before"],
//!  "assumptions":["real arithmetic","the algorithm run on the restoration problem is a stand-in that ends with an arbitrary status at an arbitrary point"],
//!  "outside":["time limits inside the restoration phase"]}
#include "resto.h"
#include "IpRestoIterateInitializer.hpp"
#include "IpRestoFilterConvCheck.hpp"
#include "IpRestoMinC_1Nrm.hpp"
#include "IpFilterLSAcceptor.hpp"
#include "IpIpoptAlg.hpp"
static bool D(bool c) { return __sym_decide(c) != 0; }
static double par(const char* n, int i, double lo, double hi) { double v = symdi(n, i); ASSUME((v >= lo) & (v <= hi)); return v; }
static SmartPtr<QTNLP> prob() { SmartPtr<QTNLP> t = new QTNLP(2, 3); t->xl[0] = 0.; t->xu[1] = 9.; t->gl[0] = t->gu[0] = 1.; t->gl[1] = -2.; t->gu[1] = 7.; t->gl[2] = -2e19; t->gu[2] = 8.; Trip q[] = {{0, 0, 2.}, {1, 0, 1.}}, a[] = {{0, 0, 1.}, {0, 1, 2.}, {1, 1, 3.}, {2, 0, -1.}, {2, 1, .5}}; t->Q.assign(q, q + 2); t->A.assign(a, a + 5); t->Bq.push_back(TripK{0, 1, 1, 4.}); t->Bq.push_back(TripK{1, 1, 0, .5}); return t; }
static Itr start() { Itr I; I.b[0] = VD{2., -4.}; I.b[1] = VD{1., 2.}; I.b[2] = VD{1.}; I.b[3] = VD{0., 0.}; I.b[4] = VD{1.}; I.b[5] = VD{.5}; I.b[6] = VD{1.}; I.b[7] = VD{1., 1.}; return I; }
// a point of the restoration problem: x, n_c, p_c, n_d, p_d
struct Pt { VD x, nc, pc, nd, pd; VD all() const { VD r = x; r.insert(r.end(), nc.begin(), nc.end()); r.insert(r.end(), pc.begin(), pc.end()); r.insert(r.end(), nd.begin(), nd.end()); r.insert(r.end(), pd.begin(), pd.end()); return r; } };
static Pt arb(const char* n, int b) { Pt p; for( int i = 0; i < 2; i++ ) p.x.push_back(symdi(n, b + i)); p.nc.push_back(symdi(n, b + 2)); p.pc.push_back(symdi(n, b + 3)); for( int i = 0; i < 2; i++ ) p.nd.push_back(symdi(n, b + 4 + i)); for( int i = 0; i < 2; i++ ) p.pd.push_back(symdi(n, b + 6 + i)); return p; }
static void functions(int wht)
{
   double rho = wht == 1 ? 8. : 1000.; Fix fx; fx.app->Options()->SetNumericValue("resto.resto_penalty_parameter", rho); fx.opt().SetNumericValue("resto_penalty_parameter", rho); double zf = wht == 1 ? 2. : 1.; fx.opt().SetNumericValue("resto_proximity_weight", zf); SmartPtr<QTNLP> t = prob(); fx.build(t); CHECK(fx.ok, "set up"); Itr I = start(); if( wht == 2 ) I.b[0] = VD{.5, .25}; fx.curr(I); Resto R(fx); CHECK(R.ok, "restoration problem"); Ref ref(*t); double w2[2]; for( int i = 0; i < 2; i++ ) { double a = vabs(I.b[0][i]); double w = a > 1. ? 1. / a : 1.; w2[i] = w * w; }
   SmartPtr<Vector> xv = R.data->curr()->x()->MakeNew();
   for( int k = 0; k < 2; k++ )
   {
      double mu = k == 0 ? .25 : 1., eta = k == 0 ? .5 * zf : zf; Pt p = arb("x", k * 10); Resto::fill(*xv, p.all()); VD g(3), j(6), df(2); t->G(&p.x[0], &g[0]); t->J(&p.x[0], &j[0]); double f = 0.; VD e = p.all(); for( size_t i = 2; i < e.size(); i++ ) f += e[i]; f *= rho; for( int i = 0; i < 2; i++ ) f += eta / 2. * w2[i] * (p.x[i] - I.b[0][i]) * (p.x[i] - I.b[0][i]);
      CHECKEQ(R.nlp->f(*xv, mu), f, "objective"); VD gr = Resto::flat(*R.nlp->grad_f(*xv, mu)); CHECK(gr.size() == 8, "dimension"); for( int i = 0; i < 8; i++ ) CHECKEQ(gr[i], i < 2 ? eta * w2[i] * (p.x[i] - I.b[0][i]) : rho, "gradient"); VD c = Resto::flat(*R.nlp->c(*xv)); CHECKEQ(c[0], g[0] - 1. + p.nc[0] - p.pc[0], "equality constraints"); VD d = Resto::flat(*R.nlp->d(*xv)); for( int i = 0; i < 2; i++ ) CHECKEQ(d[i], g[1 + i] + p.nd[i] - p.pd[i], "inequality constraints");
      Pt v = arb("v", k * 10); SmartPtr<Vector> vv = xv->MakeNew(), o = xv->MakeNew(); Resto::fill(*vv, v.all()); SmartPtr<Vector> oc = R.data->curr()->y_c()->MakeNew(), od = R.data->curr()->y_d()->MakeNew(); SmartPtr<const Matrix> jc = R.nlp->jac_c(*xv), jd = R.nlp->jac_d(*xv); jc->MultVector(1., *vv, 0., *oc); CHECKEQ(Resto::flat(*oc)[0], j[0] * v.x[0] + j[1] * v.x[1] + v.nc[0] - v.pc[0], "equality Jacobian"); jd->MultVector(1., *vv, 0., *od); for( int i = 0; i < 2; i++ ) CHECKEQ(Resto::flat(*od)[i], j[(1 + i) * 2] * v.x[0] + j[(1 + i) * 2 + 1] * v.x[1] + v.nd[i] - v.pd[i], "inequality Jacobian");
      VD yc(1, symdi("yc", k)), yd; for( int i = 0; i < 2; i++ ) yd.push_back(symdi("yd", k * 2 + i)); Resto::fill(*oc, yc); Resto::fill(*od, yd); jc->TransMultVector(1., *oc, 0., *o); VD tr = Resto::flat(*o); for( int i = 0; i < 2; i++ ) CHECKEQ(tr[i], j[i] * yc[0], "transposed equality Jacobian"); CHECKEQ(tr[2], yc[0], "transposed equality Jacobian"); CHECKEQ(tr[3], -yc[0], "transposed equality Jacobian"); for( int i = 4; i < 8; i++ ) CHECKEQ(tr[i], 0., "transposed equality Jacobian"); jd->TransMultVector(1., *od, 0., *o); tr = Resto::flat(*o); for( int i = 0; i < 2; i++ ) { CHECKEQ(tr[i], j[2 + i] * yd[0] + j[4 + i] * yd[1], "transposed inequality Jacobian"); CHECKEQ(tr[4 + i], yd[i], "transposed inequality Jacobian"); CHECKEQ(tr[6 + i], -yd[i], "transposed inequality Jacobian"); }
      double of = symbf("objective factor") ? 1. : 0.; SmartPtr<const SymMatrix> h = R.nlp->h(*xv, of, *oc, *od, mu); h->MultVector(1., *vv, 0., *o); VD hv = Resto::flat(*o); VD H(4, 0.); double lam[3] = {yc[0], yd[0], yd[1]}; t->H(0., lam, &H[0]); for( int i = 0; i < 2; i++ ) CHECKEQ(hv[i], H[i * 2] * v.x[0] + H[i * 2 + 1] * v.x[1] + of * eta * w2[i] * v.x[i], "Hessian"); for( int i = 2; i < 8; i++ ) CHECKEQ(hv[i], 0., "Hessian"); REACH("functions");
   }
   if( wht == 0 )
   { // bounds: those of the variables, and zero for the elastic variables
      VD b; b = Resto::flat(*R.nlp->x_L()); CHECK(b.size() == 7, "number of lower bounds"); for( int i = 0; i < 7; i++ ) CHECK(b[i] == 0., "lower bounds"); Pt v = arb("p", 0); SmartPtr<Vector> bl = R.nlp->x_L()->MakeNew(), bu = R.nlp->x_U()->MakeNew(), vv = xv->MakeNew(); Resto::fill(*vv, v.all()); R.nlp->Px_L()->TransMultVector(1., *vv, 0., *bl); VD s = Resto::flat(*bl), e = v.all(); CHECKEQ(s[0], v.x[0], "positions of the lower bounds"); for( int i = 1; i < 7; i++ ) CHECKEQ(s[i], e[i + 1], "positions of the lower bounds"); VD u = Resto::flat(*R.nlp->x_U()); CHECK(u.size() == 1 && u[0] == 9., "upper bounds"); R.nlp->Px_U()->TransMultVector(1., *vv, 0., *bu); CHECKEQ(Resto::flat(*bu)[0], v.x[1], "positions of the upper bounds"); VD dl = Resto::flat(*R.nlp->d_L()), du = Resto::flat(*R.nlp->d_U()); CHECK(dl.size() == 1 && dl[0] == -2. && du.size() == 2 && du[0] == 7. && du[1] == 8., "bounds of the inequalities"); REACH("bounds");
   }
}
static void follow()
{ // the quantities of the restoration problem follow its points and its barrier parameter
   Fix fx; SmartPtr<QTNLP> t = prob(); fx.build(t); CHECK(fx.ok, "set up"); Itr I = start(); fx.curr(I); Resto R(fx); CHECK(R.ok, "restoration problem"); double w2[2] = {.25, .0625}, mu = .25, rho = 1000.; Pt P[2]; int np = 0;
   auto obj = [&](const Pt& p) { VD e = p.all(); double f = 0.; for( size_t i = 2; i < e.size(); i++ ) f += e[i]; f *= rho; double eta = mu == .25 ? .5 : 1.; for( int i = 0; i < 2; i++ ) f += eta / 2. * w2[i] * (p.x[i] - I.b[0][i]) * (p.x[i] - I.b[0][i]); return f; };
   auto point = [&](int k) { P[k] = arb("x", 10 * np++); SmartPtr<IteratesVector> it = R.data->curr()->MakeNewIteratesVector(true); it->Set(1.); Resto::fill(*it->x_NonConst(), P[k].all()); R.data->set_trial(it); if( k == 0 ) R.data->AcceptTrialPoint(); };
   R.data->Set_mu(mu); point(0); point(1);
   for( int q = 0; q < 3; q++ )
   {
      double eta = mu == .25 ? .5 : 1.; int what = symfork("asked for", 0, 3);
      if( what == 0 ) { CHECKEQ(R.cq->curr_f(), obj(P[0]), "objective of the current point and barrier parameter"); CHECKEQ(R.cq->trial_f(), obj(P[1]), "objective of the trial point and barrier parameter"); }
      if( what == 1 ) { CHECKEQ(R.cq->trial_f(), obj(P[1]), "objective of the trial point and barrier parameter"); CHECKEQ(R.cq->curr_f(), obj(P[0]), "objective of the current point and barrier parameter"); }
      if( what == 2 ) { VD g = Resto::flat(*R.cq->curr_grad_f()), h = Resto::flat(*R.cq->trial_grad_f()); for( int i = 0; i < 2; i++ ) { CHECKEQ(g[i], eta * w2[i] * (P[0].x[i] - I.b[0][i]), "gradient of the current point and barrier parameter"); CHECKEQ(h[i], eta * w2[i] * (P[1].x[i] - I.b[0][i]), "gradient of the trial point and barrier parameter"); } }
      if( what == 3 ) { SmartPtr<const SymMatrix> h = R.cq->curr_exact_hessian(); Pt v = arb("v", 0); SmartPtr<Vector> vv = R.data->curr()->x()->MakeNew(), o = vv->MakeNew(); Resto::fill(*vv, v.all()); h->MultVector(1., *vv, 0., *o); VD hv = Resto::flat(*o), H(4, 0.); double lam[3] = {1., 1., 1.}; t->H(0., lam, &H[0]); for( int i = 0; i < 2; i++ ) CHECKEQ(hv[i], H[i * 2] * v.x[0] + H[i * 2 + 1] * v.x[1] + eta * w2[i] * v.x[i], "Hessian of the current point and barrier parameter"); }
      int ch = symfork("changed", 0, 2); if( ch == 0 ) { mu = mu == .25 ? 1. : .25; R.data->Set_mu(mu); } else if( ch == 1 ) { R.data->AcceptTrialPoint(); P[0] = P[1]; point(1); } else point(1); REACH("follow");
   }
}
struct MockEq: public EqMultiplierCalculator { int calls; bool ok; VD yc, yd; MockEq() : calls(0), ok(true) {} bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool CalculateMultipliers(Vector& c, Vector& d) { calls++; if( !ok ) return false; set(c, yc); set(d, yd); return true; }
   static void set(Vector& v, const VD& w) { if( dynamic_cast<CompoundVector*>(&v) ) Resto::fill(v, w); else { VD z = w; z.push_back(0.); static_cast<DenseVector&>(v).SetValues(&z[0]); } } };
static void initial(int kind)
{
   Fix fx; double ymax = kind == 1 ? 4. : 0.; if( kind == 1 ) fx.opt().SetNumericValue("resto.constr_mult_init_max", 4.); SmartPtr<QTNLP> t = prob(); t->Q.clear(); t->Bq.clear(); fx.build(t); CHECK(fx.ok, "set up"); Itr I = start(); double rho = 1000.; if( kind == 2 ) { I.b[0][0] = 3.; I.b[0][1] = -1.; } I.b[0][0] = symd("x"); ASSUME((I.b[0][0] > 0.) & (I.b[0][0] < 30.)); if( kind == 0 ) { I.b[1][0] = symd("s"); ASSUME((I.b[1][0] > -2.) & (I.b[1][0] < 7.)); } if( kind == 2 ) { I.b[4][0] = symd("z"); I.b[7][1] = symd("v"); ASSUME((I.b[4][0] > 0.) & (I.b[7][1] > 0.)); } fx.curr(I); double mu0 = kind == 0 ? .125 : 64.; fx.data->Set_mu(mu0); Resto R(fx); CHECK(R.ok, "restoration problem"); Ref ref(*t); R.data->Set_mu(3.);
   SmartPtr<MockEq> eq = new MockEq; SmartPtr<RestoIterateInitializer> u = new RestoIterateInitializer(GetRawPtr(eq)); CHECK(u->Initialize(fx.jn(), *R.nlp, *R.data, *R.cq, fx.opt(), "resto."), "initialization"); eq->yc = VD{kind == 1 ? symd("yc") : 0.}; eq->yd = VD{0., kind == 1 ? symd("yd") : 0.}; eq->ok = kind != 1 || !symbf("multipliers unavailable"); CHECK(u->SetInitialIterates(), "start point is set");
   VD c = ref.c(I), d = ref.dms(I); double mu = mu0; if( D(vabs(c[0]) > mu) ) mu = vabs(c[0]); for( int i = 0; i < 2; i++ ) if( D(vabs(d[i]) > mu) ) mu = vabs(d[i]); CHECKEQ(R.data->curr_mu(), mu, "barrier parameter"); VD x = Resto::flat(*R.data->curr()->x()); for( int i = 0; i < 2; i++ ) CHECKEQ(x[i], I.b[0][i], "variables start at the current point"); VD s = Resto::flat(*R.data->curr()->s()); for( int i = 0; i < 2; i++ ) CHECKEQ(s[i], I.b[1][i], "slacks start at the current point"); VD zl = Resto::flat(*R.data->curr()->z_L());
   for( int k = 0; k < 3; k++ ) { double r = k == 0 ? c[0] : d[k - 1], n = k == 0 ? x[2] : x[3 + k], p = k == 0 ? x[3] : x[5 + k], zn = k == 0 ? zl[1] : zl[2 + k], zp = k == 0 ? zl[2] : zl[4 + k]; CHECK((n > 0.) & (p > 0.), "elastic variables are positive"); CHECKEQ(p - n, r, "elastic variables close the residual"); double a = mu / (2. * rho) - r / 2., q = n - a; CHECKEQ(q * q, a * a + mu * r / (2. * rho), "elastic variables are on the central path"); CHECK(q >= 0., "elastic variables are on the central path"); CHECKEQ(zn * n, mu, "multipliers of the elastic variables"); CHECKEQ(zp * p, mu, "multipliers of the elastic variables"); }
   CHECKEQ(zl[0], I.b[4][0] < rho ? I.b[4][0] : rho, "bound multipliers are limited by the penalty parameter"); CHECKEQ(Resto::flat(*R.data->curr()->z_U())[0], I.b[5][0], "bound multipliers (upper)"); CHECKEQ(Resto::flat(*R.data->curr()->v_L())[0], I.b[6][0], "slack multipliers"); VD vu = Resto::flat(*R.data->curr()->v_U()); CHECKEQ(vu[0], I.b[7][0], "slack multipliers"); CHECKEQ(vu[1], I.b[7][1] < rho ? I.b[7][1] : rho, "slack multipliers are limited by the penalty parameter");
   VD yc = Resto::flat(*R.data->curr()->y_c()), yd = Resto::flat(*R.data->curr()->y_d()); bool use = ymax > 0. && eq->ok && D((vabs(eq->yc[0]) <= ymax) & (vabs(eq->yd[1]) <= ymax)); CHECK((eq->calls > 0) == (ymax > 0.), "multipliers are computed exactly if allowed"); CHECKEQ(yc[0], use ? eq->yc[0] : 0., "equality multipliers"); CHECKEQ(yd[1], use ? eq->yd[1] : 0., "inequality multipliers"); if( ymax > 0. ) REACH("mults"); REACH("initial");
}
// stand-ins for the parts of the algorithm that is run on the restoration problem
struct MInit: public IterateInitializer { std::vector<VD> v; int how; MInit() : how(0) {} bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool SetInitialIterates() { if( how == 9 ) return false; IpData().InitializeDataStructures(IpNLP(), false, false, false, false, false); SmartPtr<IteratesVector> it = IpData().curr()->MakeNewIteratesVector(true); for( int k = 0; k < 8; k++ ) Resto::fill(*it->GetCompNonConst(k), v[k]); IpData().set_trial(it); IpData().AcceptTrialPoint(); return true; } };
struct MConv: public ConvergenceCheck { ConvergenceStatus st; int ex, its; MConv() : st(CONVERGED), ex(0), its(0) {} bool InitializeImpl(const OptionsList&, const std::string&) { return true; } bool CurrentIsAcceptable() { return false; }
   ConvergenceStatus CheckConvergence(bool) { IpData().Set_iter_count(IpData().iter_count() + its); if( ex == 1 ) THROW_EXCEPTION(LOCALLY_INFEASIBLE, "x"); if( ex == 2 ) THROW_EXCEPTION(RESTORATION_FAILED, "x"); if( ex == 3 ) THROW_EXCEPTION(IpoptNLP::Eval_Error, "x"); if( ex == 4 ) THROW_EXCEPTION(STEP_COMPUTATION_FAILED, "x"); if( ex == 5 ) THROW_EXCEPTION(TINY_STEP_DETECTED, "x"); return st; } };
struct MDir: public SearchDirectionCalculator { bool InitializeImpl(const OptionsList&, const std::string&) { return true; } bool ComputeSearchDirection() { return true; } };
struct MLS: public LineSearch { bool InitializeImpl(const OptionsList&, const std::string&) { return true; } void FindAcceptableTrialPoint() {} void Reset() {} void SetRigorousLineSearch(bool) {} bool CheckSkippedLineSearch() { return false; } bool ActivateFallbackMechanism() { return false; } };
struct MMu: public MuUpdate { bool InitializeImpl(const OptionsList&, const std::string&) { return true; } bool UpdateBarrierParameter() { return true; } };
struct MOut: public IterationOutput { bool InitializeImpl(const OptionsList&, const std::string&) { return true; } void WriteOutput() {} };
struct MHess: public HessianUpdater { bool InitializeImpl(const OptionsList&, const std::string&) { return true; } void UpdateHessian() {} };
enum Out { OK, FAILED, FEAS, CONV, LOCINF, MAXIT, CPU, WALL, RFAIL, USER, OTHER };
// the end of the restoration phase
static void finish(bool square, int grp)
{
   Fix fx; double thr = grp == 3 ? 2.5 : 8., ymax = 0.; fx.opt().SetNumericValue("bound_mult_reset_threshold", thr); if( grp == 2 ) { ymax = 4.; fx.opt().SetNumericValue("constr_mult_reset_threshold", ymax); } SmartPtr<QTNLP> t; Itr I; int nd = square ? 0 : 2;
   if( square ) { t = new QTNLP(2, 2); t->gl[0] = t->gu[0] = 1.; t->gl[1] = t->gu[1] = .25; t->xl[0] = 0.; Trip a[] = {{0, 0, 1.}, {0, 1, 2.}, {1, 1, 1.}}; t->A.assign(a, a + 3); I.b[0] = VD{2., -4.}; if( grp == 1 ) I.b[0] = symbf("almost feasible") ? VD{.5, .25} : VD{2., -4.}; I.b[2] = VD{.5, .25}; I.b[4] = VD{1.}; } else { t = prob(); I = start(); } fx.build(t); CHECK(fx.ok, "set up"); fx.curr(I); double mu = grp == 3 ? 4. : .25, tau = .5; fx.data->Set_mu(mu); fx.data->Set_tau(tau); fx.data->Set_iter_count(5); Ref ref(*t); bool sq = fx.cq->IsSquareProblem(); CHECK(sq == square, "square problem"); SmartPtr<IteratesVector> empty = fx.data->curr()->MakeNewContainer(); fx.data->set_trial(empty);
   SmartPtr<MInit> in = new MInit; SmartPtr<MConv> cv = new MConv; SmartPtr<MockEq> eq = new MockEq; cv->its = 3; Itr Y = I; int exit = grp == 3 ? 0 : symfork("end of the run", grp == 0 ? 1 : 0, 13), one = grp == 3 ? symfork("moved", 0, 3) : -1;
   // result point
   Pt p; for( int i = 0; i < 2; i++ ) p.x.push_back(grp == 2 || (one >= 0 && one != i) ? I.b[0][i] : par("x", i, i == 0 ? .5 : -64., i == 0 ? 64. : 8.5)); VD s; for( int i = 0; i < nd; i++ ) s.push_back(grp == 2 || (one >= 0 && one != 2 + i) ? I.b[1][i] : par("s", i, -1.75, 6.75)); int nc = square ? 2 : 1; for( int i = 0; i < nc; i++ ) { p.nc.push_back(1.); p.pc.push_back(2.); } for( int i = 0; i < nd; i++ ) { p.nd.push_back(1.); p.pd.push_back(2.); } VD yc, yd; for( int i = 0; i < nc; i++ ) yc.push_back(symdi("yc", i)); for( int i = 0; i < nd; i++ ) yd.push_back(symdi("yd", i)); int nl = 1; VD zl; zl.push_back(symd("zl")); for( int i = 0; i < 2 * nc + 2 * nd; i++ ) zl.push_back(1.); VD zu, vl, vu; if( !square ) { zu.push_back(symd("zu")); vl.push_back(symd("vl")); vu.push_back(symd("vu")); vu.push_back(2.); } (void) nl;
   in->v.push_back(p.all()); in->v.push_back(s); in->v.push_back(yc); in->v.push_back(yd); in->v.push_back(zl); in->v.push_back(zu); in->v.push_back(vl); in->v.push_back(vu); if( grp == 2 ) { eq->yc = VD{symd("newyc")}; eq->yd = VD{0., 1.}; eq->ok = !symbf("no multipliers"); } else { eq->yc = VD(nc, 1.); eq->yd = VD(nd, 1.); }
   typedef ConvergenceCheck C; static const C::ConvergenceStatus ST[] = {C::CONVERGED, C::CONVERGED_TO_ACCEPTABLE_POINT, C::MAXITER_EXCEEDED, C::CPUTIME_EXCEEDED, C::WALLTIME_EXCEEDED, C::DIVERGING, C::USER_STOP, C::FAILED}; if( exit < 8 ) cv->st = ST[exit]; else if( exit < 13 ) cv->ex = exit - 7; else in->how = 9;
   SmartPtr<IpoptAlgorithm> alg = new IpoptAlgorithm(new MDir, new MLS, new MMu, GetRawPtr(cv), GetRawPtr(in), new MOut, new MHess, NULL, "x"); SmartPtr<MinC_1NrmRestorationPhase> u = new MinC_1NrmRestorationPhase(*alg, GetRawPtr(eq)); CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, fx.opt(), ""), "initialization");
   Out o; try { o = static_cast<RestorationPhase&>(*u).PerformRestoration() ? OK : FAILED; } catch( FEASIBILITY_PROBLEM_SOLVED& ) { o = FEAS; } catch( RESTORATION_CONVERGED_TO_FEASIBLE_POINT& ) { o = CONV; } catch( LOCALLY_INFEASIBLE& ) { o = LOCINF; } catch( RESTORATION_MAXITER_EXCEEDED& ) { o = MAXIT; } catch( RESTORATION_CPUTIME_EXCEEDED& ) { o = CPU; } catch( RESTORATION_WALLTIME_EXCEEDED& ) { o = WALL; } catch( RESTORATION_FAILED& ) { o = RFAIL; } catch( RESTORATION_USER_STOP& ) { o = USER; } catch( IpoptException& ) { o = OTHER; }
   bool hascurr = exit != 13; Itr E = I; if( hascurr && exit != 0 ) { E.b[0] = p.x; E.b[1] = s; E.b[2] = yc; E.b[3] = yd; E.b[4] = VD(1, zl[0]); E.b[5] = zu; E.b[6] = vl; E.b[7] = vu; }
   auto same = [&](const IteratesVector& v, const Itr& J, int upto, const char* l) { for( int k = 0; k < upto; k++ ) { VD g; dvget(*v.GetComp(k), g); CHECK(g.size() == J.b[k].size(), "dimension"); for( size_t i = 0; i < g.size() && i < J.b[k].size(); i++ ) CHECKEQ(g[i], J.b[k][i], l); } };
   if( exit != 0 )
   {
      same(*fx.data->curr(), E, 8, hascurr ? "the final point of a failed restoration phase is returned to the user" : "the point is kept"); if( hascurr ) REACH("copied"); double viol = 0.; VD c = ref.c(E), d = ref.d(E); double inf = 0.; bool small = true, feas = true; for( size_t i = 0; i < c.size(); i++ ) { small = small & (vabs(c[i]) < 1e-4); feas = feas & (vabs(c[i]) <= 1e-6); } VD dd = ref.dms(E); for( size_t i = 0; i < dd.size(); i++ ) feas = feas & (vabs(dd[i]) <= 1e-6); (void) viol; (void) inf; if( hascurr ) CHECK(fx.data->iter_count() == 5 + 1 + 3, "iterations are counted");
      Out w; if( exit == 1 || exit == 12 ) { if( exit == 1 && sq && D(small) ) w = FEAS; else w = D(feas) ? CONV : LOCINF; } else w = exit == 2 ? MAXIT : exit == 3 ? CPU : exit == 4 ? WALL : exit == 5 ? FAILED : exit == 6 ? USER : exit == 7 ? FAILED : exit == 8 ? LOCINF : exit == 9 ? RFAIL : exit == 10 ? FAILED : exit == 11 ? RFAIL : exit == 13 ? OTHER : FAILED; CHECK(o == w, "outcome of the restoration phase"); REACH("exit"); return;
   }
   Itr T = I; T.b[0] = p.x; T.b[1] = s; if( sq ) { VD c0 = ref.c(I), c1 = ref.c(T); double m = 0.; bool f1 = true; for( size_t i = 0; i < c0.size(); i++ ) m = vmax(m, vabs(c0[i])); for( size_t i = 0; i < c1.size(); i++ ) { ASSUME((c1[i] <= m) & (c1[i] >= -m)); f1 = f1 & (c1[i] <= 1e-4) & (c1[i] >= -1e-4); } if( o == FEAS ) { CHECK(f1, "only a feasible point is reported as solution of a square problem"); same(*fx.data->curr(), T, 2, "the feasible point is accepted"); REACH("square"); return; } }
   CHECK(o == OK, "success"); CHECK(fx.data->iter_count() == 5 + 3, "iterations are counted"); if( ymax == 0. ) same(*fx.data->curr(), I, 8, "the current point is kept"); same(*fx.data->trial(), T, 2, "the result becomes the trial point"); CHECK(fx.data->info_skip_output(), "no duplicate output");
   // bound multipliers: step as if the progress was one Newton step
   int nb = ref.nb(); VD dz, z; bool any = false; double a = 1.; for( int k = 0; k < nb; k++ ) { double s0 = ref.slack(I, k), s1 = ref.slack(T, k), m0 = ref.mult(I, k); z.push_back(m0); dz.push_back((s0 - s1) * m0 / s0 + mu / s0 - m0); any = true; } for( int k = 0; k < nb; k++ ) if( D(dz[k] < 0.) ) { double r = -tau * z[k] / dz[k]; if( D(r < a) ) a = r; } bool big = false; for( int k = 0; k < nb; k++ ) { z[k] += a * dz[k]; if( !big && D(vabs(z[k]) > thr) ) big = true; } if( big ) REACH("reset"); (void) any; VD got; for( int b = 4; b < 8; b++ ) { VD g; dvget(*fx.data->trial()->GetComp(b), g); got.insert(got.end(), g.begin(), g.end()); } CHECK((int) got.size() == nb, "dimension"); for( int k = 0; k < nb; k++ ) CHECKEQ(got[k], big ? 1. : z[k], "bound multipliers after the restoration phase");
   VD gc, gd; dvget(*fx.data->trial()->y_c(), gc); dvget(*fx.data->trial()->y_d(), gd); bool use = ymax > 0. && eq->ok && D(vabs(eq->yc[0]) <= ymax); CHECK((eq->calls > 0) == (ymax > 0.), "multipliers are computed exactly if allowed"); for( int i = 0; i < nc; i++ ) CHECKEQ(gc[i], use ? eq->yc[i] : 0., "constraint multipliers after the restoration phase"); for( int i = 0; i < nd; i++ ) CHECKEQ(gd[i], use ? eq->yd[i] : 0., "constraint multipliers after the restoration phase"); REACH("returned");
}
// when the restoration phase is left
struct RC: public RestoConvergenceCheck { void SetOrigLSAcceptor(const BacktrackingLSAcceptor&) {} bool ok; int calls; double barr, theta; RC() : ok(false), calls(0) {} virtual ConvergenceStatus TestOrigProgress(Number b, Number th) { calls++; barr = b; theta = th; return ok ? CONVERGED : CONTINUE; } };
static void leave(int kind)
{
   bool sq = kind == 1; Fix fx; int n = sq ? 1 : 2; SmartPtr<QTNLP> t = new QTNLP(n, 1); t->gl[0] = t->gu[0] = 1.; for( int i = 0; i < n; i++ ) { t->A.push_back(Trip{0, i, 1.}); t->c[i] = .5; } double otol = kind == 2 ? 20. : 5., cvt = kind == 3 ? 64. : 2., kap = kind == 3 ? 0. : .5; int mi = 20, mr = 1; OptionsList& o = fx.opt(); o.SetNumericValue("tol", otol); o.SetNumericValue("resto.tol", 1.); o.SetNumericValue("constr_viol_tol", cvt); o.SetNumericValue("resto.dual_inf_tol", 1e5); o.SetNumericValue("resto.compl_inf_tol", 1e5); o.SetNumericValue("resto.constr_viol_tol", 1e5); o.SetNumericValue("resto.acceptable_tol", 1e-9); o.SetNumericValue("resto.required_infeasibility_reduction", kap); o.SetIntegerValue("resto.max_iter", mi); o.SetIntegerValue("max_resto_iter", mr); o.SetNumericValue("resto_penalty_parameter", .125); o.SetNumericValue("resto.resto_penalty_parameter", .125); o.SetNumericValue("resto_proximity_weight", 0.); o.SetNumericValue("resto.resto_proximity_weight", 0.);
   fx.build(t); CHECK(fx.ok, "set up"); Itr I; I.b[0] = VD(n, 0.); I.b[0][0] = 9.; I.b[2] = VD{0.}; fx.curr(I); CHECK(fx.cq->IsSquareProblem() == sq, "square problem"); Resto R(fx); CHECK(R.ok, "restoration problem"); R.data->InitializeDataStructures(*R.nlp, false, false, false, false, false); R.data->Set_mu(.25); SmartPtr<RC> u = new RC; CHECK(u->Initialize(fx.jn(), *R.nlp, *R.data, *R.cq, o, "resto."), "initialization"); double rtol = 1.; int it = 10; typedef ConvergenceCheck C;
   for( int k = 0; k < 3; k++ )
   {
      double x0 = symdi("x", k); ASSUME((x0 >= 1.) & (x0 <= 2000.)); bool conv = k == 0 || symbf("stationary"); double y = conv ? .125 : 1000.; SmartPtr<IteratesVector> v = R.data->curr()->MakeNewIteratesVector(true); VD px(n, 0.); px[0] = x0; double inf = x0 - 1.; px.push_back(.25); px.push_back(.25 + inf); Resto::fill(*v->GetCompNonConst(0), px); Resto::fill(*v->GetCompNonConst(2), VD{y}); Resto::fill(*v->GetCompNonConst(4), VD{.25, 0x1p-14}); R.data->set_trial(v); R.data->AcceptTrialPoint(); int ev = k == 0 ? symfork("event", 0, 2) : k == 1 ? symfork("event", 0, 1) : 0; if( ev == 2 ) t->stop_at = 0; t->n_ic = 0; if( ev == 1 ) it = mi + k; R.data->Set_iter_count(it++); u->ok = symbf("acceptable to the original problem"); u->calls = 0; bool cb = ev == 2 || symbf("callback");
      int got; try { got = (int) u->CheckConvergence(cb); } catch( RESTORATION_CONVERGED_TO_FEASIBLE_POINT& ) { got = 100; } catch( LOCALLY_INFEASIBLE& ) { got = 101; } SmartPtr<const Vector> tx = fx.data->trial()->x(); VD g; dvget(*tx, g); CHECKEQ(g[0], x0, "trial point of the original problem"); if( n > 1 ) CHECKEQ(g[1], 0., "trial point of the original problem"); if( ev == 2 ) { CHECK(got == C::USER_STOP, "stop on request of the user"); REACH("stop"); return; } if( ev == 1 ) { CHECK(got == C::MAXITER_EXCEEDED, "iteration limit"); REACH("limit"); return; } if( k > mr ) { CHECK(got == C::MAXITER_EXCEEDED, "limit on restoration iterations"); REACH("limit"); return; }
      double lim = otol < cvt ? otol : cvt; int w; bool test = false; if( k == 0 ) w = C::CONTINUE; else if( sq && D(inf <= lim) ) w = C::CONVERGED; else if( D(inf > (kap == 0. ? 0. : 8. * kap > lim ? 8. * kap : lim)) ) w = C::CONTINUE; else { test = true; w = u->ok ? C::CONVERGED : C::CONTINUE; } CHECK((u->calls > 0) == test, "progress for the original problem is tested exactly after sufficient reduction"); if( test ) { CHECKEQ(u->barr, .5 * x0, "objective of the original problem"); CHECKEQ(u->theta, inf, "violation of the original constraints"); if( u->ok ) REACH("accepted"); }
      if( w == C::CONTINUE && conv && rtol > .5 ) { if( D(inf <= 100. * rtol) && rtol > .1 * otol ) { rtol *= .01; REACH("tighten"); } else if( sq && D(inf <= cvt) ) w = C::CONVERGED_TO_ACCEPTABLE_POINT; else if( D(inf <= 100. * rtol) ) w = 100; else { w = 101; REACH("infeasible"); } } CHECKEQ(R.data->tol(), rtol, "tolerance is tightened only for slightly infeasible problems"); CHECK(got == w, "decision at the end of the restoration iteration"); if( w != C::CONTINUE ) return; REACH("continue");
   }
}
// acceptance for the original filter and iterate
static void filter()
{
   Fix fx; SmartPtr<QTNLP> t = new QTNLP(2, 1); t->gl[0] = t->gu[0] = 1.; t->A.push_back(Trip{0, 0, 1.}); t->A.push_back(Trip{0, 1, 1.}); t->c[0] = .5; t->c[1] = 1.; fx.build(t); CHECK(fx.ok, "set up"); Itr I; I.b[0] = VD{9., 0.}; I.b[2] = VD{0.}; fx.curr(I); fx.data->Set_mu(.25); fx.opt().SetIntegerValue("max_soc", 0); SmartPtr<FilterLSAcceptor> acc = new FilterLSAcceptor(NULL); CHECK(acc->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, fx.opt(), ""), "initialization"); fx.delta(I); fx.trial(I); acc->InitThisLineSearch(false); if( symbf("filter entry") ) acc->UpdateForNextIteration(.5); I.b[0][1] = 4.; fx.curr(I); acc->InitThisLineSearch(false); Resto R(fx); R.data->InitializeDataStructures(*R.nlp, false, false, false, false, false); R.data->Set_mu(.25); SmartPtr<RestoFilterConvergenceCheck> u = new RestoFilterConvergenceCheck; u->SetOrigLSAcceptor(*acc); CHECK(u->Initialize(fx.jn(), *R.nlp, *R.data, *R.cq, fx.opt(), "resto."), "initialization"); typedef ConvergenceCheck C;
   for( int k = 0; k < 2; k++ ) { SmartPtr<IteratesVector> v = R.data->curr()->MakeNewIteratesVector(true); VD px{k ? symdi("x", 0) : 9., k ? symdi("x", 1) : 4., .25, 5.}; if( k ) for( int i = 0; i < 2; i++ ) ASSUME((px[i] > -50.) & (px[i] < 50.)); Resto::fill(*v->GetCompNonConst(0), px); Resto::fill(*v->GetCompNonConst(2), VD{1000.}); Resto::fill(*v->GetCompNonConst(4), VD{2., 2.}); R.data->set_trial(v); R.data->AcceptTrialPoint(); int got = (int) u->CheckConvergence(false); if( k == 0 ) { CHECK(got == C::CONTINUE, "at least one iteration"); continue; } double th = px[0] + px[1] - 1.; if( D(th < 0.) ) th = -th; double b = .5 * px[0] + px[1]; bool small = D(th <= .9 * 12.); bool w = small && acc->IsAcceptableToCurrentFilter(b, th) && acc->IsAcceptableToCurrentIterate(b, th, true); CHECK((got == C::CONVERGED) == w, "left exactly with a point acceptable to the original filter and iterate"); CHECK(got == C::CONVERGED || got == C::CONTINUE, "decision"); REACH("accepted"); }
}
extern "C" int sym_main()
{
   int c = __sym_case(); if( c < 3 ) functions(c); else if( c < 6 ) initial(c - 3); else if( c == 6 ) finish(false, 0); else if( c == 7 ) finish(true, 1); else if( c == 8 ) finish(false, 2); else if( c == 9 ) finish(false, 3); else if( c < 14 ) leave(c - 10); else if( c == 15 ) follow(); else filter();
   return 0;
}
