//! {"quick":["0-16"],"thorough":["0-16","50-62"],"level":"model_checking",
//!  "reach":["removed","accepted","rejected","filter","armijo","reset","noreset","watchdog","tmax","soc accepted","soc failed","soc evalerror","soc stopped","alphamin","resto","histories"],
//!  "bounds":["filter: every sequence of 4 (thorough: 5) additions and queries in 1, 2 and 3 coordinates, all values","limit on the objective increase: 7 reference values and 7 increases of all magnitudes, default and raised limit","acceptance of one trial point: up to 2 filter entries, all merit values, directional derivatives, step sizes and tolerances","histories of up to 3 line searches with up to 2 trial points, resets of the filter, watchdog and restoration in between","second-order corrections: up to 3 corrections with arbitrary corrected steps, trial points, failing evaluations, failing linear solver"],
//!  "assumptions":["real arithmetic; powers and logarithms as functions of which only monotonicity facts are known"],
//!  "outside":["corrector steps (experimental)"]}
#include "fix.h"
#include "IpFilterLSAcceptor.hpp"
#include "IpFilter.hpp"
static bool D(bool c) { return __sym_decide(c) != 0; }
static void filter(int dim, int steps)
{
   Filter f(dim); std::vector<VD> all;
   for( int st = 0; st < steps; st++ )
   {
      VD v; for( int i = 0; i < dim; i++ ) v.push_back(symdi("v", i)); bool add = st + 1 < steps && symbf("add"); bool ok = true;
      for( size_t k = 0; k < all.size(); k++ ) { bool better = false; for( int i = 0; i < dim; i++ ) better = better | (v[i] <= all[k][i]); ok = ok & better; }
      CHECK(f.Acceptable(v) == ok, "acceptable exactly if better in some coordinate than every entry");
      if( add ) { f.AddEntry(v, st); all.push_back(v); CHECK(f.Acceptable(v) == ok, "an entry does not exclude itself"); if( all.size() > 1 ) REACH("removed"); }
      if( !ok ) REACH("filter");
   }
   f.Clear(); VD v(dim, 1e300); CHECK(f.Acceptable(v), "empty filter accepts everything");
}
struct Opt { double tmaxf, tminf, eta, delta, sphi, sth, gphi, gth, amf, omi; int mfr, frt; };
struct LS   // reference of the documented acceptance test
{
   Opt o; double tmax, tmin, th, ba, gd, wth, wba, wgd; std::vector<VD> flt; int nres, cnt; bool last;
   LS() : tmax(-1.), tmin(-1.), nres(0), cnt(0), last(false) {}
   void ref(double t, double b, double g) { th = t; ba = b; gd = g; }
   static bool le(double a, double b, double base) { return a - b <= 10. * 2.220446049250313e-16 * vabs(base); }
   bool ftype(double a) { if( D(th == 0.) && D(gd > 0.) && D(gd < 100. * 2.220446049250313e-16) ) gd = -2.220446049250313e-16; if( !D(gd < 0.) ) return false; return a * std::pow(-gd, o.sphi) > o.delta * std::pow(th, o.sth); }
   bool armijo(double a, double b) { return le(b - ba, o.eta * a * gd, ba); }
   bool current(double t, double b) { if( D(b > ba) ) { double base = 1.; if( D(vabs(ba) > 10.) ) base = std::log10(vabs(ba)); if( D(std::log10(b - ba) > o.omi + base) ) return false; } return le(t, (1. - o.gth) * th, th) || le(b - ba, -o.gphi * th, ba); }
   bool infilter(double t, double b) { for( size_t k = 0; k < flt.size(); k++ ) if( !D((b <= flt[k][0]) | (t <= flt[k][1])) ) return false; return true; }
   void augment() { flt.push_back(VD{ba - o.gphi * th, (1. - o.gth) * th}); }
   bool accept(double a, double t, double b)
   {
      if( tmax < 0. ) { tmax = o.tmaxf * vmax(1., th); tmin = o.tminf * vmax(1., th); }
      if( D(t > tmax) ) { last = false; REACH("tmax"); return false; }
      bool ok = a > 0. && D(ftype(a)) && D(th <= tmin) ? D(armijo(a, b)) : D(current(t, b)); if( !ok ) { last = false; return false; }
      if( !infilter(t, b) ) { last = true; REACH("filter"); return false; }
      if( o.mfr > 0 ) { if( last ) { if( ++cnt >= o.frt ) { if( nres < o.mfr ) { nres++; flt.clear(); cnt = 0; REACH("reset"); } else REACH("noreset"); } } else cnt = 0; }
      last = false; return true;
   }
};
// objective = x0, constraint x1 = 0 (violation |x1|): both values and the slope are free
static SmartPtr<QTNLP> toy(bool bound) { SmartPtr<QTNLP> t = new QTNLP(bound ? 3 : 2, bound ? 2 : 1); t->c[0] = 1.; Trip a = {0, 1, 1.}; t->A.push_back(a); t->gl[0] = t->gu[0] = 0.; if( bound ) { t->xl[2] = 0.; t->x0[2] = 1.; Trip b = {1, 2, 1.}; t->A.push_back(b); t->gl[1] = -2e19; t->gu[1] = 50.; } return t; }
static Opt options(OptionsList& o, int kind)
{
   Opt p = {1e4, 1e-4, 1e-8, 1., 2.3, 1.1, 1e-8, 1e-5, .05, 5., 0, 5};
   if( kind & 1 ) { p.tmaxf = symd("tmaxf"); ASSUME(p.tmaxf > 0.); p.tminf = symd("tminf"); ASSUME(p.tminf > 0.); ASSUME(p.tminf < p.tmaxf); p.eta = symd("eta"); ASSUME(p.eta > 0.); ASSUME(p.eta < .5); p.delta = symd("delta"); ASSUME(p.delta > 0.); p.gphi = symd("gphi"); ASSUME(p.gphi > 0.); ASSUME(p.gphi < 1.); p.gth = symd("gth"); ASSUME(p.gth > 0.); ASSUME(p.gth < 1.); p.amf = symd("amf"); ASSUME(p.amf > 0.); ASSUME(p.amf < 1.); p.omi = symd("omi"); ASSUME(p.omi > 1.); }
   if( kind & 2 ) { p.mfr = 1; p.frt = symfork("trigger", 1, 2); }
   o.SetNumericValue("theta_max_fact", p.tmaxf); o.SetNumericValue("theta_min_fact", p.tminf); o.SetNumericValue("eta_phi", p.eta); o.SetNumericValue("delta", p.delta); o.SetNumericValue("s_phi", p.sphi); o.SetNumericValue("s_theta", p.sth); o.SetNumericValue("gamma_phi", p.gphi); o.SetNumericValue("gamma_theta", p.gth); o.SetNumericValue("alpha_min_frac", p.amf); o.SetNumericValue("obj_max_inc", p.omi); o.SetIntegerValue("max_filter_resets", p.mfr); o.SetIntegerValue("filter_reset_trigger", p.frt); 
   return p;
}
struct Pt { double f, v; };
static void settrial(Fix& fx, double f, double v) { Itr I; I.b[0] = VD{f, v}; for( int k = 1; k < 8; k++ ) I.b[k] = VD(fx.dim(k), 0.); fx.trial(I); }
static bool limited;   // limited: moderate merit values and descent directions
static int script; static const double SCR[12] = {0., 1., 5., 4., 4., 3., 9., .5, 8., 4.5, 8., .1};
#define SV(n) (script >= 0 && script < 12 ? SCR[script++] + symd(n, 0., .01) : limited ? symd(n, -9., 9.) : symd(n))
#define SG(n) (limited ? symd(n, -9., -1.) : symd(n))
static void searches(int kind, int nls, int ntr, int nent, int mode, bool lim = false)
{
   limited = lim; script = mode == 4 ? 0 : -1; Fix fx; OptionsList& o = fx.opt(); LS r; r.o = options(o, kind); if( lim ) { r.o.omi = 100.; o.SetNumericValue("obj_max_inc", 100.); } o.SetIntegerValue("max_soc", 0); fx.build(toy(false)); CHECK(fx.ok, "set up"); fx.data->Set_mu(.1); fx.data->Set_tau(.99);
   SmartPtr<FilterLSAcceptor> s = new FilterLSAcceptor(NULL); CHECK(s->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization");
   double cf = 0., cv = 0., g = 0.; bool firstf = lim && nls > 1 && mode == 3 && symbf("first step reduces the objective"); bool wd = false; static const char* nl[4] = {"f", "v", "g", "a"};
   for( int ls = 0; ls < nent + nls; ls++ )
   {
      bool ent = ls < nent; if( ls == 0 || ent || (mode == 4 && ls == nent) ) { cf = SV("f"); cv = firstf && ls == 0 ? 0. : SV("v"); settrial(fx, cf, cv); fx.data->AcceptTrialPoint(); }
      g = SG("g"); Itr dl; dl.b[0] = VD{g, symd("w")}; for( int k = 1; k < 8; k++ ) dl.b[k] = VD(fx.dim(k), 0.); fx.delta(dl); double th = vabs(cv);
      if( ent ) { r.ref(th, cf, g); r.augment(); s->PrepareRestoPhaseStart(); REACH("resto"); continue; }
      int wact = mode == 1 ? (lim ? (ls == nent ? 1 : 2 * symfork("watchdog", 0, 1)) : symfork("watchdog", 0, 2)) : 0; if( wact == 1 && !wd ) { s->StartWatchDog(); wd = true; r.wth = th; r.wba = cf; r.wgd = g; }
      bool use = wd && wact == 2; s->InitThisLineSearch(use); if( use ) { r.ref(r.wth, r.wba, r.wgd); REACH("watchdog"); } else r.ref(th, cf, g);
      if( mode == 2 ) { if( nent ) r.tmin = -1.; double am = r.o.gth; if( D(g < 0.) ) { am = vmin(am, r.o.gphi * th / (-g)); if( r.tmin >= 0. && D(th <= r.tmin) ) am = vmin(am, r.o.delta * std::pow(th, r.o.sth) / std::pow(-g, r.o.sphi)); } CHECKEQ(s->CalculateAlphaMin(), r.o.amf * am, "smallest step size before restoration"); REACH("alphamin"); }
      bool acc = false; double a = 0.; double tf = 0., tv = 0.;
      for( int k = 0; k < ntr && !acc; k++ )
      {
         a = symd("alpha"); ASSUME(a >= 0.); ASSUME(a <= 1.); tf = SV("tf"); tv = SV("tv"); settrial(fx, tf, tv);
         if( lim && mode != 4 && ls == nent && ls + 1 < nent + nls ) { if( firstf ) { ASSUME(tf <= cf - 1.); ASSUME(tv == 0.); ASSUME(a > .1); } else { ASSUME(vabs(cv) >= 1.); ASSUME(2. * vabs(tv) <= vabs(cv)); } }
         bool e = r.accept(a, vabs(tv), tf), q = s->CheckAcceptabilityOfTrialPoint(a); CHECK(q == e, "trial point is accepted exactly if the documented conditions hold"); acc = q; REACH(acc ? "accepted" : "rejected");
      }
      if( use && symbf("stop watchdog") ) { s->StopWatchDog(); r.ref(r.wth, r.wba, r.wgd); wd = false; }
      if( acc ) { bool f = D(r.ftype(a)) && D(r.armijo(a, tf)); if( !f ) r.augment(); else REACH("armijo"); char ch = s->UpdateForNextIteration(a); CHECK(ch == (f ? 'f' : 'h'), "filter is augmented exactly if the switching or the Armijo condition fails"); fx.data->AcceptTrialPoint(); cf = tf; cv = tv; }
      else if( mode == 4 ) CHECK(false, "script"); else if( ls + 1 < nent + nls ) { r.ref(vabs(cv), cf, r.gd); r.augment(); s->PrepareRestoPhaseStart(); REACH("resto"); cf = SV("f"); cv = SV("v"); settrial(fx, cf, cv); fx.data->AcceptTrialPoint(); }
      if( mode == 3 && ls + 1 < nent + nls && symbf("barrier parameter changes") ) { s->Reset(); r.flt.clear(); r.last = false; r.cnt = 0; }
   }
}
// second-order corrections
struct MockPD: public PDSystemSolver
{
   Fix* fx; std::vector<Itr> out; int calls; Itr last; double al, be; bool inex; int failat; std::vector<VD> cs, ds; 
   MockPD() : fx(NULL), calls(0), failat(-1) {}
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool Solve(Number alpha, Number beta, const IteratesVector& rhs, IteratesVector& res, bool allow, bool improve)
   {
      al = alpha; be = beta; inex = allow && !improve; for( int k = 0; k < 8; k++ ) { VD v; dvget(*rhs.GetComp(k), v); last.b[k] = v; } if( calls == failat ) { calls++; return false; }
      CHECK(calls < (int) out.size(), "number of corrections"); for( int k = 0; k < 8; k++ ) static_cast<DenseVector*>(GetRawPtr(res.GetCompNonConst(k)))->SetValues(out[calls].b[k].size() ? &out[calls].b[k][0] : NULL); calls++; return true;
   }
};
static void soc(int maxsoc, int method, bool evalfail)
{
   Fix fx; OptionsList& o = fx.opt(); LS r; r.o = options(o, 0); double kap = symd("kappa"); ASSUME(kap > 0.); o.SetNumericValue("kappa_soc", kap); o.SetIntegerValue("max_soc", maxsoc); o.SetIntegerValue("soc_method", method); o.SetNumericValue("kappa_d", 0.);
   fx.build(toy(true)); CHECK(fx.ok, "set up"); fx.data->Set_mu(.1); double tau = .5; fx.data->Set_tau(tau); Ref R(*fx.t);
   SmartPtr<MockPD> pd = new MockPD; pd->fx = &fx; SmartPtr<FilterLSAcceptor> s = new FilterLSAcceptor(GetRawPtr(pd)); CHECK(s->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization");
   Itr C; C.b[0] = VD{symd("f"), symd("v"), 1.}; C.b[1] = VD{symd("s")}; ASSUME(C.b[1][0] < 49.); C.b[2] = VD{symd("yc")}; C.b[3] = VD{symd("yd")}; C.b[4] = VD{symd("z", 0., 10.)}; C.b[7] = VD{symd("vu", 0., 10.)}; fx.curr(C);
   Itr dl = C; dl.b[0] = VD{symd("gf"), symd("gv"), 0.}; dl.b[1] = VD{0.}; fx.delta(dl); SmartPtr<IteratesVector> act = fx.data->delta()->MakeNewContainer(), act0; act0 = act;
   s->InitThisLineSearch(false); double th = R.pinf1(C);
   Itr T = C; T.b[0] = VD{symd("tf"), symd("tv"), 1.}; fx.trial(T); double a = 1., ap = symd("alpha", 0., 1.), ap0 = ap, apt = ap;
   // corrected steps keep the bounded variable and the slack (so the barrier terms cancel) unless shortened by the bound
   for( int k = 0; k < maxsoc; k++ ) { Itr X = C; X.b[0] = VD{symdi("sf", k), symdi("sv", k), k == 0 ? -1. : 0.}; X.b[1] = VD{0.}; pd->out.push_back(X); }
   if( symbf("solver fails") ) pd->failat = symfork("fails at", 0, maxsoc - 1);
   int nf0 = fx.t->n_f; if( evalfail ) { fx.cq->trial_constraint_violation(); fx.cq->trial_barrier_obj(); fx.cq->curr_grad_lag_with_damping_x(); fx.cq->curr_grad_lag_with_damping_s(); fx.t->fail_at = fx.t->calls + symfork("evaluation fails at", 0, 2 * maxsoc - 1); }
   bool got = false, thrown = false; try { got = s->TrySecondOrderCorrection(a, ap, act); } catch( IpoptNLP::Eval_Error& ) { thrown = true; }
   CHECK(!thrown, "evaluation errors are handled"); CHECK(pd->calls <= maxsoc, "number of corrections");
   // documented recursion
   VD cs = R.c(C), dd = R.dms(C); double tt = R.pinf1(T), told = 0.; Itr cur = T; int n = 0; bool acc = false, failed = false; (void) th; (void) nf0; (void) told; (void) tt; (void) failed; (void) n;
   if( pd->calls > 0 ) { VD tc = R.c(T), td = R.dms(T); int last = pd->calls - 1; double al = ap0;
      for( int k = 0; k <= last; k++ ) { for( size_t i = 0; i < cs.size(); i++ ) cs[i] = al * cs[i] + tc[i]; for( size_t i = 0; i < dd.size(); i++ ) dd[i] = al * dd[i] + td[i]; if( k == last ) break; al = k == 0 ? tau : 1.; Itr N = C; for( int i = 0; i < 3; i++ ) N.b[0][i] = C.b[0][i] + al * pd->out[k].b[0][i]; apt = al; tc = R.c(N); td = R.dms(N); cur = N; }
      CHECKEQ(pd->last.b[2][0], cs[0], "right-hand side of the correction"); CHECKEQ(pd->last.b[3][0], dd[0], "right-hand side of the correction"); CHECKEQ(pd->al, -1., "sign of the right-hand side"); CHECKEQ(pd->be, 0., "old solution is overwritten");
      double f = method == 1 ? (last == 0 ? ap0 : last == 1 ? tau : 1.) : 1.; VD gx = R.gradLx(C), gs = R.gradLs(C); for( int i = 0; i < 3; i++ ) CHECKEQ(pd->last.b[0][i], f * gx[i], "right-hand side of the correction (x)"); CHECKEQ(pd->last.b[1][0], f * gs[0], "right-hand side of the correction (s)");
      CHECKEQ(pd->last.b[4][0], R.slack(C, 0) * C.b[4][0] - .1, "right-hand side of the correction (z)"); CHECKEQ(pd->last.b[7][0], R.slack(C, 1) * C.b[7][0] - .1, "right-hand side of the correction (v)");
   }
   if( got ) { int k = pd->calls - 1; double al = k == 0 ? tau : 1.; VD g; dvget(*act->x(), g); for( int i = 0; i < 3; i++ ) CHECKEQ(g[i], pd->out[k].b[0][i], "accepted direction is the corrected one"); CHECKEQ(ap, al, "step size of the corrected step"); VD x; dvget(*fx.data->trial()->x(), x); for( int i = 0; i < 3; i++ ) CHECKEQ(x[i], C.b[0][i] + al * pd->out[k].b[0][i], "trial point of the corrected step"); REACH("soc accepted"); acc = true; }
   else { CHECKEQ(ap, ap0, "step size is untouched if the correction fails"); CHECK(GetRawPtr(act) == GetRawPtr(act0), "direction is untouched if the correction fails"); REACH("soc failed"); if( evalfail && fx.t->calls == fx.t->fail_at + 1 ) REACH("soc evalerror"); }
   // stopping rule
   if( !got && pd->calls < maxsoc && pd->failat < 0 && !evalfail ) { double t0 = pd->calls == 1 ? R.pinf1(T) : 0.; if( pd->calls == 1 ) { Itr N = C; for( int i = 0; i < 3; i++ ) N.b[0][i] = C.b[0][i] + tau * pd->out[0].b[0][i]; CHECK(R.pinf1(N) > kap * t0, "corrections stop early only if the violation was not reduced enough"); REACH("soc stopped"); } }
   if( pd->calls >= 2 ) { Itr N = C; for( int i = 0; i < 3; i++ ) N.b[0][i] = C.b[0][i] + tau * pd->out[0].b[0][i]; CHECK(R.pinf1(N) <= kap * R.pinf1(T), "another correction only if the violation was reduced enough"); }
   (void) acc; (void) apt;
}
static void jump()
{ // limit on the increase of the barrier objective: reference and trial values of all magnitudes
   static const double F[7] = {-1e6, -50., -5., 0., 5., 50., 1e6}, INC[7] = {1., 3e5, 3e6, 3e7, 3e10, 3e11, 3e12}; double f = F[symfork("reference", 0, 6)], inc = INC[symfork("increase", 0, 6)];
   script = -1; Fix fx; OptionsList& o = fx.opt(); bool off = symbf("limit raised"); if( off ) o.SetNumericValue("obj_max_inc", 9.); o.SetIntegerValue("max_soc", 0); fx.build(toy(false)); CHECK(fx.ok, "set up"); fx.data->Set_mu(.1); fx.data->Set_tau(.99);
   SmartPtr<FilterLSAcceptor> s = new FilterLSAcceptor(NULL); CHECK(s->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization"); settrial(fx, f, 1.); fx.data->AcceptTrialPoint();
   Itr dl; dl.b[0] = VD{.5, -1.}; for( int k = 1; k < 8; k++ ) dl.b[k] = VD(fx.dim(k), 0.); fx.delta(dl); s->InitThisLineSearch(false); double tv = symd("tv", 0., .5); settrial(fx, f + inc, tv);
   double lim = (off ? 1e9 : 1e5) * (vabs(f) > 10. ? vabs(f) : 10.); bool q = s->CheckAcceptabilityOfTrialPoint(.5); CHECK(q == (inc <= lim), "a trial point is rejected exactly if the objective increases by more than the permitted orders of magnitude"); REACH(q ? "accepted" : "rejected");
}
static void resets()
{ // histories of line searches whose trial points are rejected for different reasons
   Fix fx; OptionsList& o = fx.opt(); LS r; r.o = options(o, 0); r.o.mfr = symfork("resets", 1, 2); r.o.frt = symfork("trigger", 1, 2); o.SetIntegerValue("max_filter_resets", r.o.mfr); o.SetIntegerValue("filter_reset_trigger", r.o.frt); o.SetIntegerValue("max_soc", 0); fx.build(toy(false)); CHECK(fx.ok, "set up"); fx.data->Set_mu(.1); fx.data->Set_tau(.99);
   SmartPtr<FilterLSAcceptor> s = new FilterLSAcceptor(NULL); CHECK(s->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization"); double cf = 0., cv = 1.; static const double AF[4] = {9., 8., 9., 8.}, AV[4] = {.5, .1, .02, .004};
   for( int ls = -1; ls < 3; ls++ ) { double e = symd("e", 0., .0001); if( ls < 1 ) { cf = ls < 0 ? 0. : 5. + e; cv = ls < 0 ? 1. : 4.; settrial(fx, cf, cv); fx.data->AcceptTrialPoint(); } double g = -1.; Itr dl; dl.b[0] = VD{g, 1.}; for( int k = 1; k < 8; k++ ) dl.b[k] = VD(fx.dim(k), 0.); fx.delta(dl);
      if( ls < 0 ) { r.ref(cv, cf, g); r.augment(); s->PrepareRestoPhaseStart(); continue; }
      s->InitThisLineSearch(false); r.ref(cv, cf, g); bool acc = false; double a = 0., tf = 0., tv = 0.; int nrej = symfork("rejected trial points", 0, ls < 2 ? 2 : 1);
      for( int k = 0; k <= nrej && !acc; k++ ) { int kind = k == nrej ? 3 : symfork("kind of rejection", 0, 2); a = .5; if( kind == 0 ) { tf = ls == 0 ? 4. : cf - 1.; tv = ls == 0 ? 3. : 4.5; } else if( kind == 1 ) { tf = cf + .5; tv = cv * 1.5; } else if( kind == 2 ) { tf = cf - 100.; tv = 1e6; } else { tf = AF[ls]; tv = AV[ls]; } tf += e; settrial(fx, tf, tv);
         bool x = r.accept(a, tv, tf), q = s->CheckAcceptabilityOfTrialPoint(a); CHECK(q == x, "trial point is accepted exactly if the documented conditions hold, whatever was rejected before"); acc = q; if( q != x ) return; }
      if( !acc ) return; bool f = D(r.ftype(a)) && D(r.armijo(a, tf)); if( !f ) r.augment(); char ch = s->UpdateForNextIteration(a); CHECK(ch == (f ? 'f' : 'h'), "filter is augmented exactly if the switching or the Armijo condition fails"); fx.data->AcceptTrialPoint(); cf = tf; cv = tv; REACH("histories"); }
}
extern "C" int sym_main()
{
   int c = __sym_case();
   switch( c ) {
   case 0: case 1: case 2: filter(c + 1, 4); break;
   case 3: searches(0, 1, 1, 0, 0); break; case 4: searches(1, 1, 1, 0, 0); break; case 5: searches(0, 1, 1, 2, 0); break; case 6: searches(1, 1, 1, 1, 2); break;
   case 7: searches(2, 1, 2, 1, 0, true); break; case 8: searches(0, 2, 1, 0, 1, true); break; case 9: searches(0, 2, 1, 0, 3, true); break; case 10: searches(0, 2, 1, 0, 2, true); break;
   case 11: soc(1, 0, false); break; case 12: soc(2, 0, false); break; case 13: soc(2, 1, true); break;
   case 15: jump(); break; case 16: resets(); break; case 14: searches(2, 2, 2, 1, 4, true); break;
   case 50: case 51: case 52: filter(c - 49, 5); break; case 53: searches(2, 2, 2, 1, 0); break; case 54: searches(0, 3, 1, 0, 1); break; case 55: searches(0, 2, 2, 1, 3); break; case 56: searches(2, 3, 2, 1, 0); break;
   case 57: searches(1, 2, 1, 1, 2); break; case 58: soc(3, 0, false); break; case 59: soc(3, 1, false); break; case 60: soc(3, 0, true); break; case 61: searches(1, 2, 1, 0, 1); break; case 62: searches(1, 1, 2, 2, 0); break;
   }
   return 0;
}
