//! {"quick":["0-3","10-16","30-34"],"thorough":["0-3","10-16","30-34","50-53","61","62","65","72"],"level":"model_checking",
//!  "reach":["decrease","keep","fast","tiny","tinychange","target","free","fixed","back","switch","skipped","restored","nobounds","oraclefail","fixoracle","probing","probefail","loqo"],
//!  "bounds":["monotone updates: every history of 2 (thorough: 3) updates of a three-variable problem with arbitrary constraint violation and multiplier, two sets of parameters, three target values, with and without tiny steps; fast decrease on and off; restoration phase","adaptive updates: every history of 3 updates with arbitrary objective and constraint values, tiny and skipped steps, oracle answers from a set of four (2 updates: arbitrary), all globalization strategies, restoring or not, with and without oracle for the fixed mode","oracles: LOQO rule for all multipliers; probing rule for all steps of the affine system and (limits only) all iterates; problems with 2 and 4 bounds"],
//!  "assumptions":["real arithmetic","the error measures used are those checked by C23","the linear system of the probing rule is solved by a stand-in with arbitrary results"],
//!  "outside":["quality function oracle","centrality and balancing terms of the KKT error"]}
#include "fix.h"
#include "IpMonotoneMuUpdate.hpp"
#include "IpAdaptiveMuUpdate.hpp"
#include "IpLoqoMuOracle.hpp"
#include "IpProbingMuOracle.hpp"
#include "IpLineSearch.hpp"
#include "IpPDSystemSolver.hpp"
static bool D(bool c) { return __sym_decide(c) != 0; }
struct MockLS: public LineSearch
{
   int resets, rig; bool skipped; MockLS() : resets(0), rig(0), skipped(false) {}
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   void FindAcceptableTrialPoint() { CHECK(false, "no line search in the update of the barrier parameter"); }
   void Reset() { resets++; } void SetRigorousLineSearch(bool r) { rig += r ? 1 : 100; } bool CheckSkippedLineSearch() { return skipped; } bool ActivateFallbackMechanism() { return false; }
};
struct MockOracle: public MuOracle
{
   double v; bool ok; int calls; double lo, hi; MockOracle() : v(0.), ok(true), calls(0), lo(0.), hi(0.) {}
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool CalculateMu(Number a, Number b, Number& m) { calls++; lo = a; hi = b; if( !ok ) return false; m = v; return true; }
};
// x0 >= 0 with multiplier z, x1 free with the constraint x1 = 0, x2 free with objective x2/4
static SmartPtr<QTNLP> toy(bool bound, bool small = false) { SmartPtr<QTNLP> t = new QTNLP(3, 1); if( bound ) t->xl[0] = 0.; t->x0[0] = 1.; t->c[2] = small ? 0. : .25; Trip a = {0, 1, 1.}; t->A.push_back(a); return t; }
static bool ZS = true; static int ZC = 0;
static Itr point(bool bound = true, bool small = false) { Itr I; I.b[0] = VD{1., symd("v"), small ? 0. : symd("w")}; I.b[2] = VD{0.}; if( bound ) I.b[4] = VD{ZS ? symd("z", 0., 10.) : ZC ? (ZC++ & 1 ? .5 : 4.) : symfork("z", 0, 1) ? 4. : .5}; return I; }
static double barerr(Fix& fx, double mu) { double m = fx.data->curr_mu(); fx.data->Set_mu(mu); double e = fx.cq->curr_barrier_error(); fx.data->Set_mu(m); return e; }
static double decreased(double mu, double lin, double pw, double target, double floor_) { double s = std::pow(mu, pw); double n; if( D(lin * mu < s) ) n = lin * mu; else n = s; if( D(n < target) ) n = target; if( D(n < floor_) ) n = floor_; return n; }
struct Par { double init, ktol, lin, pw, taumin, target, ctol, tol; };
static Par params(OptionsList& o, int simple)
{
   Par p = {.1, 10., .2, 1.5, .99, 0., 1e-4, 1e-8}; if( !simple ) { p.ktol = 2.; p.lin = .5; p.taumin = .3; p.ctol = 1e-3; } if( simple == 2 ) { p.init = .125; p.ktol = 7.; p.lin = .25; p.ctol = 1. / 8192.; p.tol = 1. / (1 << 26); p.taumin = .75; } static const double TG[3] = {0., 1. / 1024., .5}; int tg = symfork("target", 0, simple == 2 ? 1 : 2); p.target = TG[simple == 2 ? 2 * tg : tg];
   o.SetNumericValue("mu_init", p.init); o.SetNumericValue("barrier_tol_factor", p.ktol); o.SetNumericValue("mu_linear_decrease_factor", p.lin); o.SetNumericValue("mu_superlinear_decrease_power", p.pw); o.SetNumericValue("tau_min", p.taumin); o.SetNumericValue("mu_target", p.target); o.SetNumericValue("compl_inf_tol", p.ctol); o.SetNumericValue("tol", p.tol); return p;
}
static void monotone(int k, int steps)
{
   Fix fx; OptionsList& o = fx.opt(); Par p = params(o, k != 1); bool fast = k != 2; o.SetStringValue("mu_allow_fast_monotone_decrease", fast ? "yes" : "no"); bool resto = k == 3; if( k == 3 ) { p.init = 1e-10; o.SetNumericValue("mu_init", p.init); }
   fx.build(toy(true, true)); CHECK(fx.ok, "set up"); SmartPtr<MockLS> ls = new MockLS; SmartPtr<MonotoneMuUpdate> u = new MonotoneMuUpdate(GetRawPtr(ls)); CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, resto ? "resto." : ""), "initialization");
   CHECKEQ(fx.data->curr_mu(), p.init, "initial barrier parameter"); CHECKEQ(fx.data->curr_tau(), vmax(p.taumin, 1. - p.init), "initial fraction to the boundary"); double mu = p.init, tau = fx.data->curr_tau(); bool first = true;
   for( int st = 0; st < steps; st++ )
   {
      fx.curr(point(true, true)); bool tiny = symbf("tiny step"); fx.data->Set_tiny_step_flag(tiny); int r0 = ls->resets; double mu0 = mu; bool thr = false, ethr = false, any = false; double fl = vmin(p.tol, p.ctol) / (p.ktol + 1.);
      // documented rule
      bool skip = resto && first, t = tiny; double e = barerr(fx, mu); int n = 0;
      while( !skip && (t || D(e <= p.ktol * mu)) )
      {
         double nm = decreased(mu, p.lin, p.pw, p.target, fl); bool ch = D(nm != mu); if( t && !ch ) { ethr = true; break; } mu = nm; if( ch ) any = true; tau = vmax(p.taumin, 1. - mu); if( ch && ++n > 1 ) REACH("fast");
         if( !ch || (!first && !fast) ) break; e = barerr(fx, mu); t = false; if( n > 6 ) return;
      }
      try { CHECK(u->UpdateBarrierParameter(), "update succeeds"); } catch( TINY_STEP_DETECTED& ) { thr = true; }
      CHECK(thr == ethr, "no further progress is reported exactly for tiny steps with the smallest barrier parameter"); if( thr ) { REACH("tiny"); return; } CHECK(!fx.data->tiny_step_flag(), "tiny step is noted once");
      CHECKEQ(fx.data->curr_mu(), mu, "barrier parameter"); CHECKEQ(fx.data->curr_tau(), tau, "fraction to the boundary"); CHECK((ls->resets > r0) == any, "line search is reset exactly if the barrier parameter changes"); if( any ) REACH("decrease"); else REACH("keep"); if( tiny ) REACH("tinychange");
      if( p.target > 0. && any && D(mu == p.target) ) REACH("target"); if( D(mu0 >= vmax(p.target, fl)) ) CHECK(mu <= mu0 && mu >= vmax(p.target, fl), "barrier parameter decreases towards its target"); first = false;
   }
}
static double err(const Ref& R, const Itr& I, int norm) { VD g = R.gradLx(I); double c = R.c(I)[0], q = I.b[0][0] * I.b[4][0]; if( norm == 2 ) return (g[0] * g[0] + g[1] * g[1] + g[2] * g[2]) / 3. + c * c + q * q; if( norm == 1 ) return (vabs(g[0]) + vabs(g[1]) + vabs(g[2])) / 3. + vabs(c) + vabs(q); return vmax(vmax(vabs(g[0]), vabs(g[1])), vabs(g[2])) + vabs(c) + vabs(q); }
static double oval(const char* n, int st) { static const double V[4] = {.25, 0., 1000., 1.5}; return ZS ? symd(n, 0., 1000.) : V[(st + symfork(n, 0, 1)) & 3]; }
static void adaptive(int k, int steps, bool zs)
{
   ZS = zs; ZC = k == 1 || k == 4;    Fix fx; OptionsList& o = fx.opt(); Par p = params(o, 2); static const char* GN[3] = {"kkt-error", "obj-constr-filter", "never-monotone-mode"}; int gl = k == 0 || k == 3 || k == 5 ? 0 : k == 2 ? 2 : 1; o.SetStringValue("adaptive_mu_globalization", GN[gl]); bool rest = k == 4 || k == 5; o.SetStringValue("adaptive_mu_restore_previous_iterate", rest ? "yes" : "no");
   int nref = 2, norm = k == 0 ? 1 : 3; double rf = .875; double mf = .5, mm = 2.; o.SetIntegerValue("adaptive_mu_kkterror_red_iters", nref); o.SetNumericValue("adaptive_mu_kkterror_red_fact", rf); o.SetNumericValue("filter_margin_fact", mf); o.SetNumericValue("filter_max_margin", mm); o.SetStringValue("quality_function_norm_type", norm == 1 ? "1-norm" : "max-norm");
   bool gm = k == 1 || k == 4 ? p.target == 0. : symbf("mu max given"); double mumax = gm ? 2. : -1., mumaxf = 50.; if( gm ) o.SetNumericValue("mu_max", mumax); else o.SetNumericValue("mu_max_fact", mumaxf); double mumin = 1. / (1 << 20); o.SetNumericValue("mu_min", mumin); double minit = .75; o.SetNumericValue("adaptive_mu_monotone_init_factor", minit);
   bool bound = k != 6; SmartPtr<QTNLP> q = toy(bound); fx.build(q); CHECK(fx.ok, "set up"); Ref R(*q); SmartPtr<MockLS> ls = new MockLS; SmartPtr<MockOracle> fo = new MockOracle, xo = new MockOracle; bool hasfix = k == 1 || k == 3; 
   SmartPtr<AdaptiveMuUpdate> u = new AdaptiveMuUpdate(GetRawPtr(ls), GetRawPtr(fo), hasfix ? GetRawPtr(xo) : NULL); CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization"); CHECK(fx.data->FreeMuMode(), "starts in free mode");
   bool freem = true; std::vector<VD> flt; VD refs; double mu = 1., tau = 0.; Itr acc;
   for( int st = 0; st < steps; st++ )
   {
      Itr I = point(bound); if( st && gl != 1 ) {} fx.curr(I); fx.data->Set_iter_count(st); bool tiny = st && symbf("tiny step"); fx.data->Set_tiny_step_flag(tiny); ls->skipped = st && !tiny && symbf("skipped line search"); fo->ok = st + 1 < steps || !symbf("oracle fails"); fo->calls = xo->calls = 0; int r0 = ls->resets, g0 = ls->rig;
      bool thr = false, ret = true; 
      // documented rule
      double E = !bound ? 0. : fx.cq->curr_nlp_error(), lo = vmax(mumin, p.target); bool ethr = false, eret = true; int eres = 0; double et1, et2; 
      if( !bound ) { mu = mumin; et1 = et2 = p.taumin; REACH("nobounds"); }
      else
      {
         if( mumax < 0. ) mumax = mumaxf * (I.b[0][0] * I.b[4][0]);
         bool prog = true; double F = R.f(I), V = vabs(R.c(I)[0]), er = gl == 0 ? err(R, I, norm) : 0.; et1 = et2 = tau;
         if( gl == 0 ) { if( (int) refs.size() >= nref ) { prog = false; for( size_t i = 0; i < refs.size(); i++ ) prog = prog | (er <= rf * refs[i]); prog = D(prog); } }
         if( gl == 1 ) { double m; if( D(E < mm) ) m = mf * E; else m = mf * mm; for( size_t i = 0; i < flt.size() && prog; i++ ) prog = D((F + m <= flt[i][0]) | (V + m <= flt[i][1])); }
         if( !freem )
         {
            if( prog && !tiny ) { freem = true; REACH("back"); if( gl == 0 ) { if( (int) refs.size() >= nref ) refs.erase(refs.begin()); refs.push_back(er); } else flt.push_back(VD{F, V}); acc = I; }
            else if( tiny || D(barerr(fx, mu) <= p.ktol * mu) ) { double nm = decreased(mu, p.lin, p.pw, p.target, vmin(p.ctol, p.tol) / (p.ktol + 1.)); if( tiny && D(nm == mu) ) ethr = true; else { et1 = vmax(p.taumin, 1. - mu); et2 = vmax(p.taumin, 1. - nm); mu = nm; eres++; REACH("fixed"); } }
         }
         else
         {
            if( gl != 2 && (ls->skipped || tiny) ) { prog = false; REACH("skipped"); }
            if( prog ) { if( gl == 0 ) { if( (int) refs.size() >= nref ) refs.erase(refs.begin()); refs.push_back(er); } else if( gl == 1 ) flt.push_back(VD{F, V}); acc = I; }
            else { freem = false; if( rest ) { I = acc; REACH("restored"); } double nm; if( hasfix ) { xo->ok = symbf("fix oracle works"); xo->v = oval("fix oracle", st + 1); } if( hasfix && xo->ok ) { nm = xo->v; REACH("fixoracle"); } else nm = minit * (I.b[0][0] * I.b[4][0]); if( D(nm < lo) ) nm = lo; if( D(nm > mumax) ) nm = mumax; if( tiny && D(nm == mu) ) ethr = true; mu = nm; et1 = et2 = vmax(p.taumin, 1. - nm); eres++; REACH("switch"); }
         }
         if( !ethr && freem ) { et1 = et2 = vmax(p.taumin, 1. - E); if( !fo->ok ) { eret = false; REACH("oraclefail"); } else { double nm = fo->v = oval("oracle", st); if( D(nm < mumin) ) nm = mumin; if( D(nm > mumax) ) nm = mumax; mu = nm; eres++; REACH("free"); } }
      }
      tau = et1;
      try { ret = u->UpdateBarrierParameter(); } catch( TINY_STEP_DETECTED& ) { thr = true; }
      CHECK(thr == ethr, "no further progress is reported exactly for tiny steps that cannot change the barrier parameter"); if( thr ) { REACH("tiny"); return; } CHECK(ret == eret, "failure of the oracle is reported"); if( !ret ) return;
      CHECKEQ(fx.data->curr_mu(), mu, "barrier parameter"); double gt = fx.data->curr_tau(); CHECK(gt == et1 || gt == et2, "fraction to the boundary"); tau = gt; CHECK(fx.data->FreeMuMode() == freem, "mode"); CHECK(!fx.data->tiny_step_flag() || !bound, "tiny step is noted once");
      CHECK((ls->resets > r0) == (eres > 0), "line search is reset exactly if a new barrier problem starts"); if( bound ) CHECK(ls->rig - g0 == (freem ? 0 : 1), "line search is rigorous in fixed mode"); if( fo->calls ) { CHECKEQ(fo->lo, lo, "lower limit given to the oracle"); CHECKEQ(fo->hi, mumax, "upper limit given to the oracle"); }
      VD x; dvget(*fx.data->curr()->x(), x); CHECKEQ(x[0], I.b[0][0], "iterate is changed only to restore the last accepted one"); CHECKEQ(x[1], I.b[0][1], "iterate is changed only to restore the last accepted one"); VD zz; dvget(*fx.data->curr()->y_c(), zz); CHECKEQ(zz[0], I.b[2][0], "multipliers are changed only to restore the last accepted ones");
   }
}
struct MockPD: public PDSystemSolver
{
   Itr out; bool ok; int calls; Itr last; double al, be; MockPD() : ok(true), calls(0), al(0.), be(1.) {}
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool Solve(Number a, Number b, const IteratesVector& rhs, IteratesVector& res, bool, bool) { calls++; al = a; be = b; for( int k = 0; k < 8; k++ ) { VD v; dvget(*rhs.GetComp(k), v); last.b[k] = v; } if( !ok ) return false; for( int k = 0; k < 8; k++ ) static_cast<DenseVector*>(GetRawPtr(res.GetCompNonConst(k)))->SetValues(out.b[k].size() ? &out.b[k][0] : NULL); return true; }
};
static SmartPtr<QTNLP> rich(int k) { SmartPtr<QTNLP> t = new QTNLP(2, 2); bool all = k == 1; t->xl[0] = 0.; if( all ) t->xu[1] = 5.; t->c[0] = 1.; t->c[1] = symd("c1"); Trip a = {0, 0, 1.}, b = {0, 1, 2.}, c = {1, 1, 1.}; t->A.push_back(a); t->A.push_back(b); t->A.push_back(c); t->gl[0] = t->gu[0] = 1.; t->gl[1] = all ? -3. : -2e19; t->gu[1] = 4.; return t; }
static void oracle(int k)
{
   bool probe = k < 2 || k == 4; Fix fx; OptionsList& o = fx.opt(); double smax = 100.; if( probe ) { smax = symd("sigma max"); ASSUME(smax > 0.); o.SetNumericValue("sigma_max", smax); } SmartPtr<QTNLP> q = rich(k == 4 ? 1 : k & 1); fx.build(q); CHECK(fx.ok, "set up"); Ref R(*q); fx.data->Set_mu(.1); fx.data->Set_tau(.9);
   Itr I; I.b[0] = VD{k == 1 ? symd("x0", .01, 50.) : 2., k == 1 ? symd("x1", -50., 4.9) : 1.}; I.b[1] = VD{k == 1 ? symd("s", -2.9, 3.9) : 3.}; I.b[2] = VD{symd("yc")}; I.b[3] = VD{symd("yd")}; for( int b = 4; b < 8; b++ ) for( int i = 0; i < fx.dim(b); i++ ) { std::string s = BN[b]; I.b[b].push_back(k == 4 ? .5 * b : k == 0 || (k == 3 && b > 5) ? 1. : symdi(s.c_str(), i)); ASSUME(I.b[b][i] > 1e-3); ASSUME(I.b[b][i] < 1e3); } fx.curr(I);
   double lo = symd("mu min"), hi = symd("mu max"); ASSUME(lo > 0.); ASSUME(lo <= hi); double nm = -1.; int nb = R.nb(); double av = 0.; for( int j = 0; j < nb; j++ ) av += R.slack(I, j) * R.mult(I, j); av = av / nb;
   if( !probe )
   {
      SmartPtr<LoqoMuOracle> u = new LoqoMuOracle; CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization"); CHECK(u->CalculateMu(lo, hi, nm), "rule succeeds"); double mn = R.slack(I, 0) * R.mult(I, 0); for( int j = 1; j < nb; j++ ) if( D(R.slack(I, j) * R.mult(I, j) < mn) ) mn = R.slack(I, j) * R.mult(I, j);
      double xi = mn / av, f = .05 * (1. - xi) / xi; if( D(f > 2.) ) f = 2.; double e = .1 * f * f * f * av; CHECKEQ(nm, vmax(vmin(hi, e), lo), "LOQO rule"); CHECK(nm >= lo && nm <= hi, "barrier parameter within its limits"); REACH("loqo"); return;
   }
   SmartPtr<MockPD> pd = new MockPD; SmartPtr<ProbingMuOracle> u = new ProbingMuOracle(GetRawPtr(pd)); CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization");
   int kv = k == 4 ? symfork("blocking multiplier", 0, 4) : 9; for( int b = 0; b < 8; b++ ) for( int i = 0; i < fx.dim(b); i++ ) { std::string s("d"); s += BN[b]; pd->out.b[b].push_back(k == 4 ? (b > 3 ? (b == 4 + kv ? -4. : .25 * b - 1.125) : b == 0 ? (i ? -3. : .5) : b == 1 ? symd("ds") : 1.) : k == 0 && b > 3 ? (b == 4 ? -2. : .5) : symdi(s.c_str(), i)); } pd->ok = !symbf("system cannot be solved"); bool r = u->CalculateMu(lo, hi, nm); CHECK(r == pd->ok, "failure of the linear system is reported"); CHECK(pd->calls == 1, "one linear system");
   VD gx = R.gradLx(I), gs = R.gradLs(I), c = R.c(I), d = R.dms(I); for( int i = 0; i < 2; i++ ) CHECKEQ(pd->last.b[0][i], gx[i], "affine right-hand side"); CHECKEQ(pd->last.b[1][0], gs[0], "affine right-hand side"); CHECKEQ(pd->last.b[2][0], c[0], "affine right-hand side"); CHECKEQ(pd->last.b[3][0], d[0], "affine right-hand side"); CHECKEQ(pd->al, -1., "sign of the right-hand side"); CHECKEQ(pd->be, 0., "old solution is overwritten");
   for( int j = 0, b = 4, i = 0; j < nb; j++ ) { while( i >= fx.dim(b) ) { b++; i = 0; } CHECKEQ(pd->last.b[b][i], R.slack(I, j) * R.mult(I, j), "affine right-hand side (complementarity)"); i++; }
   if( !r ) { REACH("probefail"); return; }
   Itr N = I, M = I; const Itr& S = pd->out; double ap = 1., ad = 1.; for( int b = 0; b < 8; b++ ) for( size_t i = 0; i < I.b[b].size(); i++ ) N.b[b][i] = S.b[b][i]; 
   for( int j = 0; j < nb; j++ ) { Itr U = I; for( int b = 0; b < 2; b++ ) for( size_t i = 0; i < I.b[b].size(); i++ ) U.b[b][i] += S.b[b][i]; double sl = R.slack(I, j), ds = R.slack(U, j) - sl, m = R.mult(I, j), dm = R.mult(N, j); if( D(ds < 0.) ) ap = vmin(ap, -sl / ds); if( D(dm < 0.) ) ad = vmin(ad, -m / dm); }
   for( int b = 0; b < 8; b++ ) for( size_t i = 0; i < I.b[b].size(); i++ ) M.b[b][i] += (b < 2 ? ap : ad) * S.b[b][i]; double aff = 0.; for( int j = 0; j < nb; j++ ) aff += R.slack(M, j) * R.mult(M, j); aff = aff / nb;
   double sg = aff / av; sg = sg * sg * sg; if( k == 0 || k == 4 ) CHECKEQ(nm, vmax(vmin(vmin(sg, smax) * av, hi), lo), "probing rule"); CHECK(nm >= lo && nm <= hi, "barrier parameter within its limits"); CHECK(fx.data->HaveAffineDeltas(), "affine step is kept"); VD x; dvget(*fx.data->delta_aff()->x(), x); CHECKEQ(x[0], S.b[0][0], "affine step"); REACH("probing");
}
extern "C" int sym_main()
{
   int c = __sym_case();
   if( c < 10 ) monotone(c, 2); else if( c < 30 ) adaptive(c - 10, c >= 11 && c <= 13 ? 2 : 3, c == 12); else if( c < 50 ) oracle(c - 30); else if( c < 60 ) monotone(c - 50, 3); else adaptive((c - 60) % 10, c < 70 ? (c == 61 ? 3 : 4) : c == 71 || c == 74 ? 2 : 3, c >= 70);
   return 0;
}
