//! {"quick":["0-11"],"thorough":["0-11","t600:20-31"],"level":"model_checking","mode":"real",
//!  "reach":["accepted","shortened","corrector","second-order","soft","softout","resto","restofailed","acceptable","stuck","rescued","skipped","watchdog","watchback","tiny","fallback","magic","everr"],
//!  "bounds":["a problem with two variables (one with two bounds), an equality and two inequality constraints; searches of up to four trial steps, histories of up to four searches (thorough: six)","every answer of the acceptance rule, of the corrector and second-order steps, of the restoration and of the acceptability test; evaluation failing in any half space; arbitrary real step directions in the single searches, in the histories listed directions"],
//!  "assumptions":["exact real arithmetic","acceptance rule, restoration phase and convergence test replaced by stand-ins that record what they are asked and answer arbitrarily (their own behaviour: C21, C25, C26)"],
//!  "outside":["number of repetitions of a step whose evaluation failed in the soft restoration"]}
#include "fix.h"
#include "IpBacktrackingLineSearch.hpp"
#include "IpConvCheck.hpp"
#include "IpRestoPhase.hpp"
enum { INIT, PREP, CHK, SOC, CORR, UPD, STARTW, STOPW, RESET, AFY, RESTO, FALLB };
struct Ev { int k; double a, b; bool ans, threw; double v; VD x, s; Itr D; };
static std::vector<Ev> lg; static int nq, maxyes; static double amin_v, afy_v; static bool acc_v, ri_v, hasafy, conc; static Fix* fx; static int lim_no;
static unsigned off; // questions always answered no: 1 corrector, 2 second-order correction, 4 acceptance
static bool ask(const char* w) { if( ((off & 1) && w[0] == 'c') || ((off & 2) && w[0] == 's') || ((off & 4) && w[0] == 'a') ) return false; return symbf(nm(w, nq++)); }
static Itr geti(const IteratesVector& v) { Itr I; for( int k = 0; k < 8; k++ ) dvget(*v.GetComp(k), I.b[k]); return I; }
static Itr mul(const Itr& D, double f, double g) { Itr R = D; for( int k = 0; k < 8; k++ ) for( size_t i = 0; i < R.b[k].size(); i++ ) R.b[k][i] = f * R.b[k][i] + g; return R; }
struct PT: public QTNLP { bool on; double lim; int kind; PT() : QTNLP(2, 3), on(false), lim(0.), kind(1) {} bool badx(double x1, int k) const { return on && k == kind && x1 > lim; }
   bool eval_f(Index i, const Number* x, bool w, Number& f) { return !badx(x[1], 1) && QTNLP::eval_f(i, x, w, f); } bool eval_grad_f(Index i, const Number* x, bool w, Number* g) { return !badx(x[1], 2) && QTNLP::eval_grad_f(i, x, w, g); } bool eval_g(Index i, const Number* x, bool w, Index m_, Number* g) { return !badx(x[1], 3) && QTNLP::eval_g(i, x, w, m_, g); } };
struct MAcc: public BacktrackingLSAcceptor
{
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   void put(int k, double a = 0., double b = 0.) { Ev e; e.k = k; e.a = a; e.b = b; e.ans = e.threw = false; e.v = 0.; lg.push_back(e); }
   void Reset() { put(RESET); } void InitThisLineSearch(bool w) { put(INIT, w); } void PrepareRestoPhaseStart() { put(PREP); } Number CalculateAlphaMin() { return amin_v; }
   bool CheckAcceptabilityOfTrialPoint(Number a) { put(CHK, a); Ev& e = lg.back(); dvget(*IpData().trial()->x(), e.x); dvget(*IpData().trial()->s(), e.s); e.threw = true; IpCq().trial_barrier_obj(); IpCq().trial_constraint_violation(); e.threw = false; return e.ans = ask("accept") && !gone(); }
   bool gone() { VD x; dvget(*IpData().trial()->x(), x); PT* p = static_cast<PT*>(GetRawPtr(fx->t)); return p->badx(x[1], p->kind); }  // no acceptance rule accepts a point it cannot evaluate
   bool alt(int k, Number at, Number& a, SmartPtr<IteratesVector>& d, const char* w, double f) { put(k, at, a); Ev& e = lg.back(); if( !ask(w) ) return false; e.D = mul(geti(*d), f, .125); double b = k == SOC ? .5 * a : a; SmartPtr<IteratesVector> n = ConstPtr(fx->make(e.D))->MakeNewContainer(); IpData().SetTrialPrimalVariablesFromStep(b, *n->x(), *n->s()); if( gone() ) return false; d = n; e.v = a = b; return e.ans = true; }
   bool TrySecondOrderCorrection(Number at, Number& a, SmartPtr<IteratesVector>& d) { return alt(SOC, at, a, d, "soc", .75); }
   bool TryCorrector(Number at, Number& a, SmartPtr<IteratesVector>& d) { return alt(CORR, at, a, d, "corr", .5); }
   char UpdateForNextIteration(Number a) { put(UPD, a); return 'k'; } void StartWatchDog() { put(STARTW); } void StopWatchDog() { put(STOPW); } bool RestoredIterate() { return ri_v; } bool DoFallback() { put(FALLB); return lg.back().ans = ask("fallback"); }
   Number ComputeAlphaForY(Number ap, Number ad, SmartPtr<IteratesVector>&) { put(AFY, ap, ad); return afy_v; } bool HasComputeAlphaForY() const { return hasafy; }
};
struct MRes: public RestorationPhase { bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool PerformRestoration() { Ev e; e.k = RESTO; e.a = IpData().info_alpha_primal(); e.b = IpData().info_ls_count(); e.threw = false; e.v = 0.; e.ans = ask("restored"); if( e.ans ) { e.D = mul(geti(*IpData().curr()), .75, .03125); fx->trial(e.D); } lg.push_back(e); return e.ans; } };
struct MCon: public ConvergenceCheck { bool InitializeImpl(const OptionsList&, const std::string&) { return true; } ConvergenceStatus CheckConvergence(bool) { return CONTINUE; } bool CurrentIsAcceptable() { return acc_v; } };
enum { OK_, ACC_, STEP_, RFAIL_, EXC_ };
// what the search has to do, written from the documentation; consumes the recorded questions and answers
struct Model
{
   Ref* R; PT* t; double red, softf, tinyt, tinyy, afytol, ectol, eytol, ctol, tol; int trig, wmax, softmax, after, afy; bool every, expect, startresto, hasresto, magic, rigorous;
   bool in_wd, soft, tinylast, fallback, skipped, hasacc, tinyflag, prepped; int wshort, witer, shortn, softn; double lastmu, walpha; Itr wcur, wD, accIt, cur, D, tr, A; double mu, tau; bool freemu; size_t pos; bool settrial; int ls; double iap, iad; char ch; bool hasinfo;
   Model() : R(NULL), t(NULL), red(.5), softf(.9999), tinyt(0.), tinyy(.01), afytol(10.), ectol(1e-3), eytol(1e8), ctol(1e-4), tol(1e-8), trig(10), wmax(3), softmax(10), after(-1), afy(0), every(false), expect(false), startresto(false), hasresto(true), magic(false), rigorous(true),
      in_wd(false), soft(false), tinylast(false), fallback(false), skipped(false), hasacc(false), tinyflag(false), prepped(false), wshort(0), witer(0), shortn(0), softn(0), lastmu(-1.), walpha(0.), mu(.1), tau(.75), freemu(false), pos(0), settrial(false), ls(0), iap(0.), iad(0.), ch(' '), hasinfo(false) {}
   const Ev& nx(int k) { while( k != PREP && prepped && pos < lg.size() && lg[pos].k == PREP ) pos++; bool ok = pos < lg.size() && lg[pos].k == k; CHECK(ok, "the search asks for the right thing at the right time"); if( !ok ) throw 1; return lg[pos++]; }
   double ftb(const Itr& I, const Itr& X) { double r = 1.; for( size_t k = 0; k < R->xl.size(); k++ ) r = one(r, R->sxl(I, k), X.b[0][R->xl[k]]); for( size_t k = 0; k < R->xu.size(); k++ ) r = one(r, R->sxu(I, k), -X.b[0][R->xu[k]]); for( size_t k = 0; k < R->dl.size(); k++ ) r = one(r, R->ssl(I, k), X.b[1][R->dl[k]]); for( size_t k = 0; k < R->du.size(); k++ ) r = one(r, R->ssu(I, k), -X.b[1][R->du[k]]); return r; }
   double one(double r, double s, double d) { return d < 0. ? vmin(r, -tau * s / d) : r; }
   double ftbd(const Itr& I, const Itr& X) { double r = 1.; for( int k = 4; k < 8; k++ ) for( size_t i = 0; i < I.b[k].size(); i++ ) r = one(r, I.b[k][i], X.b[k][i]); return r; }
   void mv(int k0, int k1, double a) { for( int k = k0; k <= k1; k++ ) for( size_t i = 0; i < cur.b[k].size(); i++ ) tr.b[k][i] = cur.b[k][i] + a * A.b[k][i]; }
   bool bad(const Itr& I) { return t->badx(I.b[0][1], 1) || t->badx(I.b[0][1], 3); }
   double ymax(const Itr& I) { double m = 0.; for( int k = 2; k < 4; k++ ) for( size_t i = 0; i < I.b[k].size(); i++ ) m = vmax(m, vabs(I.b[k][i])); return m; }
   double pde(const Itr& I) { double m = freemu ? 0. : mu, d = 0., c = 0.; VD a = R->gradLx(I), b = R->gradLs(I); for( size_t i = 0; i < a.size(); i++ ) d += vabs(a[i]); for( size_t i = 0; i < b.size(); i++ ) d += vabs(b[i]); for( int j = 0; j < R->nb(); j++ ) c += vabs(R->slack(I, j) * R->mult(I, j) - m); return d / (a.size() + b.size()) + R->pinf1(I) / (I.b[2].size() + I.b[3].size()) + c / R->nb(); }
   void dual(double ap, double ad)
   {
      mv(4, 7, ad); double dn = 0., ay = ap; for( int k = 0; k < 2; k++ ) for( size_t i = 0; i < A.b[k].size(); i++ ) dn = vmax(dn, vabs(A.b[k][i]));
      switch( afy ) { case 0: ay = ap; break; case 1: ay = ad; break; case 2: ay = vmin(ap, ad); break; case 3: ay = vmax(ap, ad); break; case 4: ay = 1.; break; case 7: ay = dn <= afytol ? 1. : ap; break; case 8: ay = dn <= afytol ? 1. : ad; break;
      case 9: { const Ev& e = nx(AFY); CHECKEQ(e.a, ap, "primal step size told to the acceptance rule"); CHECKEQ(e.b, ad, "dual step size told to the acceptance rule"); ay = afy_v; break; }
      default: { Itr T = tr; T.b[2] = cur.b[2]; T.b[3] = cur.b[3]; VD gx = R->gradLx(T), gs = R->gradLs(T), p = R->jtv(T, R->eq, A.b[2]), q = R->jtv(T, R->iq, A.b[3]); double a = 0., b = 0.; for( size_t i = 0; i < p.size(); i++ ) { double w = p[i] + q[i]; a += w * w; b += w * gx[i]; } for( size_t i = 0; i < gs.size(); i++ ) { a += A.b[3][i] * A.b[3][i]; b -= A.b[3][i] * gs[i]; } double o = -b / a; ay = afy == 5 ? vmin(1., vmax(0., o)) : vmin(vmax(ap, ad), vmax(o, vmin(ap, ad))); } }
      mv(2, 3, ay); iap = ap; iad = ad; hasinfo = true;
   }
   void magicstep() { VD r = R->d(tr); for( size_t k = 0; k < r.size(); k++ ) { double s = tr.b[1][k], d = r[k] - s, l = t->gl[R->iq[k]], u = t->gu[R->iq[k]]; bool hl = l > -1e19, hu = u < 1e19; if( (d > 0. && !hl) || (d < 0. && !hu) ) continue; if( hl && hu && vabs(l + u - 2. * (s + d)) > vabs(l + u - 2. * s) ) continue; tr.b[1][k] = s + d; } if( d0(r) ) REACH("magic"); }
   bool d0(const VD& r) { for( size_t k = 0; k < r.size(); k++ ) if( tr.b[1][k] == r[k] ) return true; return false; }
   bool softstep(bool& sat)
   {
      sat = false; if( softf == 0. ) return false; double a = vmin(ftb(cur, A), ftbd(cur, A)); tr = cur; mv(0, 1, a); dual(a, a); settrial = true; if( bad(tr) ) return false;
      const Ev& e = nx(CHK); CHECKEQ(e.a, 0., "no Armijo test in the soft restoration"); ckx(e); if( e.ans ) { sat = true; return true; }
      if( t->badx(tr.b[0][1], 2) ) return false; bool r = pde(tr) <= softf * pde(cur); return r;
   }
   void ckx(const Ev& e) { for( size_t i = 0; i < e.x.size(); i++ ) CHECKEQ(e.x[i], tr.b[0][i], "point offered to the acceptance rule"); for( size_t i = 0; i < e.s.size(); i++ ) CHECKEQ(e.s[i], tr.b[1][i], "slacks offered to the acceptance rule"); }
   bool backtrack(bool skip, double& alpha, int& n, bool& everr)
   {
      everr = false; bool ok = false, soc = false; double amax = ftb(cur, A), lo = in_wd ? amax : amin_v; alpha = amax; double at = in_wd ? walpha : alpha; tr = cur; settrial = true;
      if( skip ) alpha *= red; else { const Ev& e = nx(CORR); CHECKEQ(e.b, alpha, "step size given to the corrector"); ok = e.ans; if( ok ) { A = e.D; alpha = e.v; mv(0, 1, alpha); REACH("corrector"); } }
      if( !ok ) while( alpha > lo || n == 0 )
      {
         tr = cur; mv(0, 1, alpha); if( magic ) magicstep(); at = alpha;
         if( every || (after != -1 && n >= after) ) { if( bad(tr) ) everr = true; else { nx(RESET); soft = false; softn = 0; ok = true; } }
         else { const Ev& e = nx(CHK); CHECKEQ(e.a, alpha, "step size given to the acceptance rule"); ckx(e); ok = e.ans; CHECK(e.threw == bad(tr), "evaluation failures are seen"); if( e.threw ) { everr = true; REACH("everr"); } }
         if( ok || in_wd || (expect && shortn >= 5) ) break;
         if( !everr && n == 0 && !skip && R->pinf1(cur) <= R->pinf1(tr) ) { const Ev& e = nx(SOC); CHECKEQ(e.a, at, "tested step size given to the second-order correction"); CHECKEQ(e.b, alpha, "step size given to the second-order correction"); if( e.ans ) { ok = soc = true; A = e.D; alpha = e.v; tr = cur; mv(0, 1, alpha); REACH("second-order"); break; } }
         alpha *= red; n++;
      }
      ch = '?'; if( !ok && in_wd ) ch = 'w'; else if( ok ) { const Ev& e = nx(UPD); CHECKEQ(e.a, at, "step size the acceptance rule is updated with"); ch = soc ? 'K' : 'k'; } ls = n + 1; return ok;
   }
   void stopwd() { nx(STOPW); in_wd = false; cur = wcur; A = wD; wshort = 0; REACH("watchback"); }
   int search()
   {
      prepped = false; settrial = false; hasinfo = false; ls = -1; ch = 0; if( lastmu != mu ) { in_wd = false; wshort = 0; lastmu = mu; }
      if( acc_v ) { accIt = cur; hasacc = true; } skipped = false; bool gor = false; A = D;
      if( fallback ) { if( hasresto ) gor = true; else { const Ev& e = nx(FALLB); if( !e.ans ) return STEP_; in_wd = false; shortn = wshort = 0; fallback = false; ch = 'X'; REACH("fallback"); return OK_; } fallback = false; REACH("fallback"); } else { const Ev& e = nx(INIT); CHECK((e.a != 0.) == in_wd, "the acceptance rule knows whether a watchdog is active"); }
      if( startresto ) { gor = true; startresto = false; } if( expect && hasresto && ymax(cur) > eytol ) gor = true;
      bool ok = false; int n = 0; double alpha = 0.; bool tiny = false;
      if( !gor && tinyt > 0. ) { double m = 0.; for( int k = 0; k < 2; k++ ) for( size_t i = 0; i < D.b[k].size(); i++ ) m = vmax(m, vabs(D.b[k][i]) / (1. + vabs(cur.b[k][i]))); tiny = m <= tinyt && R->pinf1(cur) <= 1e-4; }
      if( in_wd && (gor || tiny) ) { stopwd(); gor = tiny = false; }
      if( trig > 0 && !in_wd && !gor && !tiny && !soft && !expect && wshort >= trig ) { nx(STARTW); in_wd = true; wcur = cur; wD = D; witer = 0; walpha = ftb(cur, D); REACH("watchdog"); }
      if( tiny ) { tr = cur; alpha = ftb(cur, D); mv(0, 1, alpha); settrial = true; if( bad(tr) ) tiny = false; else { REACH("tiny"); ls = 0; if( tinylast ) { ch = 'T'; tinyflag = true; } } tinylast = ymax(D) < tinyy; ok = true; } else tinylast = false;
      bool softtaken = false;
      if( !gor && !tiny )
      {
         if( soft ) { ok = false; if( ++softn <= softmax ) { bool sat; ok = softstep(sat); if( ok ) { softtaken = true; ch = 's'; REACH("soft"); if( sat ) { soft = false; softn = 0; ch = 'S'; REACH("softout"); } } } }
         else { bool skip = false, everr; while( true ) { ok = backtrack(skip, alpha, n, everr); if( !in_wd ) break; if( ok ) { in_wd = false; break; } witer++; if( everr || witer > wmax ) { stopwd(); skip = true; } else { ok = true; break; } } }
      }
      if( !ok )
      {
         if( !rigorous ) { skipped = true; REACH("skipped"); return OK_; }
         if( !soft && !gor && !expect ) { nx(PREP); prepped = true; bool sat; ok = softstep(sat); if( ok ) { softtaken = true; ch = 's'; REACH("soft"); if( sat ) ch = 'S'; else soft = true; return OK_; } }
         if( !soft && !prepped ) { nx(PREP); prepped = true; }
         if( acc_v ) { REACH("acceptable"); return ACC_; } if( !hasresto ) return EXC_;
         if( R->pinf1(cur) <= 1e-2 * tol && R->nlpviol(cur) <= .1 * ctol ) { REACH("stuck"); if( hasacc ) { REACH("rescued"); cur = accIt; return ACC_; } return STEP_; }
         const Ev& e = nx(RESTO); if( !e.ans ) { REACH("restofailed"); if( hasacc ) { cur = accIt; return ACC_; } return RFAIL_; }
         REACH("resto"); tr = e.D; settrial = true; hasinfo = false; ls = n + 1; ch = 'R'; shortn = 0; expect = false; soft = false; softn = wshort = 0; return OK_;
      }
      if( soft && !tiny ) return OK_;
      if( !softtaken ) dual(alpha, ftbd(cur, A)); if( n == 0 ) shortn = wshort = 0; else { shortn++; wshort++; REACH("shortened"); }
      if( expect && R->pinf1(cur) <= ectol ) expect = false; if( ri_v ) { in_wd = false; shortn = wshort = 0; ch = 'r'; } REACH("accepted"); return OK_;
   }
};
struct Run
{
   SmartPtr<PT> t; Fix F; SmartPtr<MAcc> acc; SmartPtr<MRes> res; SmartPtr<MCon> con; SmartPtr<BacktrackingLineSearch> ls; Model M; Ref* R; bool ok;
   Run() : R(NULL), ok(false) { lg.clear(); nq = 0; fx = &F; amin_v = .3; afy_v = .625; acc_v = ri_v = hasafy = false; t = new PT; t->xl[0] = 0.; t->xu[0] = 4.; t->gl[1] = 0.; t->gu[1] = 5.; t->gl[2] = -1.; t->gu[2] = 2e19; t->c[0] = 1.; t->c[1] = -.5; Trip q = {1, 1, 1.}; t->Q.push_back(q); Trip a[5] = {{0, 0, 1.}, {0, 1, .5}, {1, 0, 1.}, {1, 1, -1.}, {2, 1, 1.}}; for( int k = 0; k < 5; k++ ) t->A.push_back(a[k]); t->gl[0] = t->gu[0] = 2.; }
   Itr it(const double* v) { Itr I; int d[8] = {2, 2, 1, 2, 1, 1, 2, 1}; for( int k = 0; k < 8; k++ ) for( int i = 0; i < d[k]; i++ ) I.b[k].push_back(*v++); return I; }
   bool open(bool symit = false)
   {
      static const char* AFYN[10] = {"primal", "bound-mult", "min", "max", "full", "min-dual-infeas", "safer-min-dual-infeas", "primal-and-full", "dual-and-full", "acceptor"};
      OptionsList& o = F.opt(); o.SetNumericValue("alpha_red_factor", M.red); o.SetNumericValue("soft_resto_pderror_reduction_factor", M.softf); o.SetNumericValue("tiny_step_tol", M.tinyt); o.SetNumericValue("tiny_step_y_tol", M.tinyy); o.SetNumericValue("alpha_for_y_tol", M.afytol); o.SetIntegerValue("watchdog_shortened_iter_trigger", M.trig); o.SetIntegerValue("watchdog_trial_iter_max", M.wmax); o.SetIntegerValue("max_soft_resto_iters", M.softmax); o.SetIntegerValue("accept_after_max_steps", M.after);
      if( M.afy < 9 || !hasafy ) o.SetStringValue("alpha_for_y", AFYN[M.afy]); if( M.every ) o.SetStringValue("accept_every_trial_step", "yes"); if( M.magic ) o.SetStringValue("magic_steps", "yes"); if( M.expect ) { o.SetStringValue("expect_infeasible_problem", "yes"); o.SetNumericValue("expect_infeasible_problem_ytol", M.eytol); o.SetNumericValue("expect_infeasible_problem_ctol", M.ectol); } if( M.startresto ) o.SetStringValue("start_with_resto", "yes");
      F.build(GetRawPtr(t)); CHECK(F.ok, "set-up"); if( !F.ok ) return false; R = new Ref(*t); M.R = R; M.t = GetRawPtr(t); acc = new MAcc; res = new MRes; con = new MCon;
      ls = new BacktrackingLineSearch(GetRawPtr(acc), M.hasresto ? GetRawPtr(res) : NULL, GetRawPtr(con)); ok = ls->Initialize(F.jn(), *F.nlp, *F.data, *F.cq, F.opt(), ""); CHECK(ok, "the line search is ready"); lg.clear();
      static const double c0[] = {1., .5, 1., .75, .25, -.5, .75, 1., .5, .25, .5, 1.}; M.cur = it(c0); F.curr(M.cur); F.data->SetFreeMuMode(M.freemu); return ok;
   }
   // one search; returns false when the run is over
   bool search(const Itr& D, double mu, bool accept = true)
   {
      M.D = D; M.mu = mu; F.delta(D); F.data->Set_mu(mu); F.data->Set_tau(M.tau); F.data->Set_tiny_step_flag(false); M.tinyflag = false; F.data->ResetInfo(); lg.clear(); M.pos = 0; int r = OK_;
      try { ls->FindAcceptableTrialPoint(); } catch( ACCEPTABLE_POINT_REACHED& ) { r = ACC_; } catch( STEP_COMPUTATION_FAILED& ) { r = STEP_; } catch( RESTORATION_FAILED& ) { r = RFAIL_; } catch( IpoptException& ) { r = EXC_; }
      int w; try { w = M.search(); while( M.prepped && M.pos < lg.size() && lg[M.pos].k == PREP ) M.pos++; CHECK(M.pos == lg.size(), "nothing else is asked"); } catch( int ) { return false; }
      CHECK(r == w, "the search ends the right way"); if( r != w ) return false; same(*F.data->curr(), M.cur, "the current iterate after the search"); if( r != OK_ ) return false;
      CHECK(ls->CheckSkippedLineSearch() == M.skipped, "a skipped search is reported"); CHECK(F.data->tiny_step_flag() == M.tinyflag, "repeated tiny steps are reported"); if( M.ch ) CHECK(F.data->info_alpha_primal_char() == M.ch, "kind of step shown in the iteration output"); if( M.ls >= 0 ) CHECK(F.data->info_ls_count() == M.ls, "number of trial steps shown in the iteration output");
      if( M.hasinfo ) { CHECKEQ(F.data->info_alpha_primal(), M.iap, "primal step size shown in the iteration output"); CHECKEQ(F.data->info_alpha_dual(), M.iad, "dual step size shown in the iteration output"); }
      if( M.settrial && !M.skipped ) { same(*F.data->trial(), M.tr, "the new iterate"); if( accept ) { F.data->AcceptTrialPoint(); M.cur = M.tr; } } return true;
   }
   void same(const IteratesVector& v, const Itr& I, const char* lab) { for( int k = 0; k < 8; k++ ) { VD g; dvget(*v.GetComp(k), g); CHECK(g.size() == I.b[k].size(), "dimensions"); for( size_t i = 0; i < g.size(); i++ ) CHECKEQ(g[i], I.b[k][i], lab); } }
};
static const double DD[6][12] = {{.5, .25, .125, -.25, .5, .25, -.125, .5, -.25, .25, .125, -.5}, {-2., .5, -.5, .5, -.25, .5, .25, -1.5, .25, -.5, .75, .25}, {.25, -.5, .25, .25, .5, -.5, .125, .25, .125, .125, -.75, .25}, {1., 1., -1.5, .5, .25, .25, -.25, .5, .25, -.125, .25, .125}, {-.5, -.25, .5, -.5, -.25, .125, .25, -.25, -.25, .5, .25, .5}, {.75, .5, .25, 1., .25, -.25, .5, .25, .5, .25, -.25, .125}};
static Itr symdir(Run& r, int k, int mask) { Itr D = r.it(DD[k]); for( int j = 0; j < 8; j++ ) if( (mask >> j) & 1 ) for( size_t i = 0; i < D.b[j].size(); i++ ) { std::string s("d"); s += BN[j]; D.b[j][i] = symdi(s.c_str(), 10 * k + i, -8., 8.); } return D; }
static void badreg(Run& r, int kind) { r.t->on = true; r.t->kind = kind; r.t->lim = symd("limit", .55, 3.); }
extern "C" int sym_main()
{
   int c = __sym_case(); bool th = c >= 20; if( th ) c -= 20; Run r; Model& M = r.M; int R_ = th ? 6 : 4;
   if( c == 0 ) { M.hasresto = symbf("hasresto"); if( symbf("fails") ) badreg(r, 1); if( !r.open() ) return 0; acc_v = symbf("acceptable"); r.search(symdir(r, 1, 1), .1); }
   if( c == 1 ) { if( symbf("fails") ) badreg(r, 3); if( !r.open() ) return 0; M.rigorous = false; r.ls->SetRigorousLineSearch(false); amin_v = th ? .1 : .2; r.search(symdir(r, 0, 2), .1); }
   if( c == 2 ) { M.afy = symfork("rule", 0, 9); hasafy = M.afy == 9 && symbf("default"); if( M.afy == 7 || M.afy == 8 ) M.afytol = symd("ytol", 0., 4.); if( !r.open() ) return 0; if( th ) amin_v = .6; else { amin_v = 2.; } off = 2; Itr D = r.it(DD[symfork("dir", 0, 1)]); if( M.afy == 5 || M.afy == 6 ) D.b[2][0] = symd("dy", -4., 4.); else if( M.afy > 6 ) { D.b[0][1] = symd("dx", -1., 1.); D.b[3][0] = symd("dy", -4., 4.); } else { D.b[4][0] = symd("dz", -4., 4.); D.b[3][0] = symd("dy", -4., 4.); } r.search(D, .1); }
   if( c == 3 ) { off = 3; int w3 = symfork("what", 0, 1); M.softf = 0.; M.tinyt = .25; M.tinyy = .375; M.rigorous = true; if( symbf("fails") ) badreg(r, 1); r.t->gl[0] = r.t->gu[0] = symbf("feasible") ? 1.25 : 1.375; if( !r.open() ) return 0; M.cur.b[1][0] = .5; M.cur.b[1][1] = .5; r.F.curr(M.cur); amin_v = 2.;
      for( int k = 0; k < (th ? 4 : 3); k++ ) { Itr D = r.it(DD[2 * k % 6]); double f = symfork("small", 0, 1) ? .0625 : 1.; D = mul(D, f, 0.); double e = k ? (k == 1 && !w3 ? -.0625 : 0.) : w3 ? .03125 : symd("e", -.25, .25); D.b[0][0] = e; D.b[0][1] = -2. * e; D.b[1][0] = 3. * e; D.b[1][1] = -2. * e; if( k == 2 ) D.b[1][0] = symbf("off") ? .0625 : 0.; D.b[2][0] = k == 1 && w3 ? symd("dy", -1., 1.) : .25 * f; if( !r.search(D, .1) ) break; } }
   if( c == 4 ) { off = th ? 0 : 1; M.trig = symfork("trigger", 0, 2); M.wmax = symfork("trials", 1, 2); M.softf = 0.; if( !r.open() ) return 0; amin_v = .3; lim_no = 0; double mu = .1; for( int k = 0; k < R_ + 1; k++ ) { if( k == 3 && symbf("newmu") ) mu = .05; if( !r.search(r.it(DD[k % 6]), mu) ) break; } }
   if( c == 5 ) { off = 3; M.softmax = symfork("softmax", 1, 2); M.freemu = symbf("free"); { static const double sf[5] = {.5, .85, .95, .9999, 1.75}; M.softf = sf[symfork("factor", 0, 4)]; } int b = symfork("fails", 0, 2); if( b ) badreg(r, b); if( !r.open() ) return 0; amin_v = 2.; for( int k = 0; k < R_ - 1; k++ ) { if( !r.search(r.it(DD[(k + 3) % 6]), .1) ) break; } }
   if( c == 6 ) { int v = symfork("kind", 0, 3); M.startresto = v == 0; M.expect = v == 1 || v == 2; M.eytol = v == 2 ? symd("ytol", .01, 1.) : 1e8; M.ectol = symd("ctol", 0., 1.); M.hasresto = v == 0 || v == 1 || symbf("hasresto"); if( !r.open() ) return 0; amin_v = 2.; int fb = v == 3 ? symfork("at", 0, 2) : -1; acc_v = symbf("acceptable");
      for( int k = 0; k < 3; k++ ) { if( k == 1 ) acc_v = false; if( k == fb ) { CHECK(r.ls->ActivateFallbackMechanism(), "restoration can be demanded"); M.fallback = true; M.rigorous = true; } if( !r.search(r.it(DD[k]), .1) ) break; } }
   if( c == 7 ) { off = 2; M.every = symbf("every"); if( !M.every ) M.after = symfork("after", 0, 3); badreg(r, 1 + 2 * symfork("which", 0, 1)); M.softf = 0.; if( !r.open() ) return 0; amin_v = .2; Itr D0 = r.it(DD[0]); D0.b[0][1] = symd("dx", -4., 4.); r.search(D0, .1) && r.search(r.it(DD[3]), .1); }
   if( c == 8 ) { M.magic = true; if( !r.open() ) return 0; amin_v = .6; M.rigorous = false; r.ls->SetRigorousLineSearch(false); off = 3; Itr D0 = r.it(DD[symfork("dir", 0, 5)]); D0.b[1][symfork("row", 0, 1)] = symd("ds", -8., 8.); r.search(D0, .1); }
   if( c == 9 ) { int zr = symfork("zero", 0, 1); if( symbf("nosoft") ) M.softf = 0.; r.t->gl[0] = r.t->gu[0] = symd("rhs", 1., 1.5); if( !r.open() ) return 0; M.cur.b[1][0] = .5; M.cur.b[1][1] = .5; r.F.curr(M.cur); amin_v = 2.; acc_v = symbf("acceptable"); for( int k = 0; k < 3; k++ ) { if( k ) acc_v = false; if( !r.search(mul(r.it(DD[k]), k == zr ? 0. : .5, 0.), .1) ) break; } }
   if( c == 10 ) { off = 1; M.expect = true; M.ectol = 0.; M.softf = 0.; if( !r.open() ) return 0; amin_v = .3; for( int k = 0; k < 7; k++ ) { lg.clear(); if( !r.search(r.it(DD[k % 6]), .1) ) break; } }
   if( c == 11 ) { off = th ? 0 : 3; M.trig = 1; M.wmax = 2; if( symbf("fails") ) badreg(r, 1); if( !r.open() ) return 0; amin_v = .3; bool ft = false; for( int k = 0; k < R_; k++ ) { int op = k >= 1 ? symfork("op", 0, 4) : 0; if( op && ft ) return 0; if( op ) ft = true;
         if( op == 1 ) { lg.clear(); r.ls->Reset(); M.soft = false; M.softn = 0; CHECK(lg.size() == 1 && lg[0].k == RESET, "the acceptance rule is reset"); }
         if( op == 2 ) { bool w = M.in_wd; lg.clear(); r.ls->StopWatchDog(); M.pos = 0; if( w ) try { M.stopwd(); } catch( int ) { return 0; } CHECK(lg.size() == (w ? 1u : 0u), "the watchdog is stopped only when it is active"); r.same(*r.F.data->curr(), M.cur, "the iterate the watchdog started from"); }
         if( op == 3 ) { r.ls->ActivateFallbackMechanism(); M.fallback = true; M.rigorous = true; } ri_v = op == 4; if( !r.search(r.it(DD[k]), .1) ) break; } }
   return 0;
}
