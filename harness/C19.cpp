//! {"quick":["0-5"],"thorough":["0-5","50-55"],"level":"model_checking",
//!  "reach":["inertia","singular","giveup","restart","degenerate","jacdegenerate","always","afterfail"],
//!  "bounds":["every history of 6 (thorough: 8) reports about the factorized system (new system, singular, wrong inertia), and after three systems with the same outcome (to reach the conclusion of structural degeneracy) every history of 2 (thorough: 6) more","all values of the regularization options within their registered limits, all barrier parameters; exponents 0, 1/4 and 1 of the Jacobian regularization"],
//!  "assumptions":["real arithmetic"],
//!  "outside":["longer histories"]}
#include "fix.h"
#include "IpPDPerturbationHandler.hpp"
enum { Q, NO, YES };
struct Model   // documented behaviour: corrections of the inertia, detection of structural degeneracy
{
   double mx, mn, f1, f, df, in, cv, ce, mu; bool always; int H, J, cnt; double xl, xc, cc; int test; // test: -1 none, bit0 constraints perturbed, bit1 Hessian perturbed
   double cd() const { return cv * std::pow(mu, ce); }
   void conclude() { if( test < 0 ) return; bool c = test & 1, x = test & 2; if( !x && H == Q ) H = NO; if( !c && J == Q ) J = NO; else if( c && !x && J == Q ) { if( ++cnt >= 3 ) J = YES; return; } if( c && x ) { if( ++cnt >= 3 ) H = J = YES; } else if( x && H == Q ) { if( ++cnt >= 3 ) H = YES; } }
   static bool D(bool c) { return __sym_decide(c) != 0; }
   bool more() { if( xc == 0. ) { if( D(xl == 0.) ) xc = in; else xc = vmax(mn, df * xl); } else { if( D(xl == 0.) || D(1e5 * xl < xc) ) xc = f1 * xc; else xc = f * xc; } if( xc > mx ) { xl = xc = 0.; return false; } return true; }
   bool fresh() { conclude(); if( xc > 0. ) xl = xc; test = (H == Q || J == Q) ? (always ? 1 : 0) : -1; cc = (J == YES || always) ? cd() : 0.; xc = 0.; return H == YES ? more() : true; }
   bool singular()
   {
      if( H != Q && J != Q ) { if( cc > 0. || cd() == 0. ) return more(); cc = cd(); return true; }
      if( test == 3 || test == -1 ) return more();
      if( test == 2 ) { cc = cd(); if( !more() ) return false; test = 3; return true; }
      if( test == 1 ) { if( !always ) cc = 0.; if( !more() ) return false; test = always ? 3 : 2; return true; }
      if( J == Q ) { cc = cd(); test = 1; return true; } if( !more() ) return false; test = 2; return true;
   }
   bool inertia() { conclude(); if( more() ) return true; if( cc > 0. || cd() == 0. ) return false; cc = cd(); xc = 0.; test = -1; if( H == YES ) H = Q; REACH("restart"); return more(); }
};
extern "C" int sym_main()
{
   int c = __sym_case(), k = c % 50, steps = (c < 50 ? 6 : 8) - (c % 50 == 2) - (k >= 3 && c < 50 ? 2 : 0); Fix fx; Model m; m.always = k == 1 || k == 5; static const double EX[6] = {.25, 0., 1., .25, .25, 1.}; m.ce = EX[k];
   m.mx = symd("max"); m.mn = symd("min"); if( k == 2 ) { m.f1 = symd("inc first"); m.f = symd("inc"); m.df = symd("dec"); } else { static const double F[6][3] = {{100., 8., 1. / 3.}, {10., 2., .5}, {0., 0., 0.}, {100., 8., 1. / 3.}, {1.5, 1e6, .9}, {8., 8., .01}}; m.f1 = F[k][0]; m.f = F[k][1]; m.df = F[k][2]; } m.in = symd("first"); m.cv = k == 2 || k == 5 ? symd("jacval") : symbf("no jacobian regularization") ? 0. : 1e-8;
   ASSUME(m.mx > 0.); ASSUME(m.mn >= 0.); ASSUME(m.f1 > 1.); ASSUME(m.f > 1.); ASSUME(m.df > 0.); ASSUME(m.df < 1.); ASSUME(m.in > 0.); ASSUME(m.cv >= 0.);
   OptionsList& o = fx.opt(); o.SetNumericValue("max_hessian_perturbation", m.mx); o.SetNumericValue("min_hessian_perturbation", m.mn); o.SetNumericValue("perturb_inc_fact_first", m.f1); o.SetNumericValue("perturb_inc_fact", m.f); o.SetNumericValue("perturb_dec_fact", m.df); o.SetNumericValue("first_hessian_perturbation", m.in);
   o.SetNumericValue("jacobian_regularization_value", m.cv); o.SetNumericValue("jacobian_regularization_exponent", m.ce); o.SetStringValue("perturb_always_cd", m.always ? "yes" : "no");
   SmartPtr<QTNLP> t = new QTNLP(1, 0); fx.build(t); CHECK(fx.ok, "set up");
   if( k == 2 || k == 5 ) { m.mu = symd("mu"); ASSUME(m.mu > 0.); } else m.mu = .1; fx.data->Set_mu(m.mu);
   SmartPtr<PDPerturbationHandler> h = new PDPerturbationHandler(); CHECK(h->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization");
   m.H = Q; m.J = m.always ? NO : Q; m.cnt = 0; m.xl = m.xc = m.cc = 0.; m.test = -1;
   if( m.always ) REACH("always");
   std::vector<int> pre; if( k >= 3 ) { int ns = symfork("singular per system", 1, 3), in = symfork("then inertia", 0, 1), len = symfork("systems", 1, 3); for( int s = 0; s < len; s++ ) { pre.push_back(0); for( int i = 0; i < ns; i++ ) pre.push_back(1); if( in ) pre.push_back(2); } steps = (int) pre.size() + steps - 2; }
   double dx = 0., ds = 0., dc = 0., dd = 0., px = 0., pc = 0.; bool ok = false, failed = false;
   for( int st = 0; st < steps; st++ )
   {
      int ev = st < (int) pre.size() ? pre[st] : !ok ? 0 : symfork("report", 0, 2); if( ev && !ok ) ev = 0; bool r, e;
      if( st && ev == 0 ) { if( k == 2 || k == 5 ) { m.mu = symdi("mu", st); ASSUME(m.mu > 0.); fx.data->Set_mu(m.mu); } }
      if( ev == 0 ) { e = m.fresh(); r = h->ConsiderNewSystem(dx, ds, dc, dd); } else if( ev == 1 ) { e = m.singular(); r = h->PerturbForSingularity(dx, ds, dc, dd); REACH("singular"); } else { e = m.inertia(); r = h->PerturbForWrongInertia(dx, ds, dc, dd); REACH("inertia"); }
      CHECK(r == e, "giving up exactly when the largest perturbation is exceeded"); ok = r; if( !r ) { REACH("giveup"); failed = true; continue; }
      CHECKEQ(dx, m.xc, "perturbation of the Hessian"); CHECKEQ(ds, m.xc, "perturbation of the slack block"); CHECKEQ(dc, m.cc, "perturbation of the constraints"); CHECKEQ(dd, m.cc, "perturbation of the inequality constraints");
      CHECK(dx >= 0. && dc >= 0., "perturbations are not negative"); CHECK(dx <= m.mx, "largest perturbation"); if( ev && m.cv > 0. ) CHECK(dx > px || dc != pc, "the perturbation changes"); CHECKEQ(fx.data->info_regu_x(), dx, "reported perturbation");
      double a, b, cc_, d; h->CurrentPerturbation(a, b, cc_, d); CHECKEQ(a, dx, "current perturbation"); CHECKEQ(b, ds, "current perturbation"); CHECKEQ(cc_, dc, "current perturbation"); CHECKEQ(d, dd, "current perturbation");
      px = dx; pc = dc; if( m.H == YES ) REACH("degenerate"); if( m.J == YES ) REACH("jacdegenerate"); if( failed && dx > 0. ) REACH("afterfail");
   }
   return 0;
}
