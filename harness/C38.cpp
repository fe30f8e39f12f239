//! {"quick":["5","3","4","0-2","6-9","20-28"],"thorough":["0-9","t2500:10-19","20-28"],"level":"model_checking","mode":"real",
//!  "reach":["again","structure","changed","stopped","limited","failed","other","sym","symstruct","refused","nostructure"],
//!  "bounds":["ten concrete problems, complete runs: a first solve that ends by itself, by a stop request at any of the first 6 callbacks, by any iteration limit 0..5, by failing evaluations from any of the first 10 evaluations on, of the same problem with other data, or of another problem (thorough: 13, 0..12, 25 and also with adaptive barrier update and fixed variables as constraints), followed by a second solve in any of three ways","translation of a problem with three variables and three constraints whose values all change between two solves: all values and points, every fixed-variable treatment, with and without declared same structure, no, user and gradient-based scaling"],
//!  "assumptions":["linear solver replaced by a dense LDL^T stand-in with the MUMPS calling convention","exact real arithmetic in the symbolic part"],
//!  "outside":["problems whose dimensions change under a declared same structure","gradient-based scaling factors under a declared same structure (kept from the first solve)"]}
#include "solve.h"
#include "adp.h"
#include "IpSolveStatistics.hpp"
struct Out { ApplicationReturnStatus st; SolverReturn sr; std::vector<double> x, zl, zu, g, lam; double f; int cb, fin, it, calls; bool threw; };
static void rec(SolveTNLP& t, IpoptApplication& app, ApplicationReturnStatus st, bool threw, Out& o) { o.st = st; o.sr = t.status; o.x = t.fx; o.zl = t.fzl; o.zu = t.fzu; o.g = t.fg; o.lam = t.flam; o.f = t.fobj; o.cb = t.cb_n; o.fin = t.n_fin; o.calls = t.calls; o.threw = threw; SmartPtr<SolveStatistics> s = app.Statistics(); o.it = IsValid(s) ? (int) s->IterationCount() : -1; }
static void fresh_counts(SolveTNLP& t) { t.cb_n = 0; t.n_fin = 0; t.calls = 0; t.last_iter = -1; t.order_bad = 0; t.n_ic = 0; t.stop_at = -1; t.fail_at = -1; t.fail_from = -1; t.n_f = t.n_grad = t.n_g = t.n_jac = t.n_h = 0; t.fx.clear(); t.fzl.clear(); t.fzu.clear(); t.fg.clear(); t.flam.clear(); }
static bool eqv(const std::vector<double>& a, const std::vector<double>& b) { if( a.size() != b.size() ) return false; for( size_t i = 0; i < a.size(); i++ ) if( !(a[i] == b[i]) ) return false; return true; }
static void opts(IpoptApplication& app, int v) { if( v == 1 ) { app.Options()->SetStringValue("mu_strategy", "adaptive"); app.Options()->SetStringValue("fixed_variable_treatment", "make_constraint"); } }
static int whole(int p, int v)
{
   Out ref; SmartPtr<SolveTNLP> t0 = problem(p); { SmartPtr<IpoptApplication> app = mkapp(); opts(*app, v); app->Initialize(""); bool th = false; ApplicationReturnStatus st = Internal_Error; try { st = app->OptimizeTNLP(GetRawPtr(t0)); } catch( ... ) { th = true; } rec(*t0, *app, st, th, ref); }
   CHECK(!ref.threw && ref.fin == 1, "the reference solve ends normally");
   int S_ = v ? 12 : 5, F_ = v ? 24 : 9, k1 = -1; int how = symfork("second", 0, 2), first = symfork("first", 0, 5); SmartPtr<IpoptApplication> app = mkapp(); opts(*app, v); app->Initialize(""); SmartPtr<SolveTNLP> t = problem(p), o = problem((p + 3) % NPROB);
   if( first == 5 && how != 0 ) return 0; SmartPtr<SolveTNLP> a = first == 5 ? o : t; bool th = false;
   if( first == 1 ) a->stop_at = k1 = symi("stop_at", 0, S_);
   if( first == 2 ) app->Options()->SetIntegerValue("max_iter", k1 = symi("max_iter", 0, S_));
   if( first == 3 ) { a->fail_from = symi("fail_from", 0, F_); a->fail_mask = 0xfe; }
   SmartPtr<SolveTNLP> keep = problem(p); if( first == 4 ) { for( int i = 0; i < t->n; i++ ) { t->c[i] += .25 + i; t->x0[i] += .5; } for( int k = 0; k < t->m; k++ ) { if( t->gl[k] > -1e19 ) t->gl[k] -= .25; if( t->gu[k] < 1e19 ) t->gu[k] -= (t->gl[k] == t->gu[k] - .25 ? .25 : -.25); } for( size_t k = 0; k < t->Q.size(); k++ ) t->Q[k].v *= 1.5; for( int i = 0; i < t->n; i++ ) if( t->xl[i] == t->xu[i] ) { t->xl[i] = t->xu[i] = t->xl[i] + 1.; } }
   ApplicationReturnStatus s1 = Internal_Error; try { s1 = app->OptimizeTNLP(GetRawPtr(a)); } catch( ... ) { th = true; } CHECK(!th && a->n_fin == 1, "the first solve ends normally");
   if( s1 == User_Requested_Stop ) REACH("stopped"); if( s1 == Maximum_Iterations_Exceeded ) REACH("limited"); if( first == 3 && a->n_failed ) REACH("failed"); if( first == 5 ) REACH("other"); if( first == 4 ) REACH("changed");
   fresh_counts(*t); if( first == 4 ) { t->c = keep->c; t->x0 = keep->x0; t->gl = keep->gl; t->gu = keep->gu; t->Q = keep->Q; t->xl = keep->xl; t->xu = keep->xu; } if( first == 2 ) app->Options()->SetIntegerValue("max_iter", 3000);
   if( how == 2 ) { app->Options()->SetStringValue("warm_start_same_structure", "yes"); REACH("structure"); }
   // a first solve that ended before the first linear system has left no structure behind (refused); gradient-based factors of other data are kept
   ApplicationReturnStatus s2 = Internal_Error; th = false; try { s2 = how == 0 ? app->OptimizeTNLP(GetRawPtr(t)) : app->ReOptimizeTNLP(GetRawPtr(t)); } catch( ... ) { th = true; }
   Out r; rec(*t, *app, s2, th, r); CHECK(!r.threw, "no exception escapes"); if( r.threw ) return 0; REACH("again");
   CHECK(t->order_bad == 0, "iterations are counted from zero again");
   if( how == 2 && (first == 1 || first == 2) && k1 == 0 && s2 == Unrecoverable_Exception ) { CHECK(r.cb <= 1 && r.sr != SUCCESS, "a refused second solve does not report a solution"); REACH("nostructure"); return 0; }
   if( how == 2 && (first == 3 || first == 4) ) { CHECK(r.fin == 1 || r.sr == ref.sr, "solution delivered once"); if( s2 == Solve_Succeeded ) { CHECK(t->stat(true) < 1e-3 && t->viol() < 1e-4 && t->comp() < 1.1e-4 && t->consistent() && t->finite(), "success is reported for a solution of the current problem"); } return 0; }
   CHECK(r.st == ref.st && r.sr == ref.sr, "a repeated solve ends with the same status"); CHECK(r.fin == 1, "solution delivered exactly once");
   CHECK(eqv(r.x, ref.x) && r.f == ref.f && eqv(r.g, ref.g), "a repeated solve delivers the same point"); CHECK(eqv(r.zl, ref.zl) && eqv(r.zu, ref.zu) && eqv(r.lam, ref.lam), "a repeated solve delivers the same multipliers");
   CHECK(r.cb == ref.cb && r.it == ref.it, "a repeated solve takes the same iterations"); if( how == 0 ) CHECK(r.calls == ref.calls, "a repeated solve takes the same evaluations"); else CHECK(r.calls <= ref.calls, "a repeated solve takes no more evaluations");
   return 0;
}
typedef std::vector<double> VD;
static void data(QTNLP& t, int k, bool sc) { for( int i = 0; i < t.n; i++ ) { t.c[i] = symdi("c", 10 * k + i); t.x0[i] = symdi("x0", 10 * k + i); t.zl0[i] = symdi("zl0", 10 * k + i); t.zu0[i] = symdi("zu0", 10 * k + i); } for( int i = 0; i < t.m; i++ ) { t.g0[i] = symdi("g0", 10 * k + i); t.lam0[i] = symdi("lam0", 10 * k + i); } t.c0 = symdi("c0", 90 + k); t.Q.clear(); t.A.clear(); t.Bq.clear(); int e = 0;
   for( int i = 0; i < t.n; i++ ) { Trip q = {i, i ? i - 1 : 0, symdi("q", 10 * k + i)}; t.Q.push_back(q); } for( int r = 0; r < t.m; r++ ) for( int j = 0; j < t.n; j++ ) { if( r == j ) continue; Trip q = {r, j, symdi("a", 10 * k + e++)}; t.A.push_back(q); } TripK b = {0, 1, 0, symdi("b", 10 * k)}; t.Bq.push_back(b); b.k = 2; b.i = 2; b.j = 2; b.v = symdi("b", 10 * k + 1); t.Bq.push_back(b);
   if( sc ) { t.use_sc = t.use_xs = t.use_gs = true; t.osc = 2.; for( int i = 0; i < t.n; i++ ) t.xs[i] = 1. + i; for( int i = 0; i < t.m; i++ ) t.gs[i] = .5 + i; } }
static void bounds(QTNLP& t, int k, int pat) { for( int i = 0; i < 3; i++ ) { t.xl[i] = -2e19; t.xu[i] = 2e19; } double v = symdi("fix", k, -1e6, 1e6), w = symdi("fixb", k, -1e6, 1e6); int f = pat & 1 ? 1 : 2; if( pat & 2 ) f = 0; t.xl[f] = t.xu[f] = v; int l = (f + 1) % 3, u = (f + 2) % 3; t.xl[l] = symdi("xl", k, -1e6, 1e6); t.xu[u] = symdi("xu", k, -1e6, 1e6); if( pat & 4 ) { t.xl[u] = t.xu[u] - 3.; } (void) w;
   int q = pat & 1; t.gl[q] = t.gu[q] = symdi("geq", k, -1e6, 1e6); t.gl[1 - q] = symdi("gl", k, -1e6, 1e6); t.gu[1 - q] = t.gl[1 - q] + 2.; t.gl[2] = -2e19; t.gu[2] = symdi("gu", k, -1e6, 1e6); }
static void dump(Org& o, const VD& x, const VD& yc, const VD& yd, double of, VD& r)
{
   OrigIpoptNLP& nlp = *o.on; VD v; auto add = [&](const Vector& w) { dvget(w, v); r.push_back(w.Dim()); r.insert(r.end(), v.begin(), v.end()); };
   auto mk = [&](const Vector& like, const VD& s) { SmartPtr<Vector> w = like.MakeNew(); DenseVector* d = static_cast<DenseVector*>(GetRawPtr(w)); Number* p = d->Values(); for( int i = 0; i < w->Dim(); i++ ) p[i] = s[i]; return w; };
   add(*o.x); add(*o.yc); add(*o.yd); add(*o.zl); add(*o.zu); add(*nlp.x_L()); add(*nlp.x_U()); add(*nlp.d_L()); add(*nlp.d_U());
   SmartPtr<Vector> xv = mk(*o.x, x), c = mk(*o.yc, yc), d = mk(*o.yd, yd); r.push_back(nlp.f(*xv)); add(*nlp.grad_f(*xv)); add(*nlp.c(*xv)); add(*nlp.d(*xv));
   SmartPtr<const Matrix> jc = nlp.jac_c(*xv), jd = nlp.jac_d(*xv); SmartPtr<const SymMatrix> h = nlp.h(*xv, of, *c, *d); SmartPtr<Vector> p = mk(*o.x, x), q = o.x->MakeNew(), s = o.yc->MakeNew(), u = o.yd->MakeNew();
   for( int e = 0; e < o.x->Dim(); e++ ) { VD un(o.x->Dim(), 0.); un[e] = 1.; SmartPtr<Vector> w = mk(*o.x, un); jc->MultVector(1., *w, 0., *s); add(*s); jd->MultVector(1., *w, 0., *u); add(*u); h->MultVector(1., *w, 0., *q); add(*q); }
   // what the user gets back
   o.on->FinalizeSolution(MAXITER_EXCEEDED, *xv, *o.zl, *o.zu, *nlp.c(*xv), *nlp.d(*xv), *c, *d, nlp.f(*xv), NULL, NULL); QTNLP& t = *o.a.t; r.insert(r.end(), t.fx.begin(), t.fx.end()); r.insert(r.end(), t.fzl.begin(), t.fzl.end()); r.insert(r.end(), t.fzu.begin(), t.fzu.end()); r.insert(r.end(), t.fg.begin(), t.fg.end()); r.insert(r.end(), t.flam.begin(), t.flam.end()); r.push_back(t.fobj);
}
static int translation(int c)
{
   int mode = c % 3, kind = c / 3; bool sc = kind == 1; int same = symfork("same", 0, 1), p1 = symfork("pattern", 0, 4), p2 = same ? p1 : symfork("pattern2", 0, 4); if( kind == 2 ) { if( same ) return 0; } SmartPtr<QTNLP> t = new QTNLP(3, 3), u = new QTNLP(3, 3);
   data(*t, 0, sc); bounds(*t, 0, p1); if( kind == 2 ) { for( size_t i = 0; i < t->A.size(); i++ ) t->A[i].v = 200. + i; for( int i = 0; i < 3; i++ ) { t->c[i] = 300.; t->Q[i].v = 0.; t->x0[i] = 0.; } t->Bq[0].v = t->Bq[1].v = 0.; }
   Org o(mode), n(mode); o.a.app->Options()->SetNumericValue("bound_relax_factor", 0.); n.a.app->Options()->SetNumericValue("bound_relax_factor", 0.); CHECK(o.open(t, kind, true, true, true), "first problem accepted"); if( !o.ok ) return 0; VD x(4), yc(4), yd(4), r1, r2, r0; for( int i = 0; i < 4; i++ ) { x[i] = symdi("x", i); yc[i] = symdi("yc", i); yd[i] = symdi("yd", i); } double of = symd("of");
   dump(o, x, yc, yd, of, r0); data(*t, 1, sc); bounds(*t, 1, p2); if( kind == 2 ) { for( size_t i = 0; i < t->A.size(); i++ ) t->A[i].v = i ? 1. : 400.; for( int i = 0; i < 3; i++ ) { t->c[i] = 1. + i; t->Q[i].v = .5; t->x0[i] = 1.; } t->Bq[0].v = t->Bq[1].v = 1.; }
   u->take(*t); u->use_sc = t->use_sc; u->use_xs = t->use_xs; u->use_gs = t->use_gs; u->osc = t->osc; CHECK(n.open(u, kind, true, true, true), "second problem accepted on its own"); if( !n.ok ) return 0; dump(n, x, yc, yd, of, r1);
   if( same ) { o.a.app->Options()->SetStringValue("warm_start_same_structure", "yes"); REACH("symstruct"); } CHECK(o.on->Initialize(*o.a.app->Jnlst(), *o.a.app->Options(), ""), "initialized again"); bool ok = false; try { ok = o.on->InitializeStructures(o.x, true, o.yc, true, o.yd, true, o.zl, true, o.zu, true, o.vl, o.vu); } catch( IpoptException& ) {} CHECK(ok, "second problem accepted"); if( !ok ) return 0; REACH("sym");
   dump(o, x, yc, yd, of, r2); CHECK(r1.size() == r2.size(), "the second problem has its own dimensions"); if( r1.size() == r2.size() ) for( size_t i = 0; i < r1.size(); i++ ) CHECKEQ(r2[i], r1[i], "the second problem is translated as if it were the first");
   return 0;
}
extern "C" int sym_main()
{
   int c = __sym_case(); if( c < 20 ) return whole(c % 10, c / 10); if( c < 28 ) return translation(c - 20);
   SmartPtr<SolveTNLP> a = problem(PQP), b = problem(PBOX); SmartPtr<IpoptApplication> app = mkapp(); app->Initialize(""); int w = symfork("who", 0, 2); bool th = false; if( w ) app->OptimizeTNLP(GetRawPtr(a));
   try { app->ReOptimizeTNLP(GetRawPtr(w == 2 ? b : a)); } catch( IpoptException& ) { th = true; }
   CHECK(th == (w != 1), "solving again needs the same problem to have been solved before"); CHECK(b->calls == 0 && b->n_fin == 0, "a refused problem is not touched"); REACH("refused"); return 0;
}
