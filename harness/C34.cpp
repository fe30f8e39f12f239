//! {"quick":["0-5"],"thorough":["0-5"],"level":"model_checking",
//!  "reach":["reduced","fortran","bounds","fixed","failure","final","adapter","nospecial","spaces","start","scaling","twosided","nobound"],
//!  "bounds":["user problems with two variables and three constraints, all values and points; every subset of removed constraints, removed bounds and fixed variables, in every order of a pair, both index styles; every kind of failing callback","bounds as constraints: two variables with each pattern of bounds, one equality and one or two inequalities"],
//!  "assumptions":["real arithmetic"],
//!  "outside":["index lists with repeated entries"]}
#include "adp.h"
#include "cmpmat.h"
#include "IpTNLPReducer.hpp"
#include "IpNLPBoundsRemover.hpp"
#include "IpCompoundVector.hpp"
#include "IpCompoundMatrix.hpp"
typedef std::vector<double> VD; typedef std::vector<int> VI;
static bool D(bool c) { return __sym_decide(c) != 0; }
class LQ : public QTNLP
{
public:
   TNLP::LinearityType vt[3], ct[3]; bool start_ok, info_ok, bounds_ok; int cbm; double cba; std::vector<double> sx;
   LQ(int a, int b) : QTNLP(a, b), start_ok(true), info_ok(true), bounds_ok(true), cbm(-1), cba(0.) { for( int i = 0; i < 3; i++ ) vt[i] = ct[i] = NON_LINEAR; }
   bool get_nlp_info(Index& a, Index& b, Index& c1, Index& d, IndexStyleEnum& s) { return info_ok && QTNLP::get_nlp_info(a, b, c1, d, s); }
   bool get_bounds_info(Index a, Number* b, Number* c1, Index d, Number* e, Number* f) { return QTNLP::get_bounds_info(a, b, c1, d, e, f) && bounds_ok; }
   bool get_starting_point(Index a, bool ix, Number* x, bool iz, Number* zl, Number* zu, Index b, bool il, Number* l) { if( a != n || b != m ) bad_call = true; return start_ok && QTNLP::get_starting_point(a, ix, x, iz, zl, zu, b, il, l); }
   bool get_variables_linearity(Index, LinearityType* t) { for( int i = 0; i < n; i++ ) t[i] = vt[i]; return true; }
   bool get_constraints_linearity(Index k, LinearityType* t) { if( k != m ) bad_call = true; for( int i = 0; i < m; i++ ) t[i] = ct[i]; return true; }
   Index get_number_of_nonlinear_variables() { return 1; }
   bool get_list_of_nonlinear_variables(Index k, Index* p) { if( k != 1 ) bad_call = true; p[0] = fortran ? 2 : 1; return true; }
   bool intermediate_callback(AlgorithmMode md, Index it, Number ov, Number, Number, Number, Number, Number, Number, Number, Index ls, const IpoptData*, IpoptCalculatedQuantities*) { cbm = (int) md * 10000 + it * 100 + ls; cba = ov; return stop_at < 0; }
};
static void fill(QTNLP* t, int n, int m)
{
   t->c0 = symd("c0"); for( int i = 0; i < n; i++ ) { t->c[i] = symdi("c", i); t->x0[i] = symdi("x0", i); t->zl0[i] = symdi("zl0", i); t->zu0[i] = symdi("zu0", i); t->xs[i] = symdi("xs", i); }
   for( int i = 0; i < m; i++ ) { t->g0[i] = symdi("g0", i); t->lam0[i] = symdi("lam0", i); t->gs[i] = symdi("gs", i); } t->osc = symd("osc");
   { Trip q; q.i = 0; q.j = 0; q.v = symd("q00"); t->Q.push_back(q); q.i = 1; q.j = 0; q.v = symd("q10"); t->Q.push_back(q); q.i = 1; q.j = 1; q.v = symd("q11"); t->Q.push_back(q); }
   { int k = 0; for( int r = 0; r < m; r++ ) for( int j = 0; j < n; j++ ) { if( r == 0 && j == 1 ) continue; Trip q; q.i = r; q.j = j; q.v = symdi("a", k++); t->A.push_back(q); } Trip q; q.i = m - 1; q.j = 0; q.v = symd("adup"); t->A.push_back(q); }
   { TripK b; b.k = 0; b.i = 1; b.j = 0; b.v = symd("b0"); t->Bq.push_back(b); b.k = m - 1; b.i = 1; b.j = 1; b.v = symd("b1"); t->Bq.push_back(b); }
}
static void lst(int mask, int n, bool rev, int off, VI& v) { v.clear(); for( int i = 0; i < n; i++ ) if( (mask >> i) & 1 ) v.push_back(i + off); if( rev ) std::reverse(v.begin(), v.end()); v.push_back(-77); }
struct Red { SmartPtr<LQ> t; SmartPtr<TNLPReducer> r; int n, m, off, gm, lm, um, fm; VI keep; };
static void open(Red& z, int gm, int lm, int um, int fm, bool rev)
{
   z.n = 2; z.m = 3; z.t = new LQ(2, 3); fill(GetRawPtr(z.t), 2, 3); for( int i = 0; i < 2; i++ ) { z.t->xl[i] = symdi("xl", i); z.t->xu[i] = symdi("xu", i); } for( int i = 0; i < 3; i++ ) { z.t->gl[i] = symdi("gl", i); z.t->gu[i] = symdi("gu", i); }
   z.t->fortran = symfork("style", 0, 1) == 1; if( z.t->fortran ) REACH("fortran"); z.off = z.t->fortran ? 1 : 0; z.gm = gm; z.lm = lm; z.um = um; z.fm = fm; VI g, l, u, f; lst(gm, 3, rev, z.off, g); lst(lm, 2, rev, z.off, l); lst(um, 2, rev, z.off, u); lst(fm, 2, rev, z.off, f);
   z.r = new TNLPReducer(*z.t, (int) g.size() - 1, &g[0], (int) l.size() - 1, &l[0], (int) u.size() - 1, &u[0], (int) f.size() - 1, &f[0]); for( size_t k = 0; k < g.size(); k++ ) g[k] = 5; z.keep.clear(); for( int i = 0; i < 3; i++ ) if( !((gm >> i) & 1) ) z.keep.push_back(i);
}
static bool info(Red& z, int& nj, int& nh)
{
   int n = -1, m = -1; TNLP::IndexStyleEnum st; bool ok = z.r->get_nlp_info(n, m, nj, nh, st); if( !ok ) return false; CHECK(n == z.n, "variables of the reduced problem"); CHECK(m == (int) z.keep.size(), "constraints of the reduced problem"); CHECK(st == (z.t->fortran ? TNLP::FORTRAN_STYLE : TNLP::C_STYLE), "index style"); int want = 0; for( size_t k = 0; k < z.t->A.size(); k++ ) if( !((z.gm >> z.t->A[k].i) & 1) ) want++; for( size_t k = 0; k < z.t->Bq.size(); k++ ) if( !((z.gm >> z.t->Bq[k].k) & 1) ) want += 2; CHECK(nj == want, "nonzeros of the reduced Jacobian"); CHECK(nh == (int) (z.t->Q.size() + z.t->Bq.size()), "nonzeros of the Hessian"); return nj == want && m == (int) z.keep.size();
}
static void functions()
{
   Red z; open(z, symfork("removed", 0, 7), 0, 0, 0, symfork("order", 0, 1) == 1); int nj, nh; if( !info(z, nj, nh) ) { CHECK(false, "information available"); return; } if( !info(z, nj, nh) ) return; REACH("reduced"); int m = (int) z.keep.size(); LQ* t = GetRawPtr(z.t); double x[2] = {symd("x0v"), symd("x1v")}, gf[2], gg[2], G[3], J[6], H[4]; t->GF(x, gf); t->G(x, G); t->J(x, J);
   double fv; CHECK(z.r->eval_f(2, x, true, fv), "objective"); CHECKEQ(fv, t->F(x), "objective"); CHECK(z.r->eval_grad_f(2, x, false, gg), "gradient"); for( int i = 0; i < 2; i++ ) CHECKEQ(gg[i], gf[i], "gradient");
   double g[4] = {7., 7., 7., 7.}; CHECK(z.r->eval_g(2, x, false, m, g), "constraints"); for( int k = 0; k < m; k++ ) CHECKEQ(g[k], G[z.keep[k]], "values of the kept constraints"); CHECK(g[m] == 7., "nothing beyond the reduced constraints is written");
   VI ir(nj + 1, -5), jc(nj + 1, -5); VD v(nj + 1, 9.); for( int rep = 0; rep < 2; rep++ ) { CHECK(z.r->eval_jac_g(2, NULL, false, m, nj, &ir[0], &jc[0], NULL), "Jacobian structure"); CHECK(ir[nj] == -5 && jc[nj] == -5, "nothing beyond the reduced Jacobian is written"); } for( int rep = 0; rep < 2; rep++ ) { CHECK(z.r->eval_jac_g(2, x, rep == 0, m, nj, NULL, NULL, &v[0]), "Jacobian values"); CHECK(v[nj] == 9., "nothing beyond the reduced Jacobian is written"); VD d(m * 2 + 1, 0.); bool in = true; for( int k = 0; k < nj; k++ ) { int r = ir[k] - z.off, c1 = jc[k] - z.off; if( r < 0 || r >= m || c1 < 0 || c1 >= 2 ) in = false; else d[r * 2 + c1] += v[k]; } CHECK(in, "Jacobian indices"); for( int k = 0; k < m; k++ ) for( int j = 0; j < 2; j++ ) CHECKEQ(d[k * 2 + j], J[z.keep[k] * 2 + j], "Jacobian of the kept constraints"); }
   double lam[4], full[3] = {0., 0., 0.}, sf = symd("sf"); for( int k = 0; k < m; k++ ) full[z.keep[k]] = lam[k] = symdi("lam", k); VI hr(nh), hc(nh); VD hv(nh); CHECK(z.r->eval_h(2, NULL, false, sf, m, NULL, false, nh, &hr[0], &hc[0], NULL) && z.r->eval_h(2, x, false, sf, m, lam, true, nh, NULL, NULL, &hv[0]), "Hessian"); t->H(sf, full, H); double hh[4] = {0., 0., 0., 0.}; for( int k = 0; k < nh; k++ ) { int r = hr[k] - z.off, c1 = hc[k] - z.off; hh[r * 2 + c1] += hv[k]; if( r != c1 ) hh[c1 * 2 + r] += hv[k]; } for( int k = 0; k < 4; k++ ) CHECKEQ(hh[k], H[k], "Hessian of the reduced Lagrangian");
   for( int i = 0; i < 3; i++ ) t->ct[i] = i == 1 ? TNLP::LINEAR : TNLP::NON_LINEAR; t->vt[0] = TNLP::LINEAR; TNLP::LinearityType vt[2], ct[4]; CHECK(z.r->get_variables_linearity(2, vt) && vt[0] == TNLP::LINEAR && vt[1] == TNLP::NON_LINEAR, "linearity of the variables"); CHECK(z.r->get_constraints_linearity(m, ct), "linearity of the constraints"); for( int k = 0; k < m; k++ ) CHECK(ct[k] == t->ct[z.keep[k]], "linearity of the constraints"); int p[1]; CHECK(z.r->get_number_of_nonlinear_variables() == 1 && z.r->get_list_of_nonlinear_variables(1, p) && p[0] == 1 + z.off, "nonlinear variables"); CHECK(!t->bad_call, "callback dimensions");
   double ob = symd("ob"); t->stop_at = symfork("stop", 0, 1) - 1; CHECK(z.r->intermediate_callback(RestorationPhaseMode, 3, ob, 0., 0., 0., 0., 0., 0., 0., 4, NULL, NULL) == (t->stop_at < 0), "callback's answer"); CHECK(t->cbm == (int) RestorationPhaseMode * 10000 + 304, "callback's arguments"); CHECKEQ(t->cba, ob, "callback's arguments");
}
static void data()
{
   Red z; open(z, symfork("removed", 0, 3) * 2 + symfork("removed0", 0, 1), symfork("lower", 0, 3), symfork("upper", 0, 3), symfork("fix", 0, 3), true); int nj, nh; if( !info(z, nj, nh) ) { CHECK(false, "information available"); return; } LQ* t = GetRawPtr(z.t); int m = (int) z.keep.size(); double xl[3], xu[3], gl[4], gu[4]; bool ok = z.r->get_bounds_info(2, xl, xu, m, gl, gu); CHECK(ok, "bounds available"); REACH("bounds");
   for( int i = 0; i < 2; i++ ) { if( (z.fm >> i) & 1 ) { REACH("fixed"); CHECKEQ(xl[i], t->x0[i], "a fixed variable keeps its starting value"); CHECKEQ(xu[i], t->x0[i], "a fixed variable keeps its starting value"); } else { if( (z.lm >> i) & 1 ) CHECK(xl[i] <= -1e300, "removed lower bound"); else CHECKEQ(xl[i], t->xl[i], "kept lower bound"); if( (z.um >> i) & 1 ) CHECK(xu[i] >= 1e300, "removed upper bound"); else CHECKEQ(xu[i], t->xu[i], "kept upper bound"); } } for( int k = 0; k < m; k++ ) { CHECKEQ(gl[k], t->gl[z.keep[k]], "bounds of the kept constraints"); CHECKEQ(gu[k], t->gu[z.keep[k]], "bounds of the kept constraints"); }
   int w = symfork("initial", 0, 7); double x[2] = {8., 8.}, zl[2] = {8., 8.}, zu[2] = {8., 8.}, l[4] = {8., 8., 8., 8.}; CHECK(z.r->get_starting_point(2, w & 1, x, w & 2, zl, zu, m, w & 4, l), "starting point"); for( int i = 0; i < 2; i++ ) { if( w & 1 ) CHECKEQ(x[i], t->x0[i], "starting point"); if( w & 2 ) { CHECKEQ(zl[i], t->zl0[i], "starting multipliers"); CHECKEQ(zu[i], t->zu0[i], "starting multipliers"); } } if( w & 4 ) for( int k = 0; k < m; k++ ) CHECKEQ(l[k], t->lam0[z.keep[k]], "starting multipliers of the kept constraints");
   if( w == 0 ) { for( int s = 0; s < 5; s++ ) { t->use_sc = s > 0; t->use_xs = (s - 1) & 1; t->use_gs = (s - 1) & 2; double os = 1., xs[2], gs[4]; bool ux = false, ug = false; bool k = z.r->get_scaling_parameters(os, ux, 2, xs, ug, m, gs); CHECK(k == (s > 0), "scaling availability"); if( !k ) continue; CHECKEQ(os, t->osc, "objective scaling"); CHECK(ux == t->use_xs && ug == t->use_gs, "kinds of scaling"); for( int i = 0; i < 2 && ux; i++ ) CHECKEQ(xs[i], t->xs[i], "variable scaling"); for( int q = 0; q < m && ug; q++ ) CHECKEQ(gs[q], t->gs[z.keep[q]], "scaling of the kept constraints"); } }
   CHECK(!t->bad_call, "callback dimensions");
}
static void failures()
{
   int w = symfork("which", 0, 9); Red z; open(z, symfork("removed", 0, 7), 1, 1, 1, false); LQ* t = GetRawPtr(z.t); int nj, nh; if( w == 0 ) { t->info_ok = false; CHECK(!info(z, nj, nh), "failure reported"); return; } if( !info(z, nj, nh) ) { CHECK(false, "information available"); return; } int m = (int) z.keep.size(); REACH("failure"); double x[2] = {symd("x0v"), symd("x1v")}, g[4], xl[2], xu[2], gl[4], gu[4], lam[4] = {1., 1., 1., 1.}; VD v(nj + 1), hv(nh); VI ir(nj + 1), jc(nj + 1); CHECK(z.r->eval_jac_g(2, NULL, false, m, nj, &ir[0], &jc[0], NULL), "structure"); bool r = true; double f;
   if( w >= 4 && w <= 8 ) t->fail_at = t->calls; if( w == 1 ) { t->bounds_ok = false; r = z.r->get_bounds_info(2, xl, xu, m, gl, gu); } if( w == 2 ) { t->start_ok = false; r = z.r->get_bounds_info(2, xl, xu, m, gl, gu); } if( w == 3 ) { t->start_ok = false; r = z.r->get_starting_point(2, true, xl, false, NULL, NULL, m, true, lam); } if( w == 4 ) r = z.r->eval_f(2, x, true, f); if( w == 5 ) r = z.r->eval_grad_f(2, x, true, g); if( w == 6 ) r = z.r->eval_g(2, x, true, m, g); if( w == 7 ) r = z.r->eval_jac_g(2, x, true, m, nj, NULL, NULL, &v[0]); if( w == 8 ) r = z.r->eval_h(2, x, true, 1., m, lam, true, nh, NULL, NULL, &hv[0]);
   if( w == 9 ) { double zl[2], zu[2], l[4], ob = symd("ob"); for( int i = 0; i < 2; i++ ) { zl[i] = symdi("zl", i); zu[i] = symdi("zu", i); } for( int k = 0; k < m; k++ ) { l[k] = symdi("l", k); g[k] = symdi("g", k); } z.r->finalize_solution(LOCAL_INFEASIBILITY, 2, x, zl, zu, m, g, l, ob, NULL, NULL); REACH("final"); double G[3]; t->G(x, G); CHECK(t->n_fin == 1 && t->f_n == 2 && t->f_m == 3, "solution of the original problem"); CHECK(t->status == LOCAL_INFEASIBILITY, "final status"); CHECKEQ(t->fobj, ob, "final objective"); int k = 0; for( int i = 0; i < 3; i++ ) { CHECKEQ(t->fg[i], G[i], "final constraint values"); bool kept = k < m && z.keep[k] == i; CHECKEQ(t->flam[i], kept ? l[k] : 0., "final multipliers"); if( kept ) k++; } for( int i = 0; i < 2; i++ ) { CHECKEQ(t->fx[i], x[i], "final point"); CHECKEQ(t->fzl[i], zl[i], "final bound multipliers"); CHECKEQ(t->fzu[i], zu[i], "final bound multipliers"); } return; }
   CHECK(!r, "a failure of the user's callback is reported");
}
static void whole()
{
   // the reduced problem as the solver sees it
   Red z; open(z, symfork("removed", 0, 7), symfork("lower", 0, 3), 0, 0, false); LQ* t = GetRawPtr(z.t); SmartPtr<IpoptApplication> app = mkapp(); SmartPtr<TNLPAdapter> ad = new TNLPAdapter(GetRawPtr(z.r), ConstPtr(app->Jnlst())); for( int i = 0; i < 3; i++ ) { t->gl[i] = i == 0 ? symdi("gle", i, -100., 100.) : i == 1 ? 1. : -2e19; t->gu[i] = i == 0 ? t->gl[i] : i == 1 ? 2e19 : 3.; } for( int i = 0; i < 2; i++ ) { t->xl[i] = -1.; t->xu[i] = 2.; } ad->ProcessOptions(*app->Options(), "");
   SmartPtr<const VectorSpace> xs, cs, ds, xls, xus, dls, dus; SmartPtr<const MatrixSpace> pxl, pxu, pdl, pdu, jc, jd; SmartPtr<const SymMatrixSpace> hs; CHECK(ad->GetSpaces(xs, cs, ds, xls, pxl, xus, pxu, dls, pdl, dus, pdu, jc, jd, hs), "the reduced problem is accepted"); REACH("adapter"); int ne = z.gm & 1 ? 0 : 1, ni = (z.gm & 2 ? 0 : 1) + (z.gm & 4 ? 0 : 1); CHECK(cs->Dim() == ne && ds->Dim() == ni && xs->Dim() == 2, "dimensions"); CHECK(xls->Dim() == (z.lm & 1 ? 0 : 1) + (z.lm & 2 ? 0 : 1) && xus->Dim() == 2, "bounds"); if( cs->Dim() != ne || ds->Dim() != ni ) return;
   { SmartPtr<Matrix> PL = pxl->MakeNew(), PU = pxu->MakeNew(), QL = pdl->MakeNew(), QU = pdu->MakeNew(); SmartPtr<DenseVector> a = static_cast<DenseVector*>(xls->MakeNew()), b = static_cast<DenseVector*>(xus->MakeNew()), e = static_cast<DenseVector*>(dls->MakeNew()), f = static_cast<DenseVector*>(dus->MakeNew()); CHECK(ad->GetBoundsInformation(*PL, *a, *PU, *b, *QL, *e, *QU, *f), "bounds"); VD r; dvget(*a, r); for( size_t k = 0; k < r.size(); k++ ) CHECK(r[k] == -1., "kept lower bounds"); dvget(*b, r); CHECK(r[0] == 2. && r[1] == 2., "kept upper bounds"); dvget(*e, r); CHECK((int) r.size() == (z.gm & 2 ? 0 : 1) && (r.empty() || r[0] == 1.), "kept constraint bounds"); dvget(*f, r); CHECK((int) r.size() == (z.gm & 4 ? 0 : 1) && (r.empty() || r[0] == 3.), "kept constraint bounds"); }
   double x[2] = {symd("x0v"), symd("x1v")}, G[3], J[6]; t->G(x, G); t->J(x, J); SmartPtr<DenseVector> xv = static_cast<DenseVector*>(xs->MakeNew()); xv->SetValues(x); SmartPtr<DenseVector> c = static_cast<DenseVector*>(cs->MakeNew()), d = static_cast<DenseVector*>(ds->MakeNew()); CHECK(ad->Eval_c(*xv, *c) && ad->Eval_d(*xv, *d), "constraints"); VD r; dvget(*c, r); if( ne ) CHECKEQ(r[0], G[0] - t->gl[0], "equality"); dvget(*d, r); { int k = 0; for( int i = 1; i < 3; i++ ) if( !((z.gm >> i) & 1) ) CHECKEQ(r[k++], G[i], "inequality"); }
   SmartPtr<Matrix> mc = jc->MakeNew(), md = jd->MakeNew(); CHECK(ad->Eval_jac_c(*xv, *mc) && ad->Eval_jac_d(*xv, *md), "Jacobians"); { VD e(2 * ne + 1, 0.); if( ne ) { e[0] = J[0]; e[1] = J[1]; } cmpmat(*mc, e, ne, 2, "equality Jacobian", "equality Jacobian"); } { VD e(2 * ni + 1, 0.); int k = 0; for( int i = 1; i < 3; i++ ) if( !((z.gm >> i) & 1) ) { e[2 * k] = J[2 * i]; e[2 * k + 1] = J[2 * i + 1]; k++; } cmpmat(*md, e, ni, 2, "inequality Jacobian", "inequality Jacobian"); } CHECK(!t->bad_call, "callback dimensions");
}
// records what the inner problem is told at the end
class RecNLP : public NLP
{
public:
   SmartPtr<NLP> in; VD zl, zu, yc, yd, x, c, d; double f; SolverReturn st; int nf; RecNLP(SmartPtr<NLP> n) : in(n), f(0.), st(INTERNAL_ERROR), nf(0) {}
   bool ProcessOptions(const OptionsList& o, const std::string& p) { return in->ProcessOptions(o, p); }
   bool GetSpaces(SmartPtr<const VectorSpace>& a, SmartPtr<const VectorSpace>& b, SmartPtr<const VectorSpace>& c1, SmartPtr<const VectorSpace>& d1, SmartPtr<const MatrixSpace>& e, SmartPtr<const VectorSpace>& g, SmartPtr<const MatrixSpace>& h, SmartPtr<const VectorSpace>& i, SmartPtr<const MatrixSpace>& j, SmartPtr<const VectorSpace>& k, SmartPtr<const MatrixSpace>& l, SmartPtr<const MatrixSpace>& m, SmartPtr<const MatrixSpace>& n, SmartPtr<const SymMatrixSpace>& o) { return in->GetSpaces(a, b, c1, d1, e, g, h, i, j, k, l, m, n, o); }
   bool GetBoundsInformation(const Matrix& a, Vector& b, const Matrix& c1, Vector& d1, const Matrix& e, Vector& f1, const Matrix& g, Vector& h) { return in->GetBoundsInformation(a, b, c1, d1, e, f1, g, h); }
   bool GetStartingPoint(SmartPtr<Vector> a, bool na, SmartPtr<Vector> b, bool nb, SmartPtr<Vector> c1, bool nc, SmartPtr<Vector> d1, bool nd, SmartPtr<Vector> e, bool ne) { return in->GetStartingPoint(a, na, b, nb, c1, nc, d1, nd, e, ne); }
   bool Eval_f(const Vector& a, Number& b) { return in->Eval_f(a, b); } bool Eval_grad_f(const Vector& a, Vector& b) { return in->Eval_grad_f(a, b); } bool Eval_c(const Vector& a, Vector& b) { return in->Eval_c(a, b); } bool Eval_jac_c(const Vector& a, Matrix& b) { return in->Eval_jac_c(a, b); } bool Eval_d(const Vector& a, Vector& b) { return in->Eval_d(a, b); } bool Eval_jac_d(const Vector& a, Matrix& b) { return in->Eval_jac_d(a, b); } bool Eval_h(const Vector& a, Number s, const Vector& b, const Vector& c1, SymMatrix& h) { return in->Eval_h(a, s, b, c1, h); }
   void GetScalingParameters(const SmartPtr<const VectorSpace> a, const SmartPtr<const VectorSpace> b, const SmartPtr<const VectorSpace> c1, Number& d1, SmartPtr<Vector>& e, SmartPtr<Vector>& g, SmartPtr<Vector>& h) const { in->GetScalingParameters(a, b, c1, d1, e, g, h); }
   static void get(const Vector& v, VD& o) { const DenseVector* q = dynamic_cast<const DenseVector*>(&v); if( q ) dvget(*q, o); else o.clear(); }
   void FinalizeSolution(SolverReturn s, const Vector& a, const Vector& b, const Vector& c1, const Vector& d1, const Vector& e, const Vector& g, const Vector& h, Number o, const IpoptData*, IpoptCalculatedQuantities*) { nf++; st = s; get(a, x); get(b, zl); get(c1, zu); get(d1, c); get(e, d); get(g, yc); get(h, yd); f = o; }
};
static const DenseVector& ccmp(const Vector& v, int k) { return static_cast<const DenseVector&>(*static_cast<const CompoundVector&>(v).GetComp(k)); }
static SmartPtr<DenseVector> cmp(Vector& v, int k) { return static_cast<DenseVector*>(GetRawPtr(static_cast<CompoundVector&>(v).GetCompNonConst(k))); }
static void remover(int two)
{
   // 'two': inequalities with both or no bounds
   SmartPtr<LQ> t = new LQ(2, two == 2 ? 2 : 3); int m = t->m; fill(GetRawPtr(t), 2, m); for( int i = 0; i < 2; i++ ) if( !two ) symbound(symfork("pattern", 0, 1) == 0 ? 1 : symfork("which", 3, 5), i, "xl", "xu", t->xl[i], t->xu[i]); symbound(2, 0, "gl", "gu", t->gl[0], t->gu[0]); int p1 = 4, p2 = 5; if( two ) { p1 = symfork("inequality", 3, 6); if( p1 == 6 ) p1 = 1; } symbound(p1, 1, "gl", "gu", t->gl[1], t->gu[1]); if( m > 2 ) symbound(p2, 2, "gl", "gu", t->gl[2], t->gu[2]);
   if( two ) symbound(symfork("simple", 0, 1) ? 3 : 1, 0, "xl", "xu", t->xl[0], t->xu[0]), symbound(4, 1, "xl", "xu", t->xl[1], t->xu[1]); bool allow = two && symfork("allow", 0, 1) == 1; SmartPtr<IpoptApplication> app = mkapp(); SmartPtr<TNLPAdapter> ad = new TNLPAdapter(GetRawPtr(t), ConstPtr(app->Jnlst())); SmartPtr<RecNLP> rec = new RecNLP(GetRawPtr(ad)); SmartPtr<NLPBoundsRemover> br = new NLPBoundsRemover(*rec, allow); CHECK(br->ProcessOptions(*app->Options(), ""), "options");
   SmartPtr<const VectorSpace> xs, cs, ds, xls, xus, dls, dus; SmartPtr<const MatrixSpace> pxl, pxu, pdl, pdu, jc, jd; SmartPtr<const SymMatrixSpace> hs; CHECK(br->GetSpaces(xs, cs, ds, xls, pxl, xus, pxu, dls, pdl, dus, pdu, jc, jd, hs), "spaces");
   VI L, Uu; for( int i = 0; i < 2; i++ ) { if( t->xl[i] > -1e19 ) L.push_back(i); if( t->xu[i] < 1e19 ) Uu.push_back(i); } int nl = (int) L.size(), nu = (int) Uu.size(), ni = m - 1, nd = ni + nl + nu; CHECK(xs->Dim() == 2 && cs->Dim() == 1, "variables and equalities are kept"); CHECK(xls->Dim() == 0 && xus->Dim() == 0, "no variable has a bound"); CHECK(ds->Dim() == nd, "each bound is an inequality"); int hl = 0, hu = 0; for( int i = 1; i < m; i++ ) { if( t->gl[i] > -1e19 ) hl++; if( t->gu[i] < 1e19 ) hu++; } CHECK(dls->Dim() == hl + nl && dus->Dim() == hu + nu, "bounds of the inequalities"); if( ds->Dim() != nd || dls->Dim() != hl + nl || dus->Dim() != hu + nu ) return; REACH("spaces");
   SmartPtr<Matrix> PL = pxl->MakeNew(), PU = pxu->MakeNew(), QL = pdl->MakeNew(), QU = pdu->MakeNew(); SmartPtr<Vector> xl = xls->MakeNew(), xu = xus->MakeNew(), dl = dls->MakeNew(), du = dus->MakeNew(); bool threw = false, ok = false; try { ok = br->GetBoundsInformation(*PL, *xl, *PU, *xu, *QL, *dl, *QU, *du); } catch( IpoptException& ) { threw = true; }
   if( two && !allow && p1 != 4 && p1 != 5 ) { CHECK(threw, "inequalities with two or no bounds are refused"); REACH(p1 == 3 ? "twosided" : "nobound"); return; } CHECK(ok && !threw, "bounds"); if( !ok || threw ) return;
   // what bounds each inequality has
   for( int w = 0; w < 2; w++ ) { Matrix& P = w ? *QU : *QL; Vector& b = w ? *du : *dl; SmartPtr<Vector> v = ds->MakeNew(), cnt = ds->MakeNew(), one = b.MakeNew(); one->Set(1.); v->Set(0.); cnt->Set(0.); P.MultVector(1., b, 0., *v); P.MultVector(1., *one, 0., *cnt); for( int bl = 0; bl < 3; bl++ ) { VD vv, cc; dvget(*cmp(*v, bl), vv); dvget(*cmp(*cnt, bl), cc); for( size_t k = 0; k < vv.size(); k++ ) { double bd = bl == 0 ? (w ? t->gu[k + 1] : t->gl[k + 1]) : bl == 1 ? (w ? 2e19 : t->xl[L[k]]) : (w ? t->xu[Uu[k]] : -2e19); bool has = w ? bd < 1e19 : bd > -1e19; CHECKEQ(cc[k], has ? 1. : 0., "which inequalities have a bound"); CHECKEQ(vv[k], has ? bd : 0., "value of the bound"); } } }
   double x[2] = {symd("x0v"), symd("x1v")}, G[3], J[6], H[4]; t->G(x, G); t->J(x, J); SmartPtr<DenseVector> xv = static_cast<DenseVector*>(xs->MakeNew()); xv->SetValues(x); SmartPtr<Vector> d = ds->MakeNew(), c = cs->MakeNew(); double fv; CHECK(br->Eval_f(*xv, fv), "objective"); CHECKEQ(fv, t->F(x), "objective"); CHECK(br->Eval_c(*xv, *c) && br->Eval_d(*xv, *d), "constraints"); VD r, e; dvget(static_cast<DenseVector&>(*c), r); CHECKEQ(r[0], G[0] - t->gl[0], "equality");
   for( int bl = 0; bl < 3; bl++ ) { dvget(*cmp(*d, bl), r); for( size_t k = 0; k < r.size(); k++ ) CHECKEQ(r[k], bl == 0 ? G[k + 1] : x[bl == 1 ? L[k] : Uu[k]], "inequalities"); }
   SmartPtr<Matrix> mc = jc->MakeNew(), md = jd->MakeNew(); CHECK(br->Eval_jac_c(*xv, *mc) && br->Eval_jac_d(*xv, *md), "Jacobians"); VD JJ(nd * 2 + 1, 0.); for( int k = 0; k < ni; k++ ) { JJ[2 * k] = J[2 * (k + 1)]; JJ[2 * k + 1] = J[2 * (k + 1) + 1]; } for( int k = 0; k < nl; k++ ) JJ[2 * (ni + k) + L[k]] = 1.; for( int k = 0; k < nu; k++ ) JJ[2 * (ni + nl + k) + Uu[k]] = 1.;
   VI bs; bs.push_back(ni); bs.push_back(nl); bs.push_back(nu);
   { SmartPtr<Vector> o = ds->MakeNew(), y = ds->MakeNew(); double v[2] = {symd("v0"), symd("v1")}; SmartPtr<DenseVector> vv = static_cast<DenseVector*>(xs->MakeNew()), tv = static_cast<DenseVector*>(xs->MakeNew()); vv->SetValues(v); o->Set(0.); md->MultVector(1., *vv, 0., *o); VD yy; int s = 0; for( int bl = 0; bl < 3; bl++ ) { VD q(bs[bl] + 1); for( int k = 0; k < bs[bl]; k++ ) { q[k] = symdi("y", s + k); yy.push_back(q[k]); } if( bs[bl] ) cmp(*y, bl)->SetValues(&q[0]); s += bs[bl]; } tv->Set(0.); md->TransMultVector(1., *y, 0., *tv); s = 0; for( int bl = 0; bl < 3; bl++ ) { dvget(*cmp(*o, bl), r); for( int k = 0; k < bs[bl]; k++ ) CHECKEQ(r[k], JJ[2 * (s + k)] * v[0] + JJ[2 * (s + k) + 1] * v[1], "Jacobian product"); s += bs[bl]; } dvget(*tv, r); for( int j = 0; j < 2; j++ ) { double w = 0.; for( int k = 0; k < nd; k++ ) w += JJ[2 * k + j] * yy[k]; CHECKEQ(r[j], w, "transposed Jacobian product"); }
     // Hessian: bounds contribute nothing
     double yc0 = symd("yc"), sf = symd("sf"), lam[3]; SmartPtr<DenseVector> ycv = static_cast<DenseVector*>(cs->MakeNew()); ycv->SetValues(&yc0); lam[0] = yc0; for( int k = 0; k < ni; k++ ) lam[k + 1] = yy[k]; SmartPtr<SymMatrix> h = hs->MakeNewSymMatrix(); CHECK(br->Eval_h(*xv, sf, *ycv, *y, *h), "Hessian"); t->H(sf, lam, H); VD HH(H, H + 4); HH.push_back(0.); cmpmat(*h, HH, 2, 2, "Hessian", "Hessian symmetric");
     double ob = symd("ob"); SmartPtr<Vector> z0 = xls->MakeNew(), z1 = xus->MakeNew(); br->FinalizeSolution(MAXITER_EXCEEDED, *xv, *z0, *z1, *c, *d, *ycv, *y, ob, NULL, NULL); REACH("final"); CHECK(rec->nf == 1 && rec->st == MAXITER_EXCEEDED, "final status"); CHECKEQ(rec->f, ob, "final objective"); CHECK((int) rec->zl.size() == nl && (int) rec->zu.size() == nu && (int) rec->yd.size() == ni && (int) rec->d.size() == ni, "final dimensions"); for( int k = 0; k < nl; k++ ) CHECKEQ(rec->zl[k], -yy[ni + k], "final lower-bound multipliers"); for( int k = 0; k < nu; k++ ) CHECKEQ(rec->zu[k], yy[ni + nl + k], "final upper-bound multipliers"); for( int k = 0; k < ni; k++ ) { CHECKEQ(rec->yd[k], yy[k], "final multipliers"); CHECKEQ(rec->d[k], G[k + 1], "final inequalities"); } CHECKEQ(rec->yc[0], yc0, "final multipliers"); for( int i = 0; i < 2; i++ ) CHECKEQ(rec->x[i], x[i], "final point"); }
   // starting point: the same correspondence
   bool need = symfork("need", 0, 1) == 1; SmartPtr<Vector> sx = xs->MakeNew(), syc = cs->MakeNew(), syd = ds->MakeNew(), szl = xls->MakeNew(), szu = xus->MakeNew(); CHECK(br->GetStartingPoint(sx, true, syc, need, syd, need, szl, need, szu, need), "starting point"); REACH("start"); dvget(static_cast<DenseVector&>(*sx), r); for( int i = 0; i < 2; i++ ) CHECKEQ(r[i], t->x0[i], "starting point");
   if( need ) { dvget(static_cast<DenseVector&>(*syc), r); CHECKEQ(r[0], t->lam0[0], "starting multipliers"); for( int bl = 0; bl < 3; bl++ ) { dvget(*cmp(*syd, bl), r); for( int k = 0; k < bs[bl]; k++ ) CHECKEQ(r[k], bl == 0 ? t->lam0[k + 1] : bl == 1 ? -t->zl0[L[k]] : t->zu0[Uu[k]], bl == 0 ? "starting multipliers of inequalities" : "starting multipliers of bounds"); } }
   int s = symfork("scaling", 0, 4); t->use_sc = true; t->use_xs = s & 1; t->use_gs = s & 2; if( s < 4 ) { REACH("scaling"); double os; SmartPtr<Vector> scx, scc, scd; br->GetScalingParameters(xs, cs, ds, os, scx, scc, scd); CHECKEQ(os, t->osc, "objective scaling"); CHECK(IsValid(scd) == (s != 0), "scaling of inequalities"); if( IsValid(scd) ) for( int bl = 0; bl < 3; bl++ ) { dvget(ccmp(*scd, bl), r); for( int k = 0; k < bs[bl]; k++ ) CHECKEQ(r[k], bl == 0 ? (s & 2 ? t->gs[k + 1] : 1.) : s & 1 ? t->xs[bl == 1 ? L[k] : Uu[k]] : 1., "scaling of inequalities"); } }
   if( nl + nu == 0 ) REACH("nospecial");
}
extern "C" int sym_main()
{
   int cs = __sym_case(); switch( cs ) { case 0: functions(); break; case 1: data(); break; case 2: failures(); break; case 3: whole(); break; case 4: remover(0); break; case 5: remover(2); break; } return 0; }
