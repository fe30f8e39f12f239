//! {"quick":["0-9"],"thorough":["0-9","20-29"],"level":"model_checking",
//!  "reach":["direction","reuse","changed","singular","few","many","fatal","giveup","quality","curvature","refined","accepted","pretend","better","newton","store","improve","fast","mehrotra"],
//!  "bounds":["a three-variable problem with one equality, two inequalities and bounds of several kinds; all right-hand sides and all answers of the linear solver; all multipliers with concrete slacks","every sequence of up to 4 (thorough: 5) linear solver reports and perturbation answers","every sequence of up to 5 (thorough: 7) relative errors out of three levels in the refinement loop, two option sets","the search direction for all iterates and one barrier parameter"],
//!  "assumptions":["real arithmetic","the augmented system solver is a stand-in with arbitrary answers in cases 0 to 6, the real one with the modelled linear solver in case 7"],
//!  "outside":["Schur complement and penalty function variants of the search direction"]}
#include "fix.h"
#include "cmpmat.h"
#include "IpPDFullSpaceSolver.hpp"
#include "IpPDPerturbationHandler.hpp"
#include "IpPDSearchDirCalc.hpp"
static bool D(bool c) { return __sym_decide(c) != 0; }
static SmartPtr<QTNLP> prob()
{
   SmartPtr<QTNLP> t = new QTNLP(3, 3); t->xl[0] = -4.; t->xu[0] = 6.; t->xu[1] = 9.; t->gl[0] = t->gu[0] = 1.; t->gl[1] = -2.; t->gu[1] = 7.; t->gl[2] = -8.; t->gu[2] = 2e19; Trip q[] = {{0, 0, 2.}, {1, 1, -3.}, {2, 1, .5}, {2, 2, 4.}}, a[] = {{0, 0, 1.}, {0, 2, 2.}, {1, 1, 1.}, {1, 2, -1.}, {2, 0, 1.}, {2, 1, 1.}}; t->Q.assign(q, q + 4); t->A.assign(a, a + 6); t->c[0] = 1.; t->c[1] = -2.; t->c[2] = 3.; return t;
}
static Itr point(int kind) // 1: multipliers arbitrary
{
   Itr I; I.b[0] = VD{1., 5., -2.}; I.b[1] = VD{3., -4.}; I.b[2] = VD{.5}; I.b[3] = VD{1.5, -.25}; I.b[4] = VD{.5}; I.b[5] = VD{2., .25}; I.b[6] = VD{1., 4.}; I.b[7] = VD{.125}; if( kind ) for( int k = 4; k < 8; k++ ) for( size_t i = 0; i < I.b[k].size(); i++ ) { I.b[k][i] = symdi(BN[k], i); ASSUME(I.b[k][i] > 0.); } return I;
}
static const double PX[4] = {0., .5, 2., 8.}, PC[4] = {0., .125, .0625, .03125};
struct Hnd: public PDPerturbationHandler
{
   int k, nnew, nsing, nin; bool forks; Hnd() : k(0), nnew(0), nsing(0), nin(0), forks(false) {}
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   void get(Number& a, Number& b, Number& c, Number& d) { a = PX[k]; b = PX[k] * .5; c = PC[k]; d = PC[k] * .5; }
   bool next(Number& a, Number& b, Number& c, Number& d) { if( k == 3 || (forks && symbf("no further perturbation")) ) { REACH("giveup"); return false; } k++; get(a, b, c, d); return true; }
   bool ConsiderNewSystem(Number& a, Number& b, Number& c, Number& d) { nnew++; k = 0; get(a, b, c, d); return true; }
   bool PerturbForSingularity(Number& a, Number& b, Number& c, Number& d) { nsing++; return next(a, b, c, d); }
   bool PerturbForWrongInertia(Number& a, Number& b, Number& c, Number& d) { nin++; return next(a, b, c, d); }
   void CurrentPerturbation(Number& a, Number& b, Number& c, Number& d) { get(a, b, c, d); }
};
struct Aug: public AugSystemSolver
{
   enum { ARB, SCRIPT, EXACT }; int mode, calls, neg, nq, left; bool check; Index want; VD rx, rs, rc, rd, sx, ss, sc, sd, Dx, Ds; double d[4]; const SymMatrix* W; const Matrix *Jc, *Jd; bool others, qok, qfork; ESymSolverStatus last; std::vector<double> err; int ne; bool few; double w11;
   Aug() : mode(ARB), calls(0), neg(3), nq(0), left(4), check(false), want(0), W(NULL), Jc(NULL), Jd(NULL), others(true), qok(true), qfork(false), last(SYMSOLVER_SUCCESS), ne(0), few(false), w11(2.) {}
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   ESymSolverStatus Solve(const SymMatrix* W_, Number wf, const Vector* Dx_, Number dx, const Vector* Ds_, Number ds, const Matrix* Jc_, const Vector* Dc, Number dc, const Matrix* Jd_, const Vector* Dd, Number dd, const Vector& rx_, const Vector& rs_, const Vector& rc_, const Vector& rd_, Vector& x, Vector& s, Vector& yc, Vector& yd, bool chk, Index num)
   {
      calls++; W = W_; Jc = Jc_; Jd = Jd_; d[0] = dx; d[1] = ds; d[2] = dc; d[3] = dd; others = others && wf == 1. && Dc == NULL && Dd == NULL; check = chk; want = num; dvget(*Dx_, Dx); dvget(*Ds_, Ds); dvget(rx_, rx); dvget(rs_, rs); dvget(rc_, rc); dvget(rd_, rd);
      if( mode == SCRIPT ) { if( left-- <= 0 ) last = SYMSOLVER_SUCCESS; else { int r = symfork("report", 0, 4); few = r == 2; neg = r == 2 ? 1 : r == 3 ? 5 : 3; last = r == 0 ? SYMSOLVER_SUCCESS : r == 1 ? SYMSOLVER_SINGULAR : r == 4 ? SYMSOLVER_FATAL_ERROR : SYMSOLVER_WRONG_INERTIA; if( !chk && last == SYMSOLVER_WRONG_INERTIA ) last = SYMSOLVER_SUCCESS; } if( last != SYMSOLVER_SUCCESS ) return last; }
      if( mode == EXACT ) { double a = w11 + dx, e = left-- > 0 ? (symfork("accuracy", 0, 2)) : 0; static const double E[3] = {0., .875, 9.5367431640625e-07}; e = E[(int) e]; err.push_back(e); double det = -a * dc - 1., p = (-dc * rx[0] - rc[0]) / det, q = (a * rc[0] - rx[0]) / det; sx = VD(1, p * (1. + e)); sc = VD(1, q * (1. + e)); }
      else if( sx.empty() || mode == ARB ) { sx.clear(); ss.clear(); sc.clear(); sd.clear(); int b = calls * 10; for( int i = 0; i < x.Dim(); i++ ) sx.push_back(symdi("dx", b + i)); for( int i = 0; i < s.Dim(); i++ ) ss.push_back(symdi("ds", b + i)); for( int i = 0; i < yc.Dim(); i++ ) sc.push_back(symdi("dyc", b + i)); for( int i = 0; i < yd.Dim(); i++ ) sd.push_back(symdi("dyd", b + i)); }
      put(x, sx); put(s, ss); put(yc, sc); put(yd, sd); return last;
   }
   static void put(Vector& v, VD w) { w.push_back(0.); static_cast<DenseVector&>(v).SetValues(&w[0]); }
   Index NumberOfNegEVals() const { return neg; } bool ProvidesInertia() const { return true; } bool IncreaseQuality() { nq++; if( qfork ) qok = !symbf("quality at its limit"); if( qok ) REACH("quality"); return qok; }
};
static SmartPtr<IteratesVector> vec(Fix& fx, const char* pre, Itr& I) { I = fx.sym(pre); return fx.make(I); }
static void captured(Fix& fx, Ref& R, const Itr& I, Aug& a, Hnd& h, const Itr& r)
{
   QTNLP& t = *fx.t; double dx, ds, dc, dd; h.CurrentPerturbation(dx, ds, dc, dd); CHECK(a.others, "no other terms"); CHECK(a.W == GetRawPtr(fx.data->W()) && a.Jc == GetRawPtr(fx.cq->curr_jac_c()) && a.Jd == GetRawPtr(fx.cq->curr_jac_d()), "matrices of the current iterate"); CHECKEQ(a.d[0], dx, "perturbation of the Hessian block"); CHECKEQ(a.d[1], ds, "perturbation of the slack block"); CHECKEQ(a.d[2], dc, "perturbation of the equality block"); CHECKEQ(a.d[3], dd, "perturbation of the inequality block");
   VD sx(t.n, 0.), ss(R.iq.size(), 0.), rx = r.b[0], rs = r.b[1]; for( size_t k = 0; k < R.xl.size(); k++ ) { sx[R.xl[k]] += I.b[4][k] / R.sxl(I, k); rx[R.xl[k]] += r.b[4][k] / R.sxl(I, k); } for( size_t k = 0; k < R.xu.size(); k++ ) { sx[R.xu[k]] += I.b[5][k] / R.sxu(I, k); rx[R.xu[k]] -= r.b[5][k] / R.sxu(I, k); } for( size_t k = 0; k < R.dl.size(); k++ ) { ss[R.dl[k]] += I.b[6][k] / R.ssl(I, k); rs[R.dl[k]] += r.b[6][k] / R.ssl(I, k); } for( size_t k = 0; k < R.du.size(); k++ ) { ss[R.du[k]] += I.b[7][k] / R.ssu(I, k); rs[R.du[k]] -= r.b[7][k] / R.ssu(I, k); }
   for( size_t i = 0; i < sx.size(); i++ ) { CHECKEQ(a.Dx[i], sx[i], "barrier term of the variables"); CHECKEQ(a.rx[i], rx[i], "reduced right-hand side of the variables"); } for( size_t i = 0; i < ss.size(); i++ ) { CHECKEQ(a.Ds[i], ss[i], "barrier term of the slacks"); CHECKEQ(a.rs[i], rs[i], "reduced right-hand side of the slacks"); } CHECKEQ(a.rc[0], r.b[2][0], "right-hand side of the equality constraint"); for( int i = 0; i < 2; i++ ) CHECKEQ(a.rd[i], r.b[3][i], "right-hand side of the inequality constraints");
}
// full primal-dual residual of direction v
static Itr resid(Fix& fx, Ref& R, const Itr& I, const double* d, const Itr& r, const Itr& v)
{
   QTNLP& t = *fx.t; Itr e = r; VD H = R.hess(1., I), a = R.jtv(I, R.eq, v.b[2]), b = R.jtv(I, R.iq, v.b[3]), jc = R.jv(I, R.eq, v.b[0]), jd = R.jv(I, R.iq, v.b[0]);
   for( int i = 0; i < t.n; i++ ) { double s = d[0] * v.b[0][i] + a[i] + b[i]; for( int j = 0; j < t.n; j++ ) s += H[i * t.n + j] * v.b[0][j]; e.b[0][i] -= s; } for( size_t k = 0; k < R.xl.size(); k++ ) e.b[0][R.xl[k]] += v.b[4][k]; for( size_t k = 0; k < R.xu.size(); k++ ) e.b[0][R.xu[k]] -= v.b[5][k];
   for( size_t i = 0; i < R.iq.size(); i++ ) e.b[1][i] -= d[1] * v.b[1][i] - v.b[3][i]; for( size_t k = 0; k < R.dl.size(); k++ ) e.b[1][R.dl[k]] += v.b[6][k]; for( size_t k = 0; k < R.du.size(); k++ ) e.b[1][R.du[k]] -= v.b[7][k];
   for( size_t i = 0; i < R.eq.size(); i++ ) e.b[2][i] -= jc[i] - d[2] * v.b[2][i]; for( size_t i = 0; i < R.iq.size(); i++ ) e.b[3][i] -= jd[i] - v.b[1][i] - d[3] * v.b[3][i];
   for( size_t k = 0; k < R.xl.size(); k++ ) e.b[4][k] -= R.sxl(I, k) * v.b[4][k] + I.b[4][k] * v.b[0][R.xl[k]]; for( size_t k = 0; k < R.xu.size(); k++ ) e.b[5][k] -= R.sxu(I, k) * v.b[5][k] - I.b[5][k] * v.b[0][R.xu[k]]; for( size_t k = 0; k < R.dl.size(); k++ ) e.b[6][k] -= R.ssl(I, k) * v.b[6][k] + I.b[6][k] * v.b[1][R.dl[k]]; for( size_t k = 0; k < R.du.size(); k++ ) e.b[7][k] -= R.ssu(I, k) * v.b[7][k] - I.b[7][k] * v.b[1][R.du[k]]; return e;
}
// the bound multiplier parts of a direction for given primal parts
static void mults(Ref& R, const Itr& I, const Itr& r, Itr& v)
{
   for( int k = 4; k < 8; k++ ) v.b[k].clear(); for( size_t k = 0; k < R.xl.size(); k++ ) v.b[4].push_back((r.b[4][k] - I.b[4][k] * v.b[0][R.xl[k]]) / R.sxl(I, k)); for( size_t k = 0; k < R.xu.size(); k++ ) v.b[5].push_back((r.b[5][k] + I.b[5][k] * v.b[0][R.xu[k]]) / R.sxu(I, k)); for( size_t k = 0; k < R.dl.size(); k++ ) v.b[6].push_back((r.b[6][k] - I.b[6][k] * v.b[1][R.dl[k]]) / R.ssl(I, k)); for( size_t k = 0; k < R.du.size(); k++ ) v.b[7].push_back((r.b[7][k] + I.b[7][k] * v.b[1][R.du[k]]) / R.ssu(I, k));
}
static void ckvec(Fix& fx, const IteratesVector& v, const Itr& e, const char* l) { for( int k = 0; k < 8; k++ ) { VD g; dvget(*v.GetComp(k), g); CHECK(g.size() == e.b[k].size(), "size"); for( size_t i = 0; i < g.size(); i++ ) CHECKEQ(g[i], e.b[k][i], l); } }
static void algebra(int kind, double al, double be)
{
   Fix fx; fx.build(prob()); CHECK(fx.ok, "set up"); Ref R(*fx.t); Itr I = point(kind); fx.curr(I); fx.data->Set_W(fx.cq->curr_exact_hessian()); SmartPtr<Aug> a = new Aug; SmartPtr<Hnd> h = new Hnd; SmartPtr<PDFullSpaceSolver> u = new PDFullSpaceSolver(*a, *h); CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, fx.opt(), ""), "initialization");
   for( int call = 0; call < 3; call++ )
   {
      if( call == 2 ) { int k = symfork("changed part", 0, 3); I.b[4 + k][0] = 7.; fx.curr(I); REACH("changed"); } if( call == 1 ) { h->k = 1; REACH("reuse"); }
      Itr r, o; SmartPtr<IteratesVector> rhs = vec(fx, call ? call == 1 ? "r1" : "r2" : "r", r), res = vec(fx, "o", o); CHECK(u->Solve(al, be, *rhs, *res, true), "direction is found"); captured(fx, R, I, *a, *h, r); CHECK(a->calls == call + 1, "one solution per direction"); CHECK(h->nnew == (call == 2 ? 2 : 1), "perturbations start afresh exactly for a changed matrix"); CHECK(a->check == (call != 1), "inertia is checked exactly for a changed matrix"); if( call != 1 ) CHECK(a->want == 3, "required number of negative eigenvalues");
      Itr v; v.b[0] = a->sx; v.b[1] = a->ss; v.b[2] = a->sc; v.b[3] = a->sd; mults(R, I, r, v); for( int k = 0; k < 8; k++ ) for( size_t i = 0; i < v.b[k].size(); i++ ) v.b[k][i] = al * v.b[k][i] + (be == 0. ? 0. : be * o.b[k][i]); ckvec(fx, *res, v, "direction"); REACH("direction");
   }
}
static void newton(int kind, int fixed = -1)
{
   Fix fx; OptionsList& o = fx.opt(); SmartPtr<QTNLP> t = prob(); bool conv = fixed >= 0 ? fixed != 0 : symbf("convex"); if( conv ) t->Q[1].v = 3.; fx.build(t); CHECK(fx.ok, "set up"); Ref R(*fx.t); Itr I = point(0); fx.curr(I); fx.data->Set_W(fx.cq->curr_exact_hessian()); AlgorithmBuilder bld; SmartPtr<AugSystemSolver> as = bld.GetAugSystemSolver(fx.jn(), o, ""); SmartPtr<PDPerturbationHandler> h = new PDPerturbationHandler; if( kind ) { o.SetStringValue("perturb_always_cd", "yes"); o.SetNumericValue("jacobian_regularization_value", .0625); o.SetNumericValue("jacobian_regularization_exponent", 0.); }
   fx.data->Set_mu(.25); SmartPtr<PDFullSpaceSolver> u = new PDFullSpaceSolver(*as, *h); CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization"); Itr r; SmartPtr<IteratesVector> rhs = vec(fx, "r", r), res = fx.make(point(0)); for( int k = 0; k < 8; k++ ) for( size_t i = 0; i < r.b[k].size(); i++ ) ASSUME(vabs(r.b[k][i]) < 1e3); CHECK(u->Solve(1., 0., *rhs, *res, true), "direction is found"); Itr v; for( int k = 0; k < 8; k++ ) dvget(*res->GetComp(k), v.b[k]); double d[4]; fx.data->getPDPert(d[0], d[1], d[2], d[3]); CHECK((d[0] == 0.) == conv, "Hessian is perturbed exactly if needed"); CHECK(d[2] == (kind ? .0625 : 0.) && d[3] == d[2], "constraint regularization only if requested"); Itr e = resid(fx, R, I, d, r, v); for( int k = 0; k < 8; k++ ) for( size_t i = 0; i < e.b[k].size(); i++ ) CHECK(vabs(e.b[k][i]) < 1e-6, "the direction solves the primal-dual Newton system"); REACH("newton");
}
// reports of the linear solver
static void script(int curv, int len)
{
   Fix fx; OptionsList& o = fx.opt(); if( curv ) o.SetNumericValue("neg_curv_test_tol", .5); if( curv ) o.SetStringValue("neg_curv_test_reg", curv == 2 ? "yes" : "no"); fx.build(prob()); CHECK(fx.ok, "set up"); Ref R(*fx.t); Itr I = point(0); fx.curr(I); fx.data->Set_W(fx.cq->curr_exact_hessian()); SmartPtr<Aug> a = new Aug; a->mode = Aug::SCRIPT; a->left = len; a->qfork = true; if( curv ) { a->sx = VD{0., 1., 0.}; a->sx[1] = symd("dx1"); ASSUME(vabs(a->sx[1]) < 100.); a->ss = VD{symd("ds"), 0.}; a->sc = VD{0.}; a->sd = VD{0., 0.}; } SmartPtr<Hnd> h = new Hnd; h->forks = true;
   struct Track: public Hnd {}; SmartPtr<PDFullSpaceSolver> u = new PDFullSpaceSolver(*a, *h); CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization"); Itr r; for( int k = 0; k < 8; k++ ) r.b[k] = VD(fx.dim(k), 1.); SmartPtr<IteratesVector> rhs = fx.make(r), res = fx.make(r); bool ok = u->Solve(1., 0., *rhs, *res, true); double d[4], e[4]; h->CurrentPerturbation(e[0], e[1], e[2], e[3]);
   CHECK(h->nnew == 1, "one new system"); CHECK(a->check == (curv == 0), "inertia check"); CHECK(a->nq <= 1 + h->nsing, "quality is not increased repeatedly");
   if( !ok ) { CHECK(a->last == SYMSOLVER_FATAL_ERROR || h->k == 3 || h->nsing + h->nin > h->k, "failure only if the solver fails or no perturbation is left"); if( a->last == SYMSOLVER_FATAL_ERROR ) REACH("fatal"); return; }
   CHECK(a->last == SYMSOLVER_SUCCESS, "only a successful solution is used"); for( int k = 0; k < 4; k++ ) CHECKEQ(a->d[k], e[k], "solution belongs to the current perturbation"); fx.data->getPDPert(d[0], d[1], d[2], d[3]); for( int k = 0; k < 4; k++ ) CHECKEQ(d[k], e[k], "perturbation is recorded"); CHECK(h->nsing + h->nin == h->k, "every request was answered");
   if( h->nsing ) REACH("singular"); if( h->nin ) REACH("many"); 
   if( curv ) { double s1 = a->sx[1], xx = s1 * s1 + a->ss[0] * a->ss[0], sg = I.b[5][1] / R.sxu(I, 1), ts = I.b[6][0] / R.ssl(I, 0) + I.b[7][0] / R.ssu(I, 0), q = (-3. + sg) * s1 * s1 + ts * a->ss[0] * a->ss[0]; if( curv == 2 ) q += e[0] * s1 * s1 + e[1] * a->ss[0] * a->ss[0]; CHECK(a->neg == 3 || q >= .5 * xx - 1e-6 * (1. + xx), "with the inertia heuristic, wrong inertia is accepted only for directions of positive curvature"); REACH("curvature"); }
}
// one report at a time: what it triggers
static void reaction()
{
   struct One: public Aug { std::vector<int> rep; int pos; One() : pos(0) {} ESymSolverStatus Solve(const SymMatrix* W_, Number wf, const Vector* Dx_, Number dx, const Vector* Ds_, Number ds, const Matrix* Jc_, const Vector* Dc, Number dc, const Matrix* Jd_, const Vector* Dd, Number dd, const Vector& rx_, const Vector& rs_, const Vector& rc_, const Vector& rd_, Vector& x, Vector& s, Vector& yc, Vector& yd, bool chk, Index num) { Aug::Solve(W_, wf, Dx_, dx, Ds_, ds, Jc_, Dc, dc, Jd_, Dd, dd, rx_, rs_, rc_, rd_, x, s, yc, yd, chk, num); int r = pos < (int) rep.size() ? rep[pos] : 0; pos++; neg = r == 2 ? 2 : r == 3 ? 4 : 3; return r == 0 ? SYMSOLVER_SUCCESS : r == 1 ? SYMSOLVER_SINGULAR : SYMSOLVER_WRONG_INERTIA; } };
   Fix fx; bool nocon = symbf("no constraints"); SmartPtr<QTNLP> t = nocon ? new QTNLP(2, 0) : GetRawPtr(prob()); if( nocon ) { t->xl[0] = 0.; t->Q.push_back(Trip{0, 0, 1.}); } fx.build(t); CHECK(fx.ok, "set up"); Itr I; if( nocon ) { I.b[0] = VD{1., 1.}; I.b[4] = VD{1.}; } else I = point(0); fx.curr(I); fx.data->Set_W(fx.cq->curr_exact_hessian()); SmartPtr<One> a = new One; int n = symfork("reports", 1, 3); for( int i = 0; i < n; i++ ) a->rep.push_back(symfork("report", 1, 3)); a->qok = !symbf("quality at its limit"); SmartPtr<Hnd> h = new Hnd; SmartPtr<PDFullSpaceSolver> u = new PDFullSpaceSolver(*a, *h); CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, fx.opt(), ""), "initialization");
   Itr r; for( int k = 0; k < 8; k++ ) r.b[k] = VD(fx.dim(k), 1.); SmartPtr<IteratesVector> rhs = fx.make(r), res = fx.make(r); bool ok = u->Solve(1., 0., *rhs, *res, true); int sing = 0, in = 0, q = 0; bool imp = false; int negs = nocon ? 0 : 3;
   for( int i = 0; i < n; i++ ) { int e = a->rep[i], ng = e == 2 ? 2 : 4; if( e == 1 ) { if( negs ) sing++; else in++; } else if( ng < negs ) { REACH("few"); if( !imp ) { q++; imp = a->qok; if( !imp ) sing++; } else sing++; } else in++; }
   CHECK(ok, "direction is found"); CHECK(a->calls == n + 1, "solved again after every report"); CHECK(a->nq == q, "better quality is requested if eigenvalues are missing, once per matrix"); CHECK(h->nsing == sing, "perturbation for singular systems"); CHECK(h->nin == in, "perturbation for wrong inertia");
}
// iterative refinement on  [W J'; J 0], one variable, one constraint
static void refine(int set, int len)
{
   Fix fx; OptionsList& o = fx.opt(); int mn = set & 1 ? 0 : 1, mx = set & 1 ? 2 : 1 + (set >> 1); double rmax = 1e-4, rsing = set & 2 ? .001 : .5, impf = .5; o.SetIntegerValue("min_refinement_steps", mn); o.SetIntegerValue("max_refinement_steps", mx); o.SetNumericValue("residual_ratio_max", rmax); o.SetNumericValue("residual_ratio_singular", rsing); o.SetNumericValue("residual_improvement_factor", impf);
   SmartPtr<QTNLP> t = new QTNLP(1, 1); t->gl[0] = t->gu[0] = 0.; t->Q.push_back(Trip{0, 0, 2.}); t->A.push_back(Trip{0, 0, 1.}); fx.build(t); CHECK(fx.ok, "set up"); Itr I; I.b[0] = VD{1.}; I.b[2] = VD{0.}; fx.curr(I); fx.data->Set_W(fx.cq->curr_exact_hessian()); SmartPtr<Aug> a = new Aug; a->mode = Aug::EXACT; a->left = len; a->qok = !symbf("quality at its limit"); SmartPtr<Hnd> h = new Hnd; SmartPtr<PDFullSpaceSolver> u = new PDFullSpaceSolver(*a, *h); CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization");
   Itr r; r.b[0] = VD{4.}; r.b[2] = VD{3.}; double al = -1., be = set & 1 ? 2. : 0.; Itr z; z.b[0] = VD{16.}; z.b[2] = VD{32.}; SmartPtr<IteratesVector> rhs = fx.make(r), res = fx.make(z); bool ok = u->Solve(al, be, *rhs, *res, false);
   // documented procedure, driven by the same relative errors
   size_t p = 0; int nq = 0, ns = 0, k = 0; bool improved = false, pretended = false, good = true, bad = false; double x, y, dx = PX[0], dc = PC[0], ratio = 0.; 
   while( true )
   {
      double rx = 4., rc = 3., E = 1.; x = y = 0.; int steps = -1; double old = 0.; bool quit = false, again = false, pret = false;
      while( true )
      {
         double e = p < a->err.size() ? a->err[p] : 7e77; p++; double A_ = 2. + dx, det = -A_ * dc - 1., sx = (-dc * rx - rc) / det * (1. + e), sy = (A_ * rc - rx) / det * (1. + e); x += sx; y += sy; rx = 4. - A_ * x - y; rc = 3. - x + dc * y; E = vmax(vabs(rx), vabs(rc)); ratio = E / (vmin(vmax(vabs(x), vabs(y)), 4e6) + 4.); steps++;
         if( steps && ratio > rmax && steps > mn && (steps > mx || ratio > impf * old) ) { quit = true; break; } old = ratio; if( steps >= mn && !(ratio > rmax) ) break;
      }
      CHECK(steps >= mn && steps <= mx + 1, "number of refinement steps"); if( steps > 0 ) REACH("refined"); if( !quit ) break;
      if( pretended ) break; if( !improved ) { nq++; improved = a->qok; if( improved ) { again = true; REACH("better"); } else pret = true; } else pret = true; if( pret ) { pretended = true; if( ratio < rsing ) { REACH("accepted"); break; } }
      if( again ) continue; REACH("pretend"); ns++; k++; if( k > 3 ) { good = false; break; } dx = PX[k]; dc = PC[k]; improved = false; (void) bad; // a changed matrix may be solved with better quality again
      improved = true;
   }
   CHECK(ok == good, "success"); CHECK(a->nq == nq, "better quality is requested once per matrix"); CHECK(h->nsing == ns, "a matrix is treated as singular only if its residual stays very large"); CHECK(a->calls == (int) p, "number of solutions"); if( !ok ) return; VD gx, gy; dvget(*res->x(), gx); dvget(*res->y_c(), gy); CHECK(vabs(gx[0] - (al * x + be * 16.)) < 1e-7, "result"); CHECK(vabs(gy[0] - (al * y + be * 32.)) < 1e-7, "result");
}
struct MockPD: public PDSystemSolver
{
   bool ok; int calls; double al, be; bool inex, imp; Itr rhs, in, out; MockPD() : ok(true), calls(0) {} bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool Solve(Number a, Number b, const IteratesVector& r, IteratesVector& s, bool allow, bool improve) { calls++; al = a; be = b; inex = allow; imp = improve; for( int k = 0; k < 8; k++ ) { dvget(*r.GetComp(k), rhs.b[k]); if( improve ) dvget(*s.GetComp(k), in.b[k]); out.b[k].clear(); for( int i = 0; i < s.GetComp(k)->Dim(); i++ ) out.b[k].push_back(k + .25 * i + 1.); VD w = out.b[k]; w.push_back(0.); static_cast<DenseVector*>(GetRawPtr(s.GetCompNonConst(k)))->SetValues(&w[0]); } return ok; }
};
static void direction(int what)
{
   Fix fx; OptionsList& o = fx.opt(); bool fast = symbf("fast"), mehr = what == 1; double kd = symbf("damping") ? .125 : 0.; o.SetStringValue("fast_step_computation", fast ? "yes" : "no"); o.SetNumericValue("kappa_d", kd); o.SetStringValue("mehrotra_algorithm", mehr ? "yes" : "no"); if( mehr ) { o.SetStringValue("adaptive_mu_globalization", "never-monotone-mode"); o.SetStringValue("mu_strategy", "adaptive"); o.SetStringValue("corrector_type", "none"); o.SetStringValue("accept_every_trial_step", "yes"); } fx.build(prob()); CHECK(fx.ok, "set up"); Ref R(*fx.t); Itr I; fx.curr(point(0)); I = fx.sym("i"); for( int j = 0; j < R.nb(); j++ ) ASSUME(R.slack(I, j) > .001); fx.curr(I); double mu = .25; fx.data->Set_mu(mu);
   SmartPtr<MockPD> m = new MockPD; SmartPtr<PDSearchDirCalculator> u = new PDSearchDirCalculator(GetRawPtr(m)); CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, o, ""), "initialization"); bool have = !mehr && symbf("direction known"); Itr known, aff; for( int k = 0; k < 8; k++ ) { known.b[k] = VD(fx.dim(k), 3. + k); aff.b[k] = VD(fx.dim(k), 0.); for( size_t i = 0; i < aff.b[k].size(); i++ ) aff.b[k][i] = .5 * k - i - 1.; } if( have ) { fx.delta(known); fx.data->SetHaveDeltas(true); } if( mehr ) { SmartPtr<IteratesVector> v = fx.make(aff); fx.data->set_delta_aff(v); fx.data->SetHaveAffineDeltas(true); REACH("mehrotra"); }
   m->ok = !symbf("solver fails"); bool ok = u->ComputeSearchDirection(); if( have && fast ) { CHECK(ok && m->calls == 0, "a known direction is used"); ckvec(fx, *fx.data->delta(), known, "known direction"); REACH("fast"); return; }
   CHECK(m->calls == 1 && m->al == -1. && m->be == 0. && m->inex == fast && m->imp == have, "solver request"); Itr e; e.b[0] = R.gradLx(I); e.b[1] = R.gradLs(I); e.b[2] = R.c(I); e.b[3] = R.dms(I); if( kd ) { e.b[0][1] -= kd * mu; e.b[1][1] += kd * mu; }
   for( size_t k = 0; k < R.xl.size(); k++ ) e.b[4].push_back(R.sxl(I, k) * I.b[4][k] - mu + (mehr ? aff.b[0][R.xl[k]] * aff.b[4][k] : 0.)); for( size_t k = 0; k < R.xu.size(); k++ ) e.b[5].push_back(R.sxu(I, k) * I.b[5][k] - mu - (mehr ? aff.b[0][R.xu[k]] * aff.b[5][k] : 0.)); for( size_t k = 0; k < R.dl.size(); k++ ) e.b[6].push_back(R.ssl(I, k) * I.b[6][k] - mu + (mehr ? aff.b[1][R.dl[k]] * aff.b[6][k] : 0.)); for( size_t k = 0; k < R.du.size(); k++ ) e.b[7].push_back(R.ssu(I, k) * I.b[7][k] - mu - (mehr ? aff.b[1][R.du[k]] * aff.b[7][k] : 0.));
   for( int k = 0; k < 8; k++ ) for( size_t i = 0; i < e.b[k].size(); i++ ) CHECKEQ(m->rhs.b[k][i], e.b[k][i], "right-hand side is the residual of the perturbed optimality conditions"); CHECK(ok == m->ok, "failure of the linear solver is reported"); if( have ) { REACH("improve"); for( int k = 0; k < 8; k++ ) for( size_t i = 0; i < known.b[k].size(); i++ ) CHECKEQ(m->in.b[k][i], -known.b[k][i], "known direction is improved"); } if( ok ) { ckvec(fx, *fx.data->delta(), m->out, "search direction"); REACH("store"); }
}
extern "C" int sym_main()
{
   int c = __sym_case(); if( c == 0 ) algebra(0, 1., 0.); else if( c == 1 ) algebra(1, -1., 0.); else if( c == 2 ) script(0, 4); else if( c == 3 ) script(1 + symfork("regularized", 0, 1), 3); else if( c == 4 ) reaction(); else if( c == 5 ) refine(symfork("set", 0, 3), 5); else if( c == 6 ) algebra(0, .5, 2.); else if( c == 7 ) { int k = symfork("regularized", 0, 1); newton(k, k); } else if( c == 8 ) direction(0); else if( c == 9 ) direction(1);
   else if( c < 24 ) refine(c - 20, 7); else if( c == 24 ) script(0, 5); else if( c == 25 ) script(1, 4); else if( c == 26 ) script(2, 4); else if( c == 27 ) algebra(1, .5, 2.); else newton(c - 28);
   return 0;
}
