//! {"quick":["0-14","20-25"],"thorough":["0-14","20-25","50-64"],"level":"model_checking",
//!  "reach":["solved","again","failed","reuse","scaled","switched","restart","slackscal"],
//!  "bounds":["every matrix format, scaling off / always / on demand; every history of 2 (thorough: 3) requests (same or changed matrix, 1 or 2 right-hand sides, request for more accuracy, restart with the same structure) and every answer of the linear solver (success, call again, singular, wrong inertia, failure), all matrix values, right-hand sides, scaling factors and answers","slack-based scaling: every kind of bounds on two inequality slacks, arbitrary slacks"],
//!  "assumptions":["real arithmetic","the factorization code is a stand-in that checks what it is given and answers arbitrarily"],
//!  "outside":["MC19 scaling (HSL library not available)","matrices beyond 3x3"]}
#include "fix.h"
#include "IpTSymLinearSolver.hpp"
#include "IpSymTMatrix.hpp"
#include "IpSlackBasedTSymScalingMethod.hpp"
typedef std::vector<int> VI;
static const int N = 3, NZ = 5; static Index IR[NZ] = {1, 3, 2, 2, 3}, JC[NZ] = {1, 1, 2, 3, 2};   // entry (3,2) appears twice (once per triangle)
static VD mat, sc; static bool scaling; static int n_sc;
class Scal: public TSymScalingMethod
{
public:
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   bool ComputeSymTScalingFactors(Index n, Index nnz, const Index* ir, const Index* jc, const Number* a, Number* f)
   { 
      CHECK(n == N && nnz == NZ, "scaling method: dimensions"); for( int k = 0; k < NZ; k++ ) { CHECK(ir[k] == IR[k] && jc[k] == JC[k], "scaling method: positions"); CHECKEQ(a[k], mat[k], "scaling method sees the unscaled matrix"); }
      n_sc++; sc.resize(N); for( int i = 0; i < N; i++ ) f[i] = sc[i] = symdi("scale", i); scaling = true; return true;
   }
};
struct Ctl { int again; int status; VD rhs; int nrhs; bool chk; int neg; VD sol; int calls; };
static Ctl* ctl;
class Mock: public SparseSymLinearSolverInterface
{
public:
   EMatrixFormat fmt; VI ia, ja; VD a, have; VD havesc; int nnz, inits, qual; bool havem, fresh; int negev;
   Mock(int f) : fmt(EMatrixFormat(f)), nnz(-1), inits(0), qual(0), havem(false), fresh(false), negev(-1) {}
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   ESymSolverStatus InitializeStructure(Index dim, Index nz, const Index* i, const Index* j) { inits++; CHECK(dim == N, "dimension given to the linear solver"); nnz = nz; bool tri = fmt == Triplet_Format; ia.assign(i, i + (tri ? nz : dim + 1)); ja.assign(j, j + nz); a.assign(nz + 1, -7777.); havem = false; return SYMSOLVER_SUCCESS; }
   Number* GetValuesArrayPtr() { fresh = true; return &a[0]; }
   VD dense() { VD D(N * N, 0.); bool ok = true; bool tri = fmt == Triplet_Format, full = fmt == CSR_Full_Format_0_Offset || fmt == CSR_Full_Format_1_Offset; int off = (tri || fmt == CSR_Format_1_Offset || fmt == CSR_Full_Format_1_Offset) ? 1 : 0;
      auto put = [&](int i, int j, double v) { if( i < 0 || j < 0 || i >= N || j >= N ) { ok = false; return; } D[i * N + j] += v; if( !full && i != j ) D[j * N + i] += v; };
      if( tri ) for( int k = 0; k < nnz; k++ ) put(ia[k] - 1, ja[k] - 1, a[k]); else for( int i = 0; i < N; i++ ) for( int k = ia[i] - off; k < ia[i + 1] - off; k++ ) put(i, ja[k] - off, a[k]);
      CHECK(ok, "positions given to the linear solver"); return D; }
   VD want() { VD D(N * N, 0.); for( int k = 0; k < NZ; k++ ) { int i = IR[k] - 1, j = JC[k] - 1; double v = mat[k] * (scaling ? sc[i] * sc[j] : 1.); D[i * N + j] += v; if( i != j ) D[j * N + i] += v; } return D; }
   ESymSolverStatus MultiSolve(bool nm_, const Index* i, const Index* j, Index nrhs, Number* r, bool chk, Index neg)
   {
      Ctl& c = *ctl; c.calls++; CHECK(nrhs == c.nrhs && chk == c.chk && (!chk || neg == c.neg), "request passed on"); bool tri = fmt == Triplet_Format; bool same = true; for( int k = 0; k < (tri ? nnz : N + 1); k++ ) if( i[k] != ia[k] ) same = false; for( int k = 0; k < nnz; k++ ) if( j[k] != ja[k] ) same = false; CHECK(same, "structure as initialized");
      if( nm_ || c.calls > 1 ) { CHECK(fresh, "values are given for a new matrix or when called again"); have = dense(); havem = true; fresh = false; for( auto& v : a ) v = -7777.; }
      CHECK(havem, "a matrix has been given"); VD w = want(); bool q = have.size() == w.size(); CHECK(q, "matrix"); for( size_t k = 0; q && k < w.size(); k++ ) CHECKEQ(have[k], w[k], "the factorized matrix is the current matrix (scaled)");
      for( int k = 0; k < nrhs; k++ ) for( int l = 0; l < N; l++ ) CHECKEQ(r[k * N + l], c.rhs[k * N + l] * (scaling ? sc[l] : 1.), "right-hand side");
      if( c.again ) { c.again--; REACH("again"); return SYMSOLVER_CALL_AGAIN; }
      if( c.status == 0 ) { for( int k = 0; k < nrhs * N; k++ ) r[k] = c.sol[k]; return SYMSOLVER_SUCCESS; }
      for( int k = 0; k < nrhs * N; k++ ) r[k] = -5.; return c.status == 1 ? SYMSOLVER_SINGULAR : c.status == 2 ? SYMSOLVER_WRONG_INERTIA : SYMSOLVER_FATAL_ERROR;
   }
   Index NumberOfNegEVals() const { return negev; }
   bool IncreaseQuality() { qual++; return qual == 1; }
   bool ProvidesInertia() const { return true; }
   EMatrixFormat MatrixFormat() const { return fmt; }
};
static void solves(int c, int steps)
{
   static const int F[5] = {SparseSymLinearSolverInterface::Triplet_Format, SparseSymLinearSolverInterface::CSR_Format_0_Offset, SparseSymLinearSolverInterface::CSR_Format_1_Offset, SparseSymLinearSolverInterface::CSR_Full_Format_0_Offset, SparseSymLinearSolverInterface::CSR_Full_Format_1_Offset};
   int mode = c / 5; Fix fx; if( mode ) fx.opt().SetStringValue("linear_scaling_on_demand", mode == 1 ? "no" : "yes"); SmartPtr<QTNLP> t = new QTNLP(1, 0); fx.build(t); CHECK(fx.ok, "set up");
   SmartPtr<Mock> mk = new Mock(F[c % 5]); SmartPtr<Scal> sm; if( mode ) sm = new Scal(); SmartPtr<TSymLinearSolver> ls = new TSymLinearSolver(GetRawPtr(mk), GetRawPtr(sm)); CHECK(ls->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, fx.opt(), ""), "initialization");
   SmartPtr<SymTMatrixSpace> ms = new SymTMatrixSpace(N, NZ, IR, JC); SmartPtr<SymTMatrix> m = ms->MakeNewSymTMatrix(); SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(N); bool ondemand = mode == 2, switched = false; int exp_sc = 0, ninit = 1; bool first = true, due = false;
   for( int s = 0; s < steps; s++ )
   {
      int pre = s ? symfork("before", 0, 3) : 1;   // 0 same matrix, 1 changed matrix, 2 more accuracy wanted, 3 restart with the same structure and a changed matrix
      if( pre == 2 ) { int q0 = mk->qual; bool r = ls->IncreaseQuality(); if( ondemand && !switched ) { CHECK(r && mk->qual == q0, "scaling is switched on first"); switched = true; due = true; REACH("switched"); } else { CHECK(mk->qual == q0 + 1 && r == (q0 == 0), "request for accuracy reaches the linear solver"); } }
      if( pre == 3 ) { fx.opt().SetStringValue("warm_start_same_structure", "yes"); CHECK(ls->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, fx.opt(), ""), "initialization again"); if( ondemand ) switched = false; if( mode != 1 ) scaling = false; due = false; REACH("restart"); }
      bool changed = pre == 1 || pre == 3; if( changed ) { mat.assign(NZ, 0.); for( int k = 0; k < NZ; k++ ) mat[k] = symdi("a", k); m->SetValues(&mat[0]); } bool usesc = mode == 1 || switched; if( usesc && (changed || due) ) exp_sc++; due = false; if( !changed ) REACH("reuse");
      Ctl ct; ctl = &ct; ct.calls = 0; ct.nrhs = s == 0 ? symfork("rhs", 1, 2) : 1; ct.again = symfork("call again", 0, s == 0 ? 2 : 1); int na = ct.again; ct.status = symfork("answer", 0, 3); ct.chk = ct.status == 2 || (s == 0 && ct.status == 0 && symbf("check inertia")); ct.neg = ct.chk ? (int) symi("negative eigenvalues", 0, N) : 0; if( ct.status == 0 ) for( int k = 0; k < ct.nrhs * N; k++ ) ct.sol.push_back(symdi("answer", k));
      std::vector<SmartPtr<const Vector> > R; std::vector<SmartPtr<Vector> > X; VD old; for( int k = 0; k < ct.nrhs; k++ ) { SmartPtr<DenseVector> r = symvec(GetRawPtr(vs), nm("rhs", k), k == 0 && s == 1 && ct.status == 0 && symbf("homogeneous")); VD g; dvget(*r, g); ct.rhs.insert(ct.rhs.end(), g.begin(), g.end()); R.push_back(GetRawPtr(r)); SmartPtr<DenseVector> x = vs->MakeNewDenseVector(); x->Set(3.); X.push_back(GetRawPtr(x)); }
      ESymSolverStatus st = ls->MultiSolve(*m, R, X, ct.chk, ct.neg);
      CHECK(ct.calls == 1 + na, "number of calls"); CHECK(st == (ct.status == 0 ? SYMSOLVER_SUCCESS : ct.status == 1 ? SYMSOLVER_SINGULAR : ct.status == 2 ? SYMSOLVER_WRONG_INERTIA : SYMSOLVER_FATAL_ERROR), "the answer is passed on"); if( pre == 3 ) ninit++; CHECK(mk->inits == ninit, "structure is initialized once");
      CHECK(n_sc == exp_sc, "scaling factors are computed for every new matrix"); mk->negev = (int) symi("found", 0, N); CHECK(ls->NumberOfNegEVals() == mk->negev, "inertia is passed on");
      if( ct.status == 0 ) { for( int k = 0; k < ct.nrhs; k++ ) { VD g; dvget(*X[k], g); for( int i = 0; i < N; i++ ) CHECKEQ(g[i], ct.sol[k * N + i] * (scaling ? sc[i] : 1.), "solution"); } REACH("solved"); if( scaling ) REACH("scaled"); } else REACH("failed");
      for( int k = 0; k < ct.nrhs; k++ ) { VD g; dvget(*R[k], g); for( int i = 0; i < N; i++ ) CHECKEQ(g[i], ct.rhs[k * N + i], "right-hand side is left alone"); }
      first = false; if( ct.status == 3 ) return;
   }
}
static void slack(int k)
{ // bounds of the two inequality rows: lower, upper, both
   static const int P[6][2] = {{1, 1}, {1, 2}, {2, 3}, {3, 1}, {3, 3}, {2, 2}};
   SmartPtr<QTNLP> t = new QTNLP(2, 3); Fix fx; t->A.push_back(Trip{0, 0, 1.}); t->A.push_back(Trip{1, 1, 1.}); t->A.push_back(Trip{2, 0, 1.}); t->gl[1] = t->gu[1] = 1.; for( int r = 0; r < 2; r++ ) { int q = r * 2; t->gl[q] = P[k][r] & 1 ? -1. : -2e19; t->gu[q] = P[k][r] & 2 ? 4. : 2e19; }
   fx.build(t); CHECK(fx.ok, "set up"); Ref R(*t); Itr I = fx.sym("c"); for( int j = 0; j < R.nb(); j++ ) ASSUME(R.slack(I, j) > 1e-3); for( int a = 0; a < 8; a++ ) for( auto v : I.b[a] ) { ASSUME(v < 1e6); ASSUME(v > -1e6); } fx.curr(I);
   SmartPtr<SlackBasedTSymScalingMethod> s = new SlackBasedTSymScalingMethod(); CHECK(s->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, fx.opt(), ""), "initialization"); VD f(9, -7.); CHECK(s->ComputeSymTScalingFactors(7, 0, NULL, NULL, NULL, &f[0]), "computed");
   VD e(7, 1.); for( int i = 0; i < 2; i++ ) { double q = 0.; if( P[k][i] & 1 ) q += I.b[1][i] + 1.; if( P[k][i] & 2 ) q += 4. - I.b[1][i]; e[2 + i] = vmin(1., q); } for( int i = 0; i < 7; i++ ) CHECKEQ(f[i], e[i], "slack-based scaling factor"); CHECK(f[7] == -7., "nothing written behind the factors"); for( int i = 0; i < 7; i++ ) CHECK(f[i] > 0., "scaling factors are positive"); REACH("slackscal");
}
extern "C" int sym_main()
{
   int c = __sym_case();
   if( c < 15 ) solves(c, 2); else if( c < 30 ) slack(c - 20); else solves(c - 50, 3);
   return 0;
}
