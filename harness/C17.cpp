//! {"quick":["0-10"],"thorough":["0-10","20-22"],"level":"model_checking",
//!  "reach":["system","unchanged","changed","failure","null","resto","restonull","lowrank","lrchange","lrfail","noinertia","general","again"],
//!  "bounds":["standard system: a fixed structure with two variables, one equality and one inequality; all matrix and vector entries; every sequence of two changes of one part each (thorough: three)","restoration reduction: all right-hand sides and all answers of the inner solver, concrete diagonal terms, every combination of absent parts","low-rank Hessians: concrete factors of rank 0 to 2, all right-hand sides, sequences with changed and failed factorizations"],
//!  "assumptions":["real arithmetic","the inner solver is a stand-in with arbitrary answers (standard, restoration, general) or exact (low rank)"],
//!  "outside":["Hessian factors other than 0 and 1 with low-rank Hessians"]}
#include "resto.h"
#include "mats.h"
#include "IpStdAugSystemSolver.hpp"
#include "IpAugRestoSystemSolver.hpp"
#include "IpLowRankAugSystemSolver.hpp"
#include "IpLowRankSSAugSystemSolver.hpp"
#include "IpLowRankUpdateSymMatrix.hpp"
#undef __IP_STDAUGSYSTEMSOLVER_HPP__
#include "IpGenAugSystemSolver.hpp"
#include "IpMultiVectorMatrix.hpp"
#include "IpLeastSquareMults.hpp"
static bool D(bool c) { return __sym_decide(c) != 0; }
static SmartPtr<DenseVectorSpace> SP[4];
static SmartPtr<DenseVector> vec(int k, const VD& v) { if( IsNull(SP[k]) ) SP[k] = new DenseVectorSpace((int) v.size()); SmartPtr<DenseVector> r = SP[k]->MakeNewDenseVector(); VD w = v; w.push_back(0.); r->SetValues(&w[0]); return r; }
static void put(Vector& v, VD w) { w.push_back(0.); static_cast<DenseVector&>(v).SetValues(&w[0]); }
// blocks in the order x, s, c, d
struct Sys
{
   int n, q, p; VD W, Jc, Jd, dg[4]; bool hasW, hasD[4]; double f, de[4]; SmartPtr<SymTMatrix> mW; SmartPtr<GenTMatrix> mJc, mJd; SmartPtr<DenseVector> mD[4];
   SmartPtr<SymTMatrixSpace> wsp; SmartPtr<GenTMatrixSpace> csp, dsp;
   int dim(int k) const { return k == 0 ? n : k == 2 ? p : q; } int N() const { return n + 2 * q + p; } int off(int k) const { return k == 0 ? 0 : k == 1 ? n : k == 2 ? n + q : n + q + p; }
   Sys() : n(2), q(1), p(1), hasW(true), f(1.) { for( int k = 0; k < 4; k++ ) { hasD[k] = true; de[k] = 0.; } }
   void spaces() { std::vector<Index> r, c; for( int i = 0; i < n; i++ ) for( int j = 0; j <= i; j++ ) { r.push_back(i + 1); c.push_back(j + 1); } wsp = new SymTMatrixSpace(n, (int) r.size(), &r[0], &c[0]); csp = gen(p); dsp = gen(q); }
   SmartPtr<GenTMatrixSpace> gen(int m) { std::vector<Index> r(1), c(1); r.clear(); c.clear(); for( int i = 0; i < m; i++ ) for( int j = 0; j < n; j++ ) { r.push_back(i + 1); c.push_back(j + 1); } return new GenTMatrixSpace(m, n, (int) r.size(), &r[0], &c[0]); }
   void setW() { mW = wsp->MakeNewSymTMatrix(); VD v; for( int i = 0; i < n; i++ ) for( int j = 0; j <= i; j++ ) v.push_back(W[i * n + j]); mW->SetValues(&v[0]); }
   void setJ(int k) { SmartPtr<GenTMatrix>& m = k == 2 ? mJc : mJd; m = (k == 2 ? csp : dsp)->MakeNewGenTMatrix(); m->SetValues(k == 2 ? &Jc[0] : &Jd[0]); }
   void setD(int k) { mD[k] = vec(k, dg[k]); }
   void concrete() { static const double a[] = {4., 1., -.5, 2., 3., 1.5, 5., -2., .25}; W = VD(n * n); for( int i = 0; i < n; i++ ) for( int j = 0; j <= i; j++ ) W[i * n + j] = W[j * n + i] = a[(i * 2 + j) % 9] + (i == j ? 3. : 0.); for( int i = 0; i < p * n; i++ ) Jc.push_back(a[(i + 3) % 9]); for( int i = 0; i < q * n; i++ ) Jd.push_back(a[(i * 2 + 1) % 9]); for( int k = 0; k < 4; k++ ) for( int i = 0; i < dim(k); i++ ) dg[k].push_back(k < 2 ? 1. + i : -.5 - i); done(); }
   void arb() { W = VD(n * n); for( int i = 0; i < n; i++ ) for( int j = 0; j <= i; j++ ) W[i * n + j] = W[j * n + i] = symdi("W", i * n + j); for( int i = 0; i < p * n; i++ ) Jc.push_back(symdi("Jc", i)); for( int i = 0; i < q * n; i++ ) Jd.push_back(symdi("Jd", i)); for( int k = 0; k < 4; k++ ) for( int i = 0; i < dim(k); i++ ) dg[k].push_back(symdi(k == 0 ? "Dx" : k == 1 ? "Ds" : k == 2 ? "Dc" : "Dd", i)); done(); }
   void done() { spaces(); setW(); setJ(2); setJ(3); for( int k = 0; k < 4; k++ ) setD(k); }
   VD dense(const VD* Wfull = NULL) const
   {
      int m = N(); VD K(m * m, 0.); const VD& w = Wfull ? *Wfull : W; for( int i = 0; i < n; i++ ) for( int j = 0; j < n; j++ ) if( hasW && f != 0. ) K[i * m + j] = f == 1. ? w[i * n + j] : f * w[i * n + j];
      for( int k = 0; k < 4; k++ ) for( int i = 0; i < dim(k); i++ ) { int o = off(k) + i; if( hasD[k] ) K[o * m + o] += dg[k][i]; K[o * m + o] += k < 2 ? de[k] : -de[k]; }
      for( int i = 0; i < p; i++ ) for( int j = 0; j < n; j++ ) K[(off(2) + i) * m + j] = K[j * m + off(2) + i] = Jc[i * n + j]; for( int i = 0; i < q; i++ ) { for( int j = 0; j < n; j++ ) K[(off(3) + i) * m + j] = K[j * m + off(3) + i] = Jd[i * n + j]; K[(off(3) + i) * m + off(1) + i] = K[(off(1) + i) * m + off(3) + i] = -1.; } return K;
   }
   ESymSolverStatus solve(AugSystemSolver& a, const SymMatrix* Wm, const VD& b, VD& x, bool chk, int neg)
   {
      VD r[4]; SmartPtr<DenseVector> R[4], S[4]; for( int k = 0; k < 4; k++ ) { r[k] = VD(b.begin() + off(k), b.begin() + off(k) + dim(k)); R[k] = vec(k, r[k]); S[k] = SP[k]->MakeNewDenseVector(); }
      const Vector* d[4]; for( int k = 0; k < 4; k++ ) d[k] = hasD[k] ? GetRawPtr(mD[k]) : NULL; ESymSolverStatus st = a.Solve(hasW ? Wm : NULL, f, d[0], de[0], d[1], de[1], GetRawPtr(mJc), d[2], de[2], GetRawPtr(mJd), d[3], de[3], *R[0], *R[1], *R[2], *R[3], *S[0], *S[1], *S[2], *S[3], chk, neg); x.clear(); if( st == SYMSOLVER_SUCCESS ) for( int k = 0; k < 4; k++ ) { VD g; dvget(*S[k], g); x.insert(x.end(), g.begin(), g.end()); } return st;
   }
   // one part changes
   void change(int w, int id) { static const double N1[] = {2., 7., -3., .5}; if( w == 0 ) { W[0] = symdi("Wnew", id); setW(); } else if( w == 1 ) { Jc[1] = symdi("Jcnew", id); setJ(2); } else if( w == 2 ) { Jd[0] = symdi("Jdnew", id); setJ(3); } else if( w < 7 ) { int k = w - 3; dg[k][0] = symdi("Dnew", id * 4 + k); if( id & 1 ) setD(k); else put(*mD[k], dg[k]); hasD[k] = true; } else if( w < 11 ) { de[w - 7] = N1[w - 7] + id; } else if( w < 15 ) hasD[w - 11] = !hasD[w - 11]; else if( w == 15 ) hasW = !hasW; else if( w == 16 ) f = f == 0. ? 1. : 0.; else if( w == 17 ) f = .5; }
};
#define NEAR(a, b, l) do { double nd_ = (a) - (b); CHECK((nd_ < 1e-7) & (nd_ > -1e-7), l); } while( 0 )
struct MockLin: public SymLinearSolver
{
   int calls; VD b, x, prod, v; bool chk; Index want; TaggedObject::Tag tag, old; ESymSolverStatus st; int neg; const VD* test; bool have; MockLin() : calls(0), chk(false), want(0), tag(0), old(0), st(SYMSOLVER_SUCCESS), neg(2) {}
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   static void cut(const Vector& c, VD& out) { out.clear(); const CompoundVector& cv = static_cast<const CompoundVector&>(c); for( int k = 0; k < cv.NComps(); k++ ) { VD g; const Vector* w = GetRawPtr(cv.GetComp(k)); dvget(*w, g); out.insert(out.end(), g.begin(), g.end()); } }
   static void paste(Vector& c, const VD& in) { CompoundVector& cv = static_cast<CompoundVector&>(c); size_t o = 0; for( int k = 0; k < cv.NComps(); k++ ) { int d = cv.GetComp(k)->Dim(); put(*cv.GetCompNonConst(k), VD(in.begin() + o, in.begin() + o + d)); o += d; } }
   ESymSolverStatus MultiSolve(const SymMatrix& A, std::vector<SmartPtr<const Vector> >& r, std::vector<SmartPtr<Vector> >& s, bool c, Index n)
   {
      calls++; chk = c; want = n; old = tag; tag = A.GetTag(); cut(*r[0], b); SmartPtr<Vector> t = s[0]->MakeNew(), w = s[0]->MakeNew(); v.clear(); for( size_t i = 0; i < b.size(); i++ ) v.push_back(symdi("v", i)); paste(*t, v); A.MultVector(1., *t, 0., *w); cut(*w, prod); if( st != SYMSOLVER_SUCCESS ) return st; x.clear(); for( size_t i = 0; i < b.size(); i++ ) x.push_back(symdi("sol", calls * 10 + i)); paste(*s[0], x); return st;
   }
   Index NumberOfNegEVals() const { return neg; } bool IncreaseQuality() { return calls & 1; } bool ProvidesInertia() const { return true; }
};
static void env(Fix& fx) { SmartPtr<QTNLP> t = new QTNLP(1, 0); t->Q.push_back(Trip{0, 0, 1.}); fx.build(t); CHECK(fx.ok, "set up"); }
static void standard(int first, int steps)
{
   Fix fx; env(fx); SmartPtr<MockLin> lin = new MockLin; SmartPtr<StdAugSystemSolver> u = new StdAugSystemSolver(*lin); CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, fx.opt(), ""), "initialization"); Sys S; S.arb(); if( first == 1 ) { for( int k = 0; k < 4; k++ ) S.hasD[k] = symbf("diagonal"); REACH("null"); } if( first == 2 ) { S.f = 0.; S.de[0] = 1.; }
   for( int st = 0; st <= steps; st++ )
   {
      bool ch = st == 0; VD K0 = S.dense(); if( st ) { int w = symfork("change", 0, 18); ch = w < 18 && !(w == 16 && S.f == .5); if( w >= 3 && w < 7 && !S.hasD[w - 3] ) {} S.change(w, st); if( !ch && w == 16 ) ch = true; if( w == 17 && st > 1 && K0.size() && false ) ch = false; } VD K = S.dense(); int m = S.N(); VD b; for( int i = 0; i < m; i++ ) b.push_back(symdi("b", st * 10 + i)); lin->st = st == 1 && symbf("solver fails") ? SYMSOLVER_SINGULAR : SYMSOLVER_SUCCESS; bool chk = st & 1; VD x; ESymSolverStatus r = S.solve(*u, GetRawPtr(S.mW), b, x, chk, 2 + st);
      CHECK(r == lin->st, "outcome of the linear solver"); CHECK(lin->calls == st + 1 && lin->chk == chk && lin->want == 2 + st, "inertia request is passed on"); for( int i = 0; i < m; i++ ) CHECKEQ(lin->b[i], b[i], "right-hand side"); for( int i = 0; i < m; i++ ) { double s = 0.; for( int j = 0; j < m; j++ ) s += K[i * m + j] * lin->v[j]; CHECKEQ(lin->prod[i], s, "matrix of the system"); }
      if( r == SYMSOLVER_SUCCESS ) { for( int i = 0; i < m; i++ ) CHECKEQ(x[i], lin->x[i], "solution"); REACH("system"); } else REACH("failure"); if( st ) { bool same = true; for( size_t i = 0; i < K.size(); i++ ) same = same & (K[i] == K0[i]); if( !ch ) { CHECK(lin->tag == lin->old, "an unchanged matrix is recognized"); REACH("unchanged"); } else { CHECK((lin->tag != lin->old) | same, "a changed matrix is recognized"); REACH("changed"); } }
   }
   CHECK(u->NumberOfNegEVals() == 2 && u->ProvidesInertia(), "inertia"); CHECK(u->IncreaseQuality() == (lin->calls & 1), "quality");
}
static VD gauss(VD K, VD b)
{
   int m = (int) b.size(); for( int c = 0; c < m; c++ ) { int pr = c; for( int r = c; r < m; r++ ) if( std::fabs(K[r * m + c]) > std::fabs(K[pr * m + c]) ) pr = r; if( pr != c ) { for( int j = 0; j < m; j++ ) std::swap(K[c * m + j], K[pr * m + j]); std::swap(b[c], b[pr]); } for( int r = c + 1; r < m; r++ ) { double f = K[r * m + c] / K[c * m + c]; for( int j = c; j < m; j++ ) K[r * m + j] -= f * K[c * m + j]; b[r] -= f * b[c]; } }
   for( int c = m - 1; c >= 0; c-- ) { for( int j = c + 1; j < m; j++ ) b[c] -= K[c * m + j] * b[j]; b[c] /= K[c * m + c]; } return b;
}
// an exact linear solver for concrete matrices, with the inertia computed by the reference
static int negs(VD K, int m) { int n = 0; for( int c = 0; c < m; c++ ) { int p = -1; for( int r = c; r < m; r++ ) if( std::fabs(K[r * m + r]) > 1e-9 ) { p = r; break; } if( p < 0 ) { int a = -1, b = -1; for( int r = c; r < m && a < 0; r++ ) for( int s = r + 1; s < m; s++ ) if( std::fabs(K[r * m + s]) > 1e-9 ) { a = r; b = s; break; } if( a < 0 ) return -1; for( int j = 0; j < m; j++ ) K[a * m + j] += K[b * m + j]; for( int j = 0; j < m; j++ ) K[j * m + a] += K[j * m + b]; p = a; } if( p != c ) { for( int j = 0; j < m; j++ ) std::swap(K[c * m + j], K[p * m + j]); for( int j = 0; j < m; j++ ) std::swap(K[j * m + c], K[j * m + p]); } if( K[c * m + c] < 0. ) n++; for( int r = c + 1; r < m; r++ ) { double f = K[r * m + c] / K[c * m + c]; for( int j = c; j < m; j++ ) K[r * m + j] -= f * K[c * m + j]; } for( int r = c + 1; r < m; r++ ) K[c * m + r] = 0.; } return n; }
struct ExactLin: public SymLinearSolver
{
   int calls, nrhs, neg; bool inertia, sing; std::vector<bool> asked; ExactLin() : calls(0), nrhs(0), neg(0), inertia(true), sing(false) {}
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   static void cut(const Vector& v, VD& o) { const CompoundVector* cv = dynamic_cast<const CompoundVector*>(&v); if( !cv ) { VD g; dvget(v, g); o.insert(o.end(), g.begin(), g.end()); return; } for( int k = 0; k < cv->NComps(); k++ ) cut(*cv->GetComp(k), o); }
   static size_t paste(Vector& v, const VD& in, size_t o) { CompoundVector* cv = dynamic_cast<CompoundVector*>(&v); if( !cv ) { put(v, VD(in.begin() + o, in.begin() + o + v.Dim())); return o + v.Dim(); } for( int k = 0; k < cv->NComps(); k++ ) o = paste(*cv->GetCompNonConst(k), in, o); return o; }
   ESymSolverStatus MultiSolve(const SymMatrix& A, std::vector<SmartPtr<const Vector> >& r, std::vector<SmartPtr<Vector> >& s, bool c, Index n)
   {
      calls++; nrhs = (int) r.size(); asked.push_back(c); if( sing ) return SYMSOLVER_SINGULAR; int m = A.Dim(); VD K(m * m); SmartPtr<Vector> t = s[0]->MakeNew(), w = s[0]->MakeNew(); for( int j = 0; j < m; j++ ) { VD e(m, 0.), g; e[j] = 1.; paste(*t, e, 0); A.MultVector(1., *t, 0., *w); cut(*w, g); for( int i = 0; i < m; i++ ) K[i * m + j] = g[i]; } neg = negs(K, m); if( c && inertia && neg != n ) return SYMSOLVER_WRONG_INERTIA;
      for( size_t k = 0; k < r.size(); k++ ) { VD b; cut(*r[k], b); paste(*s[k], gauss(K, b), 0); } return SYMSOLVER_SUCCESS;
   }
   Index NumberOfNegEVals() const { return neg; } bool IncreaseQuality() { return false; } bool ProvidesInertia() const { return inertia; }
};
static void lowrank(bool ss, int kind, int red = -1)
{
   Fix fx; env(fx); SmartPtr<ExactLin> lin = new ExactLin; lin->inertia = !symbf("no inertia"); if( !lin->inertia ) REACH("noinertia"); SmartPtr<StdAugSystemSolver> in = new StdAugSystemSolver(*lin); SmartPtr<AugSystemSolver> u; if( ss ) u = new LowRankSSAugSystemSolver(*in, 3); else u = new LowRankAugSystemSolver(*in); CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, fx.opt(), ""), "initialization"); Sys S; S.n = 3; S.concrete(); for( int k = 1; k < 4; k++ ) S.hasD[k] = k == 1; if( red < 0 ) red = symfork("subspace", 0, 2); bool rd = red == 2; std::vector<Index> pos(2); pos[0] = 0; pos[1] = 2; SmartPtr<ExpansionMatrixSpace> ps = new ExpansionMatrixSpace(3, 2, &pos[0]); SmartPtr<ExpansionMatrix> P = red ? ps->MakeNewExpansionMatrix() : NULL; int ld = red ? 2 : 3; SmartPtr<DenseVectorSpace> ls = new DenseVectorSpace(ld); SmartPtr<LowRankUpdateSymMatrixSpace> wsp = new LowRankUpdateSymMatrixSpace(3, GetRawPtr(P), GetRawPtr(ls), rd);
   static const double VV[2][3] = {{1., .5, -2.}, {.25, 1., 3.}}, UU[2][3] = {{1., -1., .5}, {.5, .25, 1.}}; SmartPtr<LowRankUpdateSymMatrix> M; VD Wd; int step = 0; int at = symfork("symbolic right-hand side", 0, 3); if( kind == 0 ) at = at == 0 ? 1 : at + 2;
   auto build = [&](int nv, int nu, double sc) { M = wsp->MakeNewLowRankUpdateSymMatrix(); int dd = rd || !red ? ld : 3; VD dg; for( int i = 0; i < dd; i++ ) dg.push_back(6. + i); if( !red ) M->SetDiag(*vec(0, dg)); else { SmartPtr<DenseVectorSpace> a = rd ? ls : new DenseVectorSpace(3); SmartPtr<DenseVector> t = a->MakeNewDenseVector(); dg.push_back(0.); t->SetValues(&dg[0]); M->SetDiag(*t); } Wd = VD(9, 0.); for( int i = 0; i < dd; i++ ) { int o = rd ? pos[i] : i; Wd[o * 3 + o] += dg[i]; }
      for( int w = 0; w < 2; w++ ) { int nn = w ? nu : nv; if( !nn ) continue; SmartPtr<MultiVectorMatrixSpace> ms = new MultiVectorMatrixSpace(nn, *ls); SmartPtr<MultiVectorMatrix> mm = ms->MakeNewMultiVectorMatrix(); for( int k = 0; k < nn; k++ ) { VD c; for( int i = 0; i < ld; i++ ) c.push_back((w ? UU[k][i] * sc : VV[k][i])); for( int i = 0; i < ld; i++ ) for( int j = 0; j < ld; j++ ) Wd[(red ? pos[i] : i) * 3 + (red ? pos[j] : j)] += (w ? -1. : 1.) * c[i] * c[j]; c.push_back(0.); SmartPtr<DenseVector> t = ls->MakeNewDenseVector(); t->SetValues(&c[0]); mm->SetVector(k, *t); } if( w ) M->SetU(*mm); else M->SetV(*mm); } };
   auto go = [&](bool expect) { VD b, x; for( int i = 0; i < S.N(); i++ ) b.push_back(step == at && (i == 1 || i >= 3) ? symdi("b", i) : .5 * i - 1.); step++; VD K = S.dense(&Wd); int m = S.N(), ng = negs(K, m); bool chk = lin->inertia || ss || true; ESymSolverStatus r = S.solve(*u, GetRawPtr(M), b, x, chk, 2); if( lin->sing ) { CHECK(r == SYMSOLVER_SINGULAR, "failure is reported"); REACH("lrfail"); return; } if( lin->inertia ) { CHECK((r == SYMSOLVER_SUCCESS) == (ng == 2), "wrong inertia of the full matrix is reported"); CHECK(r == SYMSOLVER_SUCCESS || r == SYMSOLVER_WRONG_INERTIA, "outcome"); if( ng != 2 ) { CHECK(u->NumberOfNegEVals() != 2, "number of negative eigenvalues"); REACH("lrfail"); } else CHECK(u->NumberOfNegEVals() == 2, "number of negative eigenvalues"); } if( expect && (ng == 2 || ss) ) CHECK(r == SYMSOLVER_SUCCESS || lin->inertia, "solution is found"); if( r != SYMSOLVER_SUCCESS ) return;
      for( int j = 0; j < m; j++ ) ASSUME((b[j] < 100.) & (b[j] > -100.)); for( int i = 0; i < m; i++ ) { double s = -b[i]; for( int j = 0; j < m; j++ ) s += K[i * m + j] * x[j]; CHECK((s < 1e-6) & (s > -1e-6), "the solution solves the full system"); } REACH("lowrank"); };
   if( kind == 0 ) { build(symfork("V", 0, 2), symfork("U", 0, 1), .5); go(true); S.de[0] = .5; go(true); S.de[2] = .25; S.dg[1][0] = 3.; S.setD(1); go(true); go(true); build(1, 1, .25); REACH("lrchange"); go(true); S.f = 0.; S.de[0] = 5.; Wd = VD(9, 0.); bool fh = S.f == 0.; (void) fh; S.f = 0.; { Sys& Z = S; (void) Z; } go(true); }
   else { build(1, 1, .5); go(true); int w = symfork("failure", 0, 1); if( w == 0 ) { lin->sing = true; S.de[0] = 1.; go(false); lin->sing = false; } else { SmartPtr<LowRankUpdateSymMatrix> keep = M; VD kw = Wd; build(1, 1, 4.); go(false); M = keep; Wd = kw; } S.de[0] = 0.; REACH("again"); go(true); S.de[0] = 8.; go(true); }
}
// the reduction used in the restoration phase: exact for any answer of the inner solver
struct Inner: public AugSystemSolver
{
   ESymSolverStatus st; int calls; const SymMatrix* W; double wf, de[4]; bool hasD[4], chk; VD dg[4], r[4], x[4]; const Matrix *Jc, *Jd; Index want; Inner() : st(SYMSOLVER_SUCCESS), calls(0) {}
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   ESymSolverStatus Solve(const SymMatrix* W_, Number wf_, const Vector* Dx, Number dx, const Vector* Ds, Number ds, const Matrix* Jc_, const Vector* Dc, Number dc, const Matrix* Jd_, const Vector* Dd, Number dd, const Vector& rx, const Vector& rs, const Vector& rc, const Vector& rd, Vector& sx, Vector& ss, Vector& sc, Vector& sd, bool c, Index n)
   {
      const Vector* d[4] = {Dx, Ds, Dc, Dd}; const Vector* rr[4] = {&rx, &rs, &rc, &rd}; Vector* s[4] = {&sx, &ss, &sc, &sd}; double e[4] = {dx, ds, dc, dd}; W = W_; wf = wf_; Jc = Jc_; Jd = Jd_; chk = c; want = n; calls++; for( int k = 0; k < 4; k++ ) { hasD[k] = d[k] != NULL; if( d[k] ) dvget(*d[k], dg[k]); de[k] = e[k]; dvget(*rr[k], r[k]); x[k].clear(); if( st == SYMSOLVER_SUCCESS ) { for( int i = 0; i < s[k]->Dim(); i++ ) { double z = symdi("sol", calls * 20 + k * 4 + i); ASSUME((z < 64.) & (z > -64.)); x[k].push_back(z); } put(*s[k], x[k]); } } return st;
   }
   Index NumberOfNegEVals() const { return 1; } bool ProvidesInertia() const { return true; } bool IncreaseQuality() { return false; }
};
static void resto(int kind)
{
   Fix fx; SmartPtr<QTNLP> t = new QTNLP(2, 3); t->xl[0] = 0.; t->gl[0] = t->gu[0] = 1.; t->gl[1] = -2.; t->gu[1] = 7.; t->gl[2] = -2e19; t->gu[2] = 8.; Trip q[] = {{0, 0, 2.}, {1, 0, 1.}}, a[] = {{0, 0, 1.}, {0, 1, 2.}, {1, 1, 3.}, {2, 0, -1.}, {2, 1, .5}}; t->Q.assign(q, q + 2); t->A.assign(a, a + 5); t->Bq.push_back(TripK{0, 1, 1, 4.}); fx.build(t); CHECK(fx.ok, "set up"); Itr I; I.b[0] = VD{2., -.5}; I.b[1] = VD{1., 2.}; I.b[2] = VD{1.}; I.b[3] = VD{0., 0.}; I.b[4] = VD{1.}; I.b[6] = VD{1.}; I.b[7] = VD{1., 1.}; fx.curr(I); Resto R(fx); CHECK(R.ok, "restoration problem"); SmartPtr<Inner> in = new Inner; SmartPtr<AugRestoSystemSolver> u = new AugRestoSystemSolver(*in, true); CHECK(u->Initialize(fx.jn(), *R.nlp, *R.data, *R.cq, fx.opt(), "resto."), "initialization");
   SmartPtr<const Vector> xp = R.data->curr()->x(); SmartPtr<Vector> yc = R.data->curr()->y_c()->MakeNew(), yd = R.data->curr()->y_d()->MakeNew(); yc->Set(.5); yd->Set(0.); SmartPtr<const SymMatrix> W = R.nlp->h(*xp, 1., *yc, *yd, .25); SmartPtr<const Matrix> Jc = R.nlp->jac_c(*xp), Jd = R.nlp->jac_d(*xp); double de[4] = {0., 0., 0., 0.}; bool hx = !(kind & 1), hc = (kind >> 1) & 1, hd = (kind >> 2) & 1; SmartPtr<Vector> Dx = xp->MakeNew(), Ds = R.data->curr()->s()->MakeNew(), Dc = yc->MakeNew(), Dd = yd->MakeNew(); int nn = xp->Dim(); VD vx; for( int i = 0; i < nn; i++ ) vx.push_back(.5 * (i + 1)); Resto::fill(*Dx, vx); VD vs{3., .25}, vc{-.5}, vd{-.25, -1.}; Resto::fill(*Ds, vs); Resto::fill(*Dc, vc); Resto::fill(*Dd, vd); double wf = 1.;
   for( int st = 0; st < 3; st++ )
   {
      if( st == 0 && !hx ) { de[0] = .5; REACH("restonull"); } if( st ) { int w = symfork("change", 0, 6); if( w < 4 ) de[w] = .25 * (w + 1) * st; else if( w == 4 && hx ) { vx[2 + st] = 7.; vx[5] = 3. + st; Resto::fill(*Dx, vx); } else if( w == 5 ) { vs[0] = 9.; Resto::fill(*Ds, vs); } }
      VD b[4]; SmartPtr<Vector> r[4] = {xp->MakeNew(), Ds->MakeNew(), yc->MakeNew(), yd->MakeNew()}, s[4] = {xp->MakeNew(), Ds->MakeNew(), yc->MakeNew(), yd->MakeNew()}; for( int k = 0; k < 4; k++ ) { for( int i = 0; i < r[k]->Dim(); i++ ) b[k].push_back(symdi("b", st * 50 + k * 10 + i)); Resto::fill(*r[k], b[k]); } for( int k = 0; k < 4; k++ ) for( size_t i = 0; i < b[k].size(); i++ ) ASSUME((b[k][i] < 64.) & (b[k][i] > -64.)); in->st = st == 1 && symbf("solver fails") ? SYMSOLVER_WRONG_INERTIA : SYMSOLVER_SUCCESS;
      ESymSolverStatus e = u->Solve(GetRawPtr(W), wf, hx ? GetRawPtr(Dx) : NULL, de[0], GetRawPtr(Ds), de[1], GetRawPtr(Jc), hc ? GetRawPtr(Dc) : NULL, de[2], GetRawPtr(Jd), hd ? GetRawPtr(Dd) : NULL, de[3], *r[0], *r[1], *r[2], *r[3], *s[0], *s[1], *s[2], *s[3], true, 3); CHECK(e == in->st, "outcome"); CHECK(in->chk && in->want == 3, "inertia request is passed on"); if( e != SYMSOLVER_SUCCESS ) continue;
      VD x = Resto::flat(*s[0]), sv = Resto::flat(*s[1]), c = Resto::flat(*s[2]), d = Resto::flat(*s[3]); // residuals of the inner system
      VD ri[4], xi[4]; for( int k = 0; k < 4; k++ ) { ri[k] = in->r[k]; xi[k] = in->x[k]; } { SmartPtr<Vector> v = fx.data->curr()->x()->MakeNew(), w = v->MakeNew(); put(*v, xi[0]); in->W->MultVector(in->wf, *v, 0., *w); VD g; dvget(*w, g); SmartPtr<Vector> cc = fx.data->curr()->y_c()->MakeNew(), dd = fx.data->curr()->y_d()->MakeNew(); put(*cc, xi[2]); put(*dd, xi[3]); in->Jc->TransMultVector(1., *cc, 0., *w); VD g2; dvget(*w, g2); in->Jd->TransMultVector(1., *dd, 0., *w); VD g3; dvget(*w, g3); for( int i = 0; i < 2; i++ ) ri[0][i] -= g[i] + (in->hasD[0] ? in->dg[0][i] * xi[0][i] : 0.) + in->de[0] * xi[0][i] + g2[i] + g3[i]; for( int i = 0; i < 2; i++ ) ri[1][i] -= (in->hasD[1] ? in->dg[1][i] * xi[1][i] : 0.) + in->de[1] * xi[1][i] - xi[3][i]; in->Jc->MultVector(1., *v, 0., *cc); VD h; dvget(*cc, h); ri[2][0] -= h[0] + (in->hasD[2] ? in->dg[2][0] * xi[2][0] : 0.) - in->de[2] * xi[2][0]; in->Jd->MultVector(1., *v, 0., *dd); dvget(*dd, h); for( int i = 0; i < 2; i++ ) ri[3][i] -= h[i] - xi[1][i] + (in->hasD[3] ? in->dg[3][i] * xi[3][i] : 0.) - in->de[3] * xi[3][i]; }
      // residuals of the full system
      SmartPtr<Vector> o = xp->MakeNew(), o2 = xp->MakeNew(), oc = yc->MakeNew(), od = yd->MakeNew(); W->MultVector(wf, *s[0], 0., *o); Jc->TransMultVector(1., *s[2], 1., *o); Jd->TransMultVector(1., *s[3], 1., *o); VD ro = Resto::flat(*o); Jc->MultVector(1., *s[0], 0., *oc); VD rc = Resto::flat(*oc); Jd->MultVector(1., *s[0], 0., *od); VD rd = Resto::flat(*od);
      for( int i = 0; i < nn; i++ ) NEAR(b[0][i] - ro[i] - (hx ? vx[i] * x[i] : 0.) - de[0] * x[i], i < 2 ? ri[0][i] : 0., "reduced system is equivalent to the full system (variables)"); for( int i = 0; i < 2; i++ ) NEAR(b[1][i] - vs[i] * sv[i] - de[1] * sv[i] + d[i], ri[1][i], "reduced system is equivalent to the full system (slacks)"); NEAR(b[2][0] - rc[0] - (hc ? vc[0] * c[0] : 0.) + de[2] * c[0], ri[2][0], "reduced system is equivalent to the full system (equality constraints)"); for( int i = 0; i < 2; i++ ) NEAR(b[3][i] - rd[i] + sv[i] - (hd ? vd[i] * d[i] : 0.) + de[3] * d[i], ri[3][i], "reduced system is equivalent to the full system (inequality constraints)"); REACH("resto");
   }
}
struct Gen: public GenKKTSolverInterface
{
   int calls, again; Sys* S; VD b, x; bool nm, chk; Index want; ESymSolverStatus st; Gen() : calls(0), again(0), S(NULL), st(SYMSOLVER_SUCCESS) {}
   bool InitializeImpl(const OptionsList&, const std::string&) { return true; }
   ESymSolverStatus MultiSolve(bool new_matrix, Index n_x, Index n_c, Index n_d, SmartPtr<const SymMatrix> W, SmartPtr<const Matrix> Jac_c, SmartPtr<const Matrix> Jac_d, const Number* D_x, const Number* D_s, const Number* D_c, const Number* D_d, Number dx, Number ds, Number dc, Number dd, Index n_rhs, Number* rhssol, bool c, Index n)
   {
      calls++; nm = new_matrix; chk = c; want = n; if( again > 0 ) { again--; return SYMSOLVER_CALL_AGAIN; } CHECK(n_rhs == 1 && n_x == 2 && n_c == 1 && n_d == 1, "dimensions"); const Number* d[4] = {D_x, D_s, D_c, D_d}; double e[4] = {dx, ds, dc, dd}; CHECK(GetRawPtr(W) == (S->hasW && S->f == 1. ? GetRawPtr(S->mW) : NULL), "Hessian"); CHECK(GetRawPtr(Jac_c) == GetRawPtr(S->mJc) && GetRawPtr(Jac_d) == GetRawPtr(S->mJd), "Jacobians");
      for( int k = 0; k < 4; k++ ) { CHECK((d[k] != NULL) == S->hasD[k], "diagonal is passed exactly if given"); if( d[k] && S->hasD[k] ) for( int i = 0; i < S->dim(k); i++ ) CHECKEQ(d[k][i], S->dg[k][i], "diagonal values"); CHECKEQ(e[k], S->de[k], "regularization"); } static const int M[5] = {0, 1, 3, 4, 2}; b = VD(5); for( int i = 0; i < 5; i++ ) b[M[i]] = rhssol[i]; if( st != SYMSOLVER_SUCCESS ) return st; x = VD(5); for( int i = 0; i < 5; i++ ) rhssol[i] = x[M[i]] = symdi("sol", calls * 10 + i); return st;
   }
   Index NumberOfNegEVals() const { return 2; } bool IncreaseQuality() { return false; } bool ProvidesInertia() const { return true; }
};
static void general()
{
   Fix fx; env(fx); SmartPtr<Gen> g = new Gen; SmartPtr<GenAugSystemSolver> u = new GenAugSystemSolver(*g); Sys S; S.arb(); for( int i = 0; i < 4; i++ ) if( symbf("same value") ) { for( size_t k = 0; k < S.dg[i].size(); k++ ) S.dg[i][k] = S.dg[i][0]; S.mD[i] = SP[i]->MakeNewDenseVector(); S.mD[i]->Set(S.dg[i][0]); } g->S = &S; int st = 0; for( int init = 0; init < 2; init++ ) { CHECK(u->Initialize(fx.jn(), *fx.nlp, *fx.data, *fx.cq, fx.opt(), ""), "initialization"); for( int k = 0; k < 2; k++, st++ ) { if( k ) { int w = symfork("change", 7, 16); S.change(w, st); } VD b, x; for( int i = 0; i < 5; i++ ) b.push_back(symdi("b", st * 10 + i)); g->again = st & 1; ESymSolverStatus r = S.solve(*u, GetRawPtr(S.mW), b, x, true, 2); CHECK(r == SYMSOLVER_SUCCESS, "success"); CHECK(g->nm, "changed matrix is reported"); CHECK(g->chk && g->want == 2, "inertia request"); for( int i = 0; i < 5; i++ ) { CHECKEQ(g->b[i], b[i], "right-hand side"); CHECKEQ(x[i], g->x[i], "solution"); } REACH("general"); } if( init == 0 && symbf("once") ) break; }
}
extern "C" int sym_main()
{
   int c = __sym_case(); if( c == 0 ) standard(0, 2); else if( c == 1 ) standard(1, 1); else if( c == 2 ) standard(2, 1); else if( c == 3 ) resto(symfork("parts", 0, 7)); else if( c == 4 || c == 9 || c == 10 ) lowrank(false, 0, c == 4 ? 0 : c - 8); else if( c == 5 ) lowrank(true, 0); else if( c == 6 ) lowrank(false, 1); else if( c == 7 ) lowrank(true, 1); else if( c == 8 ) general();
   else if( c == 20 ) standard(0, 3); else if( c == 21 ) standard(1, 2); else standard(2, 2);
   return 0;
}
