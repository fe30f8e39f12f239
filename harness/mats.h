// one matrix of every kind with its explicit entries
#pragma once
#include "hs.h"
#include "IpGenTMatrix.hpp"
#include "IpSymTMatrix.hpp"
#include "IpDenseGenMatrix.hpp"
#include "IpDenseSymMatrix.hpp"
#include "IpDiagMatrix.hpp"
#include "IpIdentityMatrix.hpp"
#include "IpZeroMatrix.hpp"
#include "IpZeroSymMatrix.hpp"
#include "IpSumMatrix.hpp"
#include "IpSumSymMatrix.hpp"
#include "IpCompoundMatrix.hpp"
#include "IpCompoundSymMatrix.hpp"
#include "IpScaledMatrix.hpp"
#include "IpSymScaledMatrix.hpp"
#include "IpTransposeMatrix.hpp"
#include "IpExpansionMatrix.hpp"
#include "IpExpandedMultiVectorMatrix.hpp"
#include "IpMultiVectorMatrix.hpp"
#include "IpLowRankUpdateSymMatrix.hpp"
#include <functional>
typedef std::vector<double> V; typedef std::vector<int> VI;
static bool fpmode; static double first_entry; static double special(const char* nm_) { return symd(nm_); }
static int serial = 0; static double entry() { static bool used = false; serial++; if( fpmode ) { if( serial == 1 && !used ) { used = true; first_entry = special("entry"); return first_entry; } return (double) serial; } return symdi("entry", serial); }
struct MM { SmartPtr<Matrix> m; V D; int r, c; VI rs, cs; bool sym, amax; std::function<void()> change; };
// vectors split as vi
static SmartPtr<Vector> mkv(const VI& parts, const char* name, bool homog, bool init = true)
{
   std::vector<SmartPtr<DenseVector> > comp; for( size_t k = 0; k < parts.size(); k++ ) { SmartPtr<DenseVectorSpace> s = new DenseVectorSpace(parts[k]); if( init ) { std::string q(name); q += char('a' + k); comp.push_back(symvec(GetRawPtr(s), nm(q.c_str(), 0), homog)); } else comp.push_back(s->MakeNewDenseVector()); }
   if( parts.size() == 1 ) return GetRawPtr(comp[0]);
   int n = 0; for( size_t k = 0; k < parts.size(); k++ ) n += parts[k]; SmartPtr<CompoundVectorSpace> cs = new CompoundVectorSpace((Index) parts.size(), n); for( size_t k = 0; k < parts.size(); k++ ) cs->SetCompSpace((Index) k, *comp[k]->OwnerSpace());
   SmartPtr<CompoundVector> v = cs->MakeNewCompoundVector(false); for( size_t k = 0; k < parts.size(); k++ ) v->SetCompNonConst((Index) k, *comp[k]); return GetRawPtr(v);
}
static V flat(const Vector& v) { V r; const CompoundVector* c = dynamic_cast<const CompoundVector*>(&v); if( c ) { for( int k = 0; k < c->NComps(); k++ ) { V a = flat(*c->GetComp(k)); r.insert(r.end(), a.begin(), a.end()); } } else dvget(v, r); return r; }
static void same(const Vector& v, const V& e, const char* l) { V g = flat(v); CHECK(g.size() == e.size(), "result size"); for( size_t i = 0; i < e.size() && i < g.size(); i++ ) CHECKEQ(g[i], e[i], l); }
static bool dup = false; static void dupcheck(const VI& r, const VI& c, int k, bool sym) { for( int i = 0; i < k; i++ ) if( (r[i] == r[k] && c[i] == c[k]) || (sym && r[i] == c[k] && c[i] == r[k]) ) dup = true; }
static SmartPtr<GenTMatrix> gent(int r, int c, int nfree, int nfix, V& D)
{
   int nz = nfree + nfix; VI ir(nz + 1), jc(nz + 1); for( int k = 0; k < nz; k++ ) { int p = k < nfree ? symfork("position", 0, r * c - 1) : (k + 1) % (r * c); ir[k] = p / c + 1; jc[k] = p % c + 1; dupcheck(ir, jc, k, false); }
   SmartPtr<GenTMatrixSpace> s = new GenTMatrixSpace(r, c, nz, &ir[0], &jc[0]); SmartPtr<GenTMatrix> m = s->MakeNewGenTMatrix(); V v(nz + 1); D.assign(r * c, 0.); for( int k = 0; k < nz; k++ ) { v[k] = entry(); D[(ir[k] - 1) * c + jc[k] - 1] += v[k]; } m->SetValues(&v[0]); return m;
}
static SmartPtr<SymTMatrix> symt(int n, int nfree, int nfix, V& D)
{
   int nz = nfree + nfix; VI ir(nz + 1), jc(nz + 1); for( int k = 0; k < nz; k++ ) { int p = k < nfree ? symfork("position", 0, n * n - 1) : (n * n - 1); ir[k] = p / n + 1; jc[k] = p % n + 1; dupcheck(ir, jc, k, true); }
   SmartPtr<SymTMatrixSpace> s = new SymTMatrixSpace(n, nz, &ir[0], &jc[0]); SmartPtr<SymTMatrix> m = s->MakeNewSymTMatrix(); V v(nz + 1); D.assign(n * n, 0.); for( int k = 0; k < nz; k++ ) { v[k] = entry(); int i = ir[k] - 1, j = jc[k] - 1; D[i * n + j] += v[k]; if( i != j ) D[j * n + i] += v[k]; } m->SetValues(&v[0]); return m;
}
static SmartPtr<ExpansionMatrix> expan(int nl, int ns, V& D, bool free_ = true) { VI p(ns + 1); int last = -1; int off = free_ ? symfork("offset", 0, 1) : 0; for( int k = 0; k < ns; k++ ) { p[k] = free_ ? symfork("pos", last + 1, nl - ns + k) : k + 1; last = p[k]; } VI q(p); for( size_t k = 0; k < q.size(); k++ ) q[k] += off; SmartPtr<ExpansionMatrixSpace> s = new ExpansionMatrixSpace(nl, ns, &q[0], off); D.assign(nl * ns, 0.); for( int k = 0; k < ns; k++ ) D[p[k] * ns + k] = 1.; return s->MakeNewExpansionMatrix(); }
static SmartPtr<DenseVector> dvn(const V& v) { return dvec(v.empty() ? NULL : &v[0], (int) v.size()); }
static V vn(int n, const char* name) { V r(n); for( int i = 0; i < n; i++ ) r[i] = fpmode ? 1. + i : symdi(name, i); return r; }
static V en(int n) { V r(n); for( int i = 0; i < n; i++ ) r[i] = entry(); return r; }
static MM build(int k)
{
   MM x; x.sym = false; x.amax = true; 
   switch( k ) {
   case 0: { SmartPtr<GenTMatrix> m = gent(2, 3, fpmode ? 0 : 2, 1, x.D); x.m = GetRawPtr(m); x.r = 2; x.c = 3; break; }
   case 1: { SmartPtr<SymTMatrix> m = symt(3, fpmode ? 0 : 2, 1, x.D); x.m = GetRawPtr(m); x.r = x.c = 3; x.sym = true; break; }
   case 2: { SmartPtr<DenseGenMatrixSpace> s = new DenseGenMatrixSpace(2, 3); SmartPtr<DenseGenMatrix> m = s->MakeNewDenseGenMatrix(); x.D.resize(6); Number* v = m->Values(); for( int i = 0; i < 2; i++ ) for( int j = 0; j < 3; j++ ) v[i + 2 * j] = x.D[i * 3 + j] = entry(); x.m = GetRawPtr(m); x.r = 2; x.c = 3; break; }
   case 3: { SmartPtr<DenseSymMatrixSpace> s = new DenseSymMatrixSpace(3); SmartPtr<DenseSymMatrix> m = s->MakeNewDenseSymMatrix(); x.D.resize(9); Number* v = m->Values(); for( int j = 0; j < 3; j++ ) for( int i = 0; i < 3; i++ ) { if( i >= j ) v[i + 3 * j] = x.D[i * 3 + j] = x.D[j * 3 + i] = entry(); else v[i + 3 * j] = 77.; } x.m = GetRawPtr(m); x.r = x.c = 3; x.sym = true; break; }
   case 4: { V d = en(3); SmartPtr<DiagMatrixSpace> s = new DiagMatrixSpace(3); SmartPtr<DiagMatrix> m = s->MakeNewDiagMatrix(); m->SetDiag(*dvn(d)); x.D.assign(9, 0.); for( int i = 0; i < 3; i++ ) x.D[4 * i] = d[i]; x.m = GetRawPtr(m); x.r = x.c = 3; x.sym = true; DiagMatrix* p = GetRawPtr(m); x.change = [p] { V e = vn(3, "changed"); p->SetDiag(*dvn(e)); }; break; }
   case 5: { double f = entry(); SmartPtr<IdentityMatrixSpace> s = new IdentityMatrixSpace(3); SmartPtr<IdentityMatrix> m = s->MakeNewIdentityMatrix(); m->SetFactor(f); x.D.assign(9, 0.); for( int i = 0; i < 3; i++ ) x.D[4 * i] = f; x.m = GetRawPtr(m); x.r = x.c = 3; x.sym = true; break; }
   case 6: { SmartPtr<ZeroMatrixSpace> s = new ZeroMatrixSpace(2, 3); x.m = s->MakeNew(); x.D.assign(6, 0.); x.r = 2; x.c = 3; break; }
   case 7: { SmartPtr<ZeroSymMatrixSpace> s = new ZeroSymMatrixSpace(3); x.m = s->MakeNew(); x.D.assign(9, 0.); x.r = x.c = 3; x.sym = true; break; }
   case 8: { V A, B; SmartPtr<GenTMatrix> a = gent(2, 3, fpmode ? 0 : 1, 1, A), b = gent(2, 3, 0, 2, B); SmartPtr<SumMatrixSpace> s = new SumMatrixSpace(2, 3, 3); V C; SmartPtr<GenTMatrix> c = gent(2, 3, 0, 1, C); s->SetTermSpace(0, *a->OwnerSpace()); s->SetTermSpace(1, *b->OwnerSpace()); s->SetTermSpace(2, *c->OwnerSpace()); SmartPtr<SumMatrix> m = s->MakeNewSumMatrix(); double f = fpmode ? 2. : symd("f"), g = fpmode ? 3. : symd("g"); m->SetTerm(0, f, *a); m->SetTerm(1, g, *b); m->SetTerm(2, -2., *c); x.D.resize(6); for( int i = 0; i < 6; i++ ) x.D[i] = f * A[i] + g * B[i] - 2. * C[i]; x.m = GetRawPtr(m); x.r = 2; x.c = 3; x.amax = false; break; }
   case 9: { V A; SmartPtr<SymTMatrix> a = symt(3, fpmode ? 0 : 1, 1, A); SmartPtr<IdentityMatrixSpace> is = new IdentityMatrixSpace(3); SmartPtr<IdentityMatrix> b = is->MakeNewIdentityMatrix(); double h = entry(); b->SetFactor(h); SmartPtr<SumSymMatrixSpace> s = new SumSymMatrixSpace(3, 3); s->SetTermSpace(2, *is); SmartPtr<IdentityMatrix> b2 = is->MakeNewIdentityMatrix(); b2->SetFactor(3.); s->SetTermSpace(0, *static_cast<const SymMatrixSpace*>(GetRawPtr(a->OwnerSpace()))); s->SetTermSpace(1, *is); SmartPtr<SumSymMatrix> m = s->MakeNewSumSymMatrix(); double f = fpmode ? 2. : symd("f"), g = fpmode ? 3. : symd("g"); m->SetTerm(0, f, *a); m->SetTerm(1, g, *b); m->SetTerm(2, .5, *b2); x.D.resize(9); for( int i = 0; i < 9; i++ ) x.D[i] = f * A[i] + (i % 4 == 0 ? g * h + 1.5 : 0.); x.m = GetRawPtr(m); x.r = x.c = 3; x.sym = true; x.amax = false; break; }
   case 10: { // blocks: rows 1+2, columns 2+1; which blocks are present is arbitrary
      V A, E; int pat = fpmode ? 15 : symfork("blocks", 0, 15); x.rs = {1, 2}; x.cs = {2, 1}; SmartPtr<CompoundMatrixSpace> s = new CompoundMatrixSpace(2, 2, 3, 3); s->SetBlockRows(0, 1); s->SetBlockRows(1, 2); s->SetBlockCols(0, 2); s->SetBlockCols(1, 1); x.D.assign(9, 0.);
      SmartPtr<Matrix> b[4]; V B[4]; b[0] = GetRawPtr(gent(1, 2, 0, 2, B[0])); b[1] = GetRawPtr(gent(1, 1, 0, 1, B[1])); b[2] = GetRawPtr(expan(2, 2, B[2])); { SmartPtr<IdentityMatrixSpace> is = new IdentityMatrixSpace(2); SmartPtr<IdentityMatrix> im = is->MakeNewIdentityMatrix(); double f = entry(); im->SetFactor(f); B[2].assign(4, 0.); B[2][0] = B[2][3] = f; b[2] = GetRawPtr(im); } b[3] = GetRawPtr(expan(2, 1, B[3], !fpmode));
      bool autoa = false; for( int i = 0; i < 4; i++ ) if( (pat >> i) & 1 ) s->SetCompSpace(i / 2, i % 2, *b[i]->OwnerSpace(), autoa); SmartPtr<CompoundMatrix> m = s->MakeNewCompoundMatrix(); bool cst = fpmode ? false : symbf("const blocks");
      for( int i = 0; i < 4; i++ ) if( (pat >> i) & 1 ) { if( cst ) m->SetComp(i / 2, i % 2, *b[i]); else m->SetCompNonConst(i / 2, i % 2, *b[i]); int r0 = i / 2, c0 = i % 2 ? 2 : 0, nr = i / 2 ? 2 : 1, nc = i % 2 ? 1 : 2; for( int p = 0; p < nr; p++ ) for( int q = 0; q < nc; q++ ) x.D[(r0 + p) * 3 + c0 + q] = B[i][p * nc + q]; }
      x.m = GetRawPtr(m); x.r = x.c = 3; break; }
   case 11: { int pat = fpmode ? 7 : symfork("blocks", 0, 7); x.rs = x.cs = {2, 1}; SmartPtr<CompoundSymMatrixSpace> s = new CompoundSymMatrixSpace(2, 3); s->SetBlockDim(0, 2); s->SetBlockDim(1, 1); x.D.assign(9, 0.); V A, B; SmartPtr<SymTMatrix> a = symt(2, fpmode ? 0 : 1, 1, A); SmartPtr<GenTMatrix> b = gent(1, 2, 0, 2, B); SmartPtr<DiagMatrixSpace> ds = new DiagMatrixSpace(1); SmartPtr<DiagMatrix> d = ds->MakeNewDiagMatrix(); V dd = en(1); d->SetDiag(*dvn(dd));
      if( pat & 1 ) s->SetCompSpace(0, 0, *a->OwnerSpace()); if( pat & 2 ) s->SetCompSpace(1, 0, *b->OwnerSpace()); if( pat & 4 ) s->SetCompSpace(1, 1, *ds); SmartPtr<CompoundSymMatrix> m = s->MakeNewCompoundSymMatrix();
      if( pat & 1 ) { m->SetCompNonConst(0, 0, *a); for( int i = 0; i < 2; i++ ) for( int j = 0; j < 2; j++ ) x.D[i * 3 + j] = A[i * 2 + j]; } if( pat & 2 ) { m->SetComp(1, 0, *b); for( int j = 0; j < 2; j++ ) x.D[6 + j] = x.D[j * 3 + 2] = B[j]; } if( pat & 4 ) { m->SetComp(1, 1, *d); x.D[8] = dd[0]; } x.m = GetRawPtr(m); x.r = x.c = 3; x.sym = true; break; }
   case 12: { V A; SmartPtr<GenTMatrix> a = gent(2, 3, fpmode ? 0 : 1, 2, A); int w = symfork("which scaling", 0, 3); bool rr = symbf("row reciprocal"), cr = symbf("column reciprocal"); V r = vn(2, "rs"), c = vn(3, "cs"); if( !fpmode ) { for( auto e : r ) ASSUME(e != 0.); for( auto e : c ) ASSUME(e != 0.); } SmartPtr<const Vector> vr, vc; if( w & 1 ) vr = GetRawPtr(dvn(r)); if( w & 2 ) vc = GetRawPtr(dvn(c));
      SmartPtr<ScaledMatrixSpace> s = new ScaledMatrixSpace(vr, rr, a->OwnerSpace(), vc, cr); SmartPtr<ScaledMatrix> m = s->MakeNewScaledMatrix(); m->SetUnscaledMatrixNonConst(GetRawPtr(a)); x.D.resize(6); for( int i = 0; i < 2; i++ ) for( int j = 0; j < 3; j++ ) x.D[i * 3 + j] = A[i * 3 + j] * (w & 1 ? (rr ? 1. / r[i] : r[i]) : 1.) * (w & 2 ? (cr ? 1. / c[j] : c[j]) : 1.); x.m = GetRawPtr(m); x.r = 2; x.c = 3; x.amax = false; break; }
   case 13: { V A; SmartPtr<SymTMatrix> a = symt(3, fpmode ? 0 : 1, 1, A); bool rr = symbf("reciprocal"); V r = vn(3, "rs"); if( !fpmode ) for( auto e : r ) ASSUME(e != 0.); SmartPtr<const Vector> vr = GetRawPtr(dvn(r)); SmartPtr<SymScaledMatrixSpace> s = new SymScaledMatrixSpace(vr, rr, static_cast<const SymMatrixSpace*>(GetRawPtr(a->OwnerSpace()))); SmartPtr<SymScaledMatrix> m = s->MakeNewSymScaledMatrix(); m->SetUnscaledMatrixNonConst(GetRawPtr(a)); x.D.resize(9); for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) x.D[i * 3 + j] = A[i * 3 + j] * (rr ? 1. / r[i] / r[j] : r[i] * r[j]); x.m = GetRawPtr(m); x.r = x.c = 3; x.sym = true; x.amax = false; break; }
   case 14: { VI ir = {1, 2, 2}, jc = {2, 1, 3}; SmartPtr<GenTMatrixSpace> gs = new GenTMatrixSpace(2, 3, 3, &ir[0], &jc[0]); SmartPtr<TransposeMatrixSpace> s = new TransposeMatrixSpace(GetRawPtr(gs)); SmartPtr<TransposeMatrix> m = s->MakeNewTransposeMatrix(); V v = en(3); GenTMatrix* g = const_cast<GenTMatrix*>(static_cast<const GenTMatrix*>(GetRawPtr(m->OrigMatrix()))); g->SetValues(&v[0]); x.D.assign(6, 0.); for( int k = 0; k < 3; k++ ) x.D[(jc[k] - 1) * 2 + ir[k] - 1] = v[k]; x.m = GetRawPtr(m); x.r = 3; x.c = 2; break; }
   case 15: { int ns = symfork("small", 0, 3); SmartPtr<ExpansionMatrix> m = expan(3, ns, x.D); x.m = GetRawPtr(m); x.r = 3; x.c = ns; break; }
   case 16: { bool P = symbf("expansion"); int nl = 3, nsm = P ? 2 : 3; V E; SmartPtr<ExpansionMatrix> e; if( P ) e = expan(nl, nsm, E, !fpmode); SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(nsm); SmartPtr<ExpandedMultiVectorMatrixSpace> s = new ExpandedMultiVectorMatrixSpace(2, *vs, GetRawPtr(e)); SmartPtr<ExpandedMultiVectorMatrix> m = s->MakeNewExpandedMultiVectorMatrix(); x.D.assign(6, 0.); int pat = fpmode ? 3 : symfork("present", 0, 3);
      for( int i = 0; i < 2; i++ ) if( (pat >> i) & 1 ) { V v = en(nsm); SmartPtr<DenseVector> d = vs->MakeNewDenseVector(); d->SetValues(&v[0]); m->SetVector(i, GetRawPtr(d)); for( int q = 0; q < nsm; q++ ) if( P ) { for( int l = 0; l < 3; l++ ) if( E[l * nsm + q] == 1. ) x.D[i * 3 + l] = v[q]; } else x.D[i * 3 + q] = v[q]; }
      x.m = GetRawPtr(m); x.r = 2; x.c = 3; x.amax = false; break; }
   case 17: { SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(3); SmartPtr<MultiVectorMatrixSpace> s = new MultiVectorMatrixSpace(2, *vs); SmartPtr<MultiVectorMatrix> m = s->MakeNewMultiVectorMatrix(); x.D.resize(6); for( int j = 0; j < 2; j++ ) { V v = en(3); SmartPtr<DenseVector> d = vs->MakeNewDenseVector(); d->SetValues(&v[0]); if( j ) m->SetVector(j, *d); else m->SetVectorNonConst(j, *d); for( int i = 0; i < 3; i++ ) x.D[i * 2 + j] = v[i]; } x.m = GetRawPtr(m); x.r = 3; x.c = 2; x.amax = false; break; }
   case 18: { int kind = fpmode ? symfork("kind", 0, 1) * 2 : symfork("kind", 0, 2); bool P = kind > 0, red = kind == 1; int nsm = P ? 2 : 3; V E; SmartPtr<ExpansionMatrix> e; if( P ) e = expan(3, nsm, E, !fpmode); SmartPtr<DenseVectorSpace> vs = new DenseVectorSpace(nsm); SmartPtr<LowRankUpdateSymMatrixSpace> s = new LowRankUpdateSymMatrixSpace(3, GetRawPtr(e), GetRawPtr(vs), red); SmartPtr<LowRankUpdateSymMatrix> m = s->MakeNewLowRankUpdateSymMatrix(); V d = en(red ? 2 : 3); m->SetDiag(*dvn(d)); int pat = fpmode ? 3 : symfork("parts", 0, 3); V S(nsm * nsm, 0.);
      for( int q = 0; q < 2; q++ ) if( (pat >> q) & 1 ) { int nc = q ? 1 : 2; if( nsm == 3 && !fpmode ) nc = 1; SmartPtr<MultiVectorMatrixSpace> ms = new MultiVectorMatrixSpace(nc, *vs); SmartPtr<MultiVectorMatrix> w = ms->MakeNewMultiVectorMatrix(); for( int j = 0; j < nc; j++ ) { V v = en(nsm); SmartPtr<DenseVector> dd = vs->MakeNewDenseVector(); dd->SetValues(&v[0]); w->SetVector(j, *dd); for( int a = 0; a < nsm; a++ ) for( int b = 0; b < nsm; b++ ) S[a * nsm + b] += (q ? -1. : 1.) * v[a] * v[b]; } if( q ) m->SetU(*w); else m->SetV(*w); }
      if( red ) for( int a = 0; a < nsm; a++ ) S[a * nsm + a] += d[a]; x.D.assign(9, 0.); VI pos(nsm); for( int a = 0; a < nsm; a++ ) { pos[a] = a; if( P ) for( int l = 0; l < 3; l++ ) if( E[l * nsm + a] == 1. ) pos[a] = l; } for( int a = 0; a < nsm; a++ ) for( int b = 0; b < nsm; b++ ) x.D[pos[a] * 3 + pos[b]] += S[a * nsm + b]; if( !red ) for( int i = 0; i < 3; i++ ) x.D[4 * i] += d[i];
      x.m = GetRawPtr(m); x.r = x.c = 3; x.sym = true; x.amax = false; break; }
   }
   if( x.rs.empty() ) { x.rs = {x.r}; x.cs = {x.c}; } return x;
}
