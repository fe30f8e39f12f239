// Shared harness pieces: a small quadratic TNLP with arbitrary (symbolic) data, application and strategy setup.
#pragma once
#include "sym.h"
#include "IpIpoptApplication.hpp"
#include "IpTNLP.hpp"
#include "IpTNLPAdapter.hpp"
#include "IpOrigIpoptNLP.hpp"
#include "IpDenseVector.hpp"
#include "IpCompoundVector.hpp"
#include "IpAlgBuilder.hpp"
#include "IpIpoptData.hpp"
#include "IpIpoptCalculatedQuantities.hpp"
#include "IpSolveStatistics.hpp"
#include <vector>
#include <cmath>
#include <string>
using namespace Ipopt;
struct Trip { int i, j; double v; };
struct TripK { int k, i, j; double v; };
// names without formatting
static inline const char* nm(const char* base, int i) { std::string s(base); if( i >= 100 ) s += char('0' + i / 100); if( i >= 10 ) s += char('0' + (i / 10) % 10); s += char('0' + i % 10); char* r = new char[s.size() + 1]; for( size_t k = 0; k <= s.size(); k++ ) r[k] = s.c_str()[k]; return r; }
static inline double symdi(const char* b, int i) { return symd(nm(b, i)); }
static inline double symdi(const char* b, int i, double lo, double hi) { return symd(nm(b, i), lo, hi); }
// f = c0 + c'x + 1/2 x'Qx ,  g_k = a_k'x + 1/2 x'B_k x + g0_k   (Q, B given as lower-triangle triplets, diagonal entries counted once with 1/2)
class QTNLP: public TNLP
{
public:
   int n, m; bool fortran; bool neg_starting_ok;
   std::vector<double> xl, xu, gl, gu, x0, zl0, zu0, lam0, c, g0; double c0;
   std::vector<Trip> Q; std::vector<Trip> A; std::vector<TripK> Bq;   // A: (k, i, v)
   // scaling
   bool use_sc, use_xs, use_gs; double osc; std::vector<double> xs, gs;
   // records
   int n_f, n_grad, n_g, n_jac, n_h, n_ic, n_fin; int fail_at, calls, fail_kind, stop_at; bool failed_now;
   SolverReturn status; std::vector<double> fx, fzl, fzu, fg, flam; double fobj; int f_n, f_m; bool bad_call; const IpoptData* fdata; 
   double badval; bool emit_bad;
   QTNLP(int n_, int m_) : n(n_), m(m_), fortran(false), neg_starting_ok(true), xl(n_, -2e19), xu(n_, 2e19), gl(m_, 0.), gu(m_, 0.), x0(n_, 0.), zl0(n_, 1.), zu0(n_, 1.), lam0(m_, 0.), c(n_, 0.), g0(m_, 0.), c0(0.),
      use_sc(false), use_xs(false), use_gs(false), osc(1.), xs(n_, 1.), gs(m_, 1.), n_f(0), n_grad(0), n_g(0), n_jac(0), n_h(0), n_ic(0), n_fin(0), fail_at(-1), calls(0), fail_kind(-1), stop_at(-1), failed_now(false), status(INTERNAL_ERROR), fobj(0.), f_n(-1), f_m(-1), bad_call(false), fdata(NULL), badval(0.), emit_bad(false), fail_from(-1), fail_mask(0) {}
   virtual ~QTNLP() {}
   void take(const QTNLP& o) { n = o.n; m = o.m; xl = o.xl; xu = o.xu; gl = o.gl; gu = o.gu; x0 = o.x0; zl0 = o.zl0; zu0 = o.zu0; lam0 = o.lam0; c = o.c; g0 = o.g0; c0 = o.c0; Q = o.Q; A = o.A; Bq = o.Bq; xs = o.xs; gs = o.gs; }
   double F(const double* x) const { double r = c0; for( int i = 0; i < n; i++ ) r += c[i] * x[i]; for( size_t k = 0; k < Q.size(); k++ ) r += (Q[k].i == Q[k].j ? .5 : 1.) * Q[k].v * x[Q[k].i] * x[Q[k].j]; return r; }
   void GF(const double* x, double* gr) const { for( int i = 0; i < n; i++ ) gr[i] = c[i]; for( size_t k = 0; k < Q.size(); k++ ) { int i = Q[k].i, j = Q[k].j; if( i == j ) gr[i] += Q[k].v * x[i]; else { gr[i] += Q[k].v * x[j]; gr[j] += Q[k].v * x[i]; } } }
   void G(const double* x, double* g) const { for( int k = 0; k < m; k++ ) g[k] = g0[k]; for( size_t t = 0; t < A.size(); t++ ) g[A[t].i] += A[t].v * x[A[t].j]; for( size_t t = 0; t < Bq.size(); t++ ) g[Bq[t].k] += (Bq[t].i == Bq[t].j ? .5 : 1.) * Bq[t].v * x[Bq[t].i] * x[Bq[t].j]; }
   // dense Jacobian m x n row major
   void J(const double* x, double* jj) const { for( int k = 0; k < m * n; k++ ) jj[k] = 0.; for( size_t t = 0; t < A.size(); t++ ) jj[A[t].i * n + A[t].j] += A[t].v;
      for( size_t t = 0; t < Bq.size(); t++ ) { int k = Bq[t].k, i = Bq[t].i, j = Bq[t].j; if( i == j ) jj[k * n + i] += Bq[t].v * x[i]; else { jj[k * n + i] += Bq[t].v * x[j]; jj[k * n + j] += Bq[t].v * x[i]; } } }
   // dense Hessian of the Lagrangian, symmetric n x n
   void H(double sf, const double* lam, double* hh) const { for( int k = 0; k < n * n; k++ ) hh[k] = 0.; for( size_t k = 0; k < Q.size(); k++ ) { hh[Q[k].i * n + Q[k].j] += sf * Q[k].v; if( Q[k].i != Q[k].j ) hh[Q[k].j * n + Q[k].i] += sf * Q[k].v; }
      for( size_t t = 0; t < Bq.size(); t++ ) { int i = Bq[t].i, j = Bq[t].j; double v = lam[Bq[t].k] * Bq[t].v; hh[i * n + j] += v; if( i != j ) hh[j * n + i] += v; } }
   virtual void failing(int /*kind*/) {}
   int fail_from, fail_mask; bool gate(int kind) { int id = calls++; failed_now = false; if( (fail_at >= 0 && id == fail_at) || (fail_from >= 0 && ((fail_mask >> kind) & 1) && id >= fail_from) ) { failed_now = true; fail_kind = kind; failing(kind); return false; } return true; }
   bool get_nlp_info(Index& n_, Index& m_, Index& nj, Index& nh, IndexStyleEnum& st) { n_ = n; m_ = m; nj = (int) (A.size() + 2 * Bq.size()); nh = (int) (Q.size() + Bq.size()); st = fortran ? FORTRAN_STYLE : C_STYLE; return true; }
   bool get_bounds_info(Index n_, Number* a, Number* b, Index m_, Number* d, Number* e) { if( n_ != n || m_ != m ) bad_call = true; for( int i = 0; i < n; i++ ) { a[i] = xl[i]; b[i] = xu[i]; } for( int i = 0; i < m; i++ ) { d[i] = gl[i]; e[i] = gu[i]; } return true; }
   bool get_scaling_parameters(Number& o, bool& ux, Index, Number* x, bool& ug, Index, Number* g) { if( !use_sc ) return false; o = osc; ux = use_xs; ug = use_gs; if( ux ) for( int i = 0; i < n; i++ ) x[i] = xs[i]; if( ug ) for( int i = 0; i < m; i++ ) g[i] = gs[i]; return true; }
   bool get_starting_point(Index, bool ix, Number* x, bool iz, Number* a, Number* b, Index, bool il, Number* l) { if( ix ) for( int i = 0; i < n; i++ ) x[i] = x0[i]; if( iz ) for( int i = 0; i < n; i++ ) { a[i] = zl0[i]; b[i] = zu0[i]; } if( il ) for( int i = 0; i < m; i++ ) l[i] = lam0[i]; return true; }
   bool eval_f(Index, const Number* x, bool, Number& f) { n_f++; f = F(x); if( !gate(1) ) { if( emit_bad ) { f = badval; return true; } return false; } return true; }
   bool eval_grad_f(Index, const Number* x, bool, Number* g) { n_grad++; GF(x, g); if( !gate(2) ) { if( emit_bad ) { g[0] = badval; return true; } return false; } return true; }
   bool eval_g(Index, const Number* x, bool, Index, Number* g) { n_g++; G(x, g); if( !gate(3) ) { if( emit_bad && m ) { g[0] = badval; return true; } return false; } return true; }
   bool eval_jac_g(Index, const Number* x, bool, Index, Index, Index* ir, Index* jc, Number* v) { int o = fortran ? 1 : 0; int k = 0;
      if( ir ) { for( size_t t = 0; t < A.size(); t++ ) { ir[k] = A[t].i + o; jc[k++] = A[t].j + o; } for( size_t t = 0; t < Bq.size(); t++ ) { ir[k] = Bq[t].k + o; jc[k++] = Bq[t].i + o; ir[k] = Bq[t].k + o; jc[k++] = Bq[t].j + o; } return true; }
      n_jac++; for( size_t t = 0; t < A.size(); t++ ) v[k++] = A[t].v; for( size_t t = 0; t < Bq.size(); t++ ) { int i = Bq[t].i, j = Bq[t].j; if( i == j ) { v[k++] = Bq[t].v * x[i]; v[k++] = 0.; } else { v[k++] = Bq[t].v * x[j]; v[k++] = Bq[t].v * x[i]; } }
      if( !gate(4) ) { if( emit_bad && k ) { v[0] = badval; return true; } return false; } return true; }
   bool eval_h(Index, const Number*, bool, Number sf, Index, const Number* lam, bool, Index, Index* ir, Index* jc, Number* v) { int o = fortran ? 1 : 0; int k = 0;
      if( ir ) { for( size_t t = 0; t < Q.size(); t++ ) { ir[k] = Q[t].i + o; jc[k++] = Q[t].j + o; } for( size_t t = 0; t < Bq.size(); t++ ) { ir[k] = Bq[t].i + o; jc[k++] = Bq[t].j + o; } return true; }
      n_h++; for( size_t t = 0; t < Q.size(); t++ ) v[k++] = sf * Q[t].v; for( size_t t = 0; t < Bq.size(); t++ ) v[k++] = lam[Bq[t].k] * Bq[t].v;
      if( !gate(5) ) { if( emit_bad && k ) { v[0] = badval; return true; } return false; } return true; }
   bool intermediate_callback(AlgorithmMode, Index, Number, Number, Number, Number, Number, Number, Number, Number, Index, const IpoptData*, IpoptCalculatedQuantities*) { return !(stop_at >= 0 && n_ic++ == stop_at); }
   void finalize_solution(SolverReturn st, Index n_, const Number* x, const Number* a, const Number* b, Index m_, const Number* g, const Number* l, Number f, const IpoptData* d, IpoptCalculatedQuantities*) {
      n_fin++; status = st; f_n = n_; f_m = m_; fobj = f; fx.assign(x, x + n_); fzl.assign(a, a + n_); fzu.assign(b, b + n_); fg.assign(g, g + m_); flam.assign(l, l + m_); fdata = d; }
};
static inline SmartPtr<IpoptApplication> mkapp() { SmartPtr<IpoptApplication> a = new IpoptApplication(false, false); a->Options()->SetIntegerValue("print_level", 0); a->Options()->SetStringValue("sb", "yes"); a->Options()->SetStringValue("timing_statistics", "no"); return a; }
// registered options without an application
static inline SmartPtr<OptionsList> mkopts(SmartPtr<Journalist> j) { SmartPtr<IpoptApplication> a = new IpoptApplication(false, false); SmartPtr<OptionsList> o = new OptionsList(); *o = *a->Options(); (void) j; return o; }
static inline SmartPtr<DenseVector> dvec(const double* v, int n) { SmartPtr<DenseVectorSpace> s = new DenseVectorSpace(n); SmartPtr<DenseVector> r = s->MakeNewDenseVector(); r->SetValues(v); return r; }
static inline double dv(const Vector& v, int i) { const DenseVector* d = static_cast<const DenseVector*>(&v); return d->ExpandedValues()[i]; }
static inline void dvget(const Vector& v, std::vector<double>& out) { const DenseVector* d = static_cast<const DenseVector*>(&v); int n = v.Dim(); out.resize(n); if( n == 0 ) return; const Number* p = d->ExpandedValues(); for( int i = 0; i < n; i++ ) out[i] = p[i]; }
// symbolic dense vector, either materialised or "homogeneous" representation
static inline SmartPtr<DenseVector> symvec(const DenseVectorSpace* s, const char* name, bool homog = false) { SmartPtr<DenseVector> r = s->MakeNewDenseVector(); int n = s->Dim(); if( homog ) { double v = symd(name); r->Set(v); } else { std::vector<double> v(n + 1); for( int i = 0; i < n; i++ ) v[i] = symdi(name, i); r->SetValues(&v[0]); } return r; }
