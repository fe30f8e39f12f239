// IpoptData / IpoptCalculatedQuantities / OrigIpoptNLP over a QTNLP, with iterates whose entries are symbolic.
#pragma once
#include "hs.h"
#include "IpNLPScaling.hpp"
typedef std::vector<double> VD;
struct Itr { VD b[8]; double at(int k, int i) const { return b[k][i]; } };  // x s yc yd zL zU vL vU
static const char* BN[8] = {"x", "s", "yc", "yd", "zL", "zU", "vL", "vU"};
struct Fix
{
   SmartPtr<IpoptApplication> app; SmartPtr<QTNLP> t; SmartPtr<TNLPAdapter> ad; SmartPtr<IpoptNLP> nlp; SmartPtr<IpoptData> data; SmartPtr<IpoptCalculatedQuantities> cq; OrigIpoptNLP* on; AlgorithmBuilder ab; bool ok;
   Fix() : on(NULL), ok(false) { app = mkapp(); app->Options()->SetStringValue("nlp_scaling_method", "none"); app->Options()->SetNumericValue("bound_relax_factor", 0.); }
   OptionsList& opt() { return *app->Options(); }
   const Journalist& jn() { return *app->Jnlst(); }
   void build(SmartPtr<QTNLP> q, bool init = true)
   {
      t = q; ad = new TNLPAdapter(GetRawPtr(t), ConstPtr(app->Jnlst())); ab.BuildIpoptObjects(*app->Jnlst(), *app->Options(), "", GetRawPtr(ad), nlp, data, cq); on = static_cast<OrigIpoptNLP*>(GetRawPtr(nlp));
      ok = data->Initialize(jn(), opt(), "") && cq->Initialize(jn(), opt(), "") && nlp->Initialize(jn(), opt(), ""); if( ok && init ) ok = data->InitializeDataStructures(*nlp, false, false, false, false, false);
   }
   SmartPtr<IteratesVector> make(const Itr& I) { SmartPtr<IteratesVector> v = data->curr()->MakeNewIteratesVector(true); for( int k = 0; k < 8; k++ ) { DenseVector* d = static_cast<DenseVector*>(GetRawPtr(v->GetCompNonConst(k))); std::vector<double> w(I.b[k]); w.push_back(0.); d->SetValues(&w[0]); } return v; }
   int dim(int k) { return data->curr()->GetComp(k)->Dim(); }
   Itr sym(const char* pre) { Itr I; for( int k = 0; k < 8; k++ ) for( int i = 0; i < dim(k); i++ ) { std::string s(pre); s += BN[k]; I.b[k].push_back(symdi(s.c_str(), i)); } return I; }
   void curr(const Itr& I) { SmartPtr<IteratesVector> v = make(I); data->set_trial(v); data->AcceptTrialPoint(); }
   void trial(const Itr& I) { SmartPtr<IteratesVector> v = make(I); data->set_trial(v); }
   void delta(const Itr& I) { SmartPtr<IteratesVector> v = make(I); data->set_delta(v); }
};
static inline double vabs(double v) { return v < 0. ? -v : v; }
static inline double vmax(double a, double b) { return a > b ? a : b; }
static inline double vmin(double a, double b) { return a < b ? a : b; }
// reference problem in algorithm form: fixed variable-free QTNLP, equality rows eq, inequality rows iq, bound index lists
struct Ref
{
   QTNLP& t; std::vector<int> eq, iq, xl, xu, dl, du;
   Ref(QTNLP& q) : t(q) { for( int i = 0; i < t.n; i++ ) { if( t.xl[i] > -1e19 ) xl.push_back(i); if( t.xu[i] < 1e19 ) xu.push_back(i); } for( int k = 0; k < t.m; k++ ) if( t.gl[k] == t.gu[k] ) eq.push_back(k); else { int p = (int) iq.size(); iq.push_back(k); if( t.gl[k] > -1e19 ) dl.push_back(p); if( t.gu[k] < 1e19 ) du.push_back(p); } }
   double sxl(const Itr& I, int k) const { return I.b[0][xl[k]] - t.xl[xl[k]]; }
   double sxu(const Itr& I, int k) const { return t.xu[xu[k]] - I.b[0][xu[k]]; }
   double ssl(const Itr& I, int k) const { return I.b[1][dl[k]] - t.gl[iq[dl[k]]]; }
   double ssu(const Itr& I, int k) const { return t.gu[iq[du[k]]] - I.b[1][du[k]]; }
   double slack(const Itr& I, int j) const { int a = (int) xl.size(), b = a + (int) xu.size(), c = b + (int) dl.size(); return j < a ? sxl(I, j) : j < b ? sxu(I, j - a) : j < c ? ssl(I, j - b) : ssu(I, j - c); }
   double mult(const Itr& I, int j) const { int a = (int) xl.size(), b = a + (int) xu.size(), c = b + (int) dl.size(); return j < a ? I.b[4][j] : j < b ? I.b[5][j - a] : j < c ? I.b[6][j - b] : I.b[7][j - c]; }
   int nb() const { return (int) (xl.size() + xu.size() + dl.size() + du.size()); }
   double f(const Itr& I) const { return t.F(&I.b[0][0]); }
   VD c(const Itr& I) const { VD g(t.m + 1), r; t.G(&I.b[0][0], &g[0]); for( size_t k = 0; k < eq.size(); k++ ) r.push_back(g[eq[k]] - t.gl[eq[k]]); return r; }
   VD d(const Itr& I) const { VD g(t.m + 1), r; t.G(&I.b[0][0], &g[0]); for( size_t k = 0; k < iq.size(); k++ ) r.push_back(g[iq[k]]); return r; }
   VD dms(const Itr& I) const { VD r = d(I); for( size_t k = 0; k < r.size(); k++ ) r[k] -= I.b[1][k]; return r; }
   VD gradf(const Itr& I) const { VD g(t.n); t.GF(&I.b[0][0], &g[0]); return g; }
   VD jac(const Itr& I) const { VD j(t.n * t.m + 1); t.J(&I.b[0][0], &j[0]); return j; }
   VD jtv(const Itr& I, const std::vector<int>& rows, const VD& y) const { VD j = jac(I), r(t.n, 0.); for( size_t k = 0; k < rows.size(); k++ ) for( int i = 0; i < t.n; i++ ) r[i] += j[rows[k] * t.n + i] * y[k]; return r; }
   VD jv(const Itr& I, const std::vector<int>& rows, const VD& v) const { VD j = jac(I), r(rows.size(), 0.); for( size_t k = 0; k < rows.size(); k++ ) for( int i = 0; i < t.n; i++ ) r[k] += j[rows[k] * t.n + i] * v[i]; return r; }
   VD gradLx(const Itr& I) const { VD r = gradf(I), a = jtv(I, eq, I.b[2]), b = jtv(I, iq, I.b[3]); for( int i = 0; i < t.n; i++ ) r[i] += a[i] + b[i]; for( size_t k = 0; k < xl.size(); k++ ) r[xl[k]] -= I.b[4][k]; for( size_t k = 0; k < xu.size(); k++ ) r[xu[k]] += I.b[5][k]; return r; }
   VD gradLs(const Itr& I) const { VD r(iq.size(), 0.); for( size_t k = 0; k < iq.size(); k++ ) r[k] = -I.b[3][k]; for( size_t k = 0; k < dl.size(); k++ ) r[dl[k]] -= I.b[6][k]; for( size_t k = 0; k < du.size(); k++ ) r[du[k]] += I.b[7][k]; return r; }
   VD hess(double sf, const Itr& I) const { VD lam(t.m + 1, 0.), h(t.n * t.n); for( size_t k = 0; k < eq.size(); k++ ) lam[eq[k]] = I.b[2][k]; for( size_t k = 0; k < iq.size(); k++ ) lam[iq[k]] = I.b[3][k]; t.H(sf, &lam[0], &h[0]); return h; }
   double nlpviol1(const Itr& I) const { double e = 0.; VD cc = c(I), dd = d(I); for( size_t k = 0; k < cc.size(); k++ ) e += vabs(cc[k]); for( size_t k = 0; k < dd.size(); k++ ) { e += vmax(0., t.gl[iq[k]] - dd[k]); e += vmax(0., dd[k] - t.gu[iq[k]]); } return e; }
   double nlpviol(const Itr& I) const { double e = 0.; VD cc = c(I), dd = d(I); for( size_t k = 0; k < cc.size(); k++ ) e = vmax(e, vabs(cc[k])); for( size_t k = 0; k < dd.size(); k++ ) { if( t.gl[iq[k]] > -1e19 ) e = vmax(e, t.gl[iq[k]] - dd[k]); if( t.gu[iq[k]] < 1e19 ) e = vmax(e, dd[k] - t.gu[iq[k]]); } return e; }
   double pinf(const Itr& I) const { double e = 0.; VD cc = c(I), dd = dms(I); for( size_t k = 0; k < cc.size(); k++ ) e = vmax(e, vabs(cc[k])); for( size_t k = 0; k < dd.size(); k++ ) e = vmax(e, vabs(dd[k])); return e; }
   double pinf1(const Itr& I) const { double e = 0.; VD cc = c(I), dd = dms(I); for( size_t k = 0; k < cc.size(); k++ ) e += vabs(cc[k]); for( size_t k = 0; k < dd.size(); k++ ) e += vabs(dd[k]); return e; }
   double dinf(const Itr& I) const { double e = 0.; VD a = gradLx(I), b = gradLs(I); for( size_t k = 0; k < a.size(); k++ ) e = vmax(e, vabs(a[k])); for( size_t k = 0; k < b.size(); k++ ) e = vmax(e, vabs(b[k])); return e; }
   double compl_(const Itr& I, double mu) const { double e = 0.; for( int j = 0; j < nb(); j++ ) e = vmax(e, vabs(slack(I, j) * mult(I, j) - mu)); return e; }
   void scal(const Itr& I, double smax, double& sd, double& sc) const { double z = 0., y = 0.; for( int j = 0; j < nb(); j++ ) z += vabs(mult(I, j)); for( size_t k = 0; k < eq.size(); k++ ) y += vabs(I.b[2][k]); for( size_t k = 0; k < iq.size(); k++ ) y += vabs(I.b[3][k]); int n = nb(); sc = n ? vmax(smax, z / n) / smax : 1.; n += (int) (eq.size() + iq.size()); sd = n ? vmax(smax, (y + z) / n) / smax : 1.; }
};
#define CKV(got, want, label) do { VD g_; dvget(got, g_); VD w_ = want; CHECK(g_.size() == w_.size(), label " (size)"); for( size_t q_ = 0; q_ < g_.size() && q_ < w_.size(); q_++ ) CHECKEQ(g_[q_], w_[q_], label); } while( 0 )
