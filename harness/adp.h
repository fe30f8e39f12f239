// A TNLP behind the real TNLPAdapter, with an independently computed reference mapping.
#pragma once
#include "hs.h"
#include "IpGenTMatrix.hpp"
#include "IpSymTMatrix.hpp"
#include "IpExpansionMatrix.hpp"
static const char* FVT[4] = {"make_parameter", "make_constraint", "relax_bounds", "make_parameter_nodual"};
struct Adp
{
   SmartPtr<QTNLP> t; SmartPtr<TNLPAdapter> ad; SmartPtr<IpoptApplication> app; int mode; bool ok, threw;
   SmartPtr<const VectorSpace> xs, cs, ds, xls, xus, dls, dus; SmartPtr<const MatrixSpace> pxl, pxu, pdl, pdu, jc, jd; SmartPtr<const SymMatrixSpace> hs;
   // reference
   std::vector<int> xv, fix, eq, ineq; int nx, nc, nd, nfixrows;
   Adp(int md) : mode(md), ok(false), threw(false) { app = mkapp(); }
   bool isfix(int i) const { return t->xl[i] == t->xu[i]; }
   bool open(SmartPtr<QTNLP> q)
   {
      t = q; ad = new TNLPAdapter(GetRawPtr(t), ConstPtr(app->Jnlst())); app->Options()->SetStringValue("fixed_variable_treatment", FVT[mode]);
      if( !ad->ProcessOptions(*app->Options(), "") ) return false;
      try { ok = ad->GetSpaces(xs, cs, ds, xls, pxl, xus, pxu, dls, pdl, dus, pdu, jc, jd, hs); } catch( IpoptException& ) { threw = true; return false; }
      if( !ok ) return false;
      ref(); return true;
   }
   void ref()
   {
      for( int i = 0; i < t->m; i++ ) if( t->gl[i] == t->gu[i] ) eq.push_back(i); else ineq.push_back(i);
      for( int i = 0; i < t->n; i++ ) if( isfix(i) ) fix.push_back(i);
      int md = mode; int nfree = t->n - (int) fix.size();
      bool par = md == 0 || md == 3; int nxv = par ? nfree : t->n;
      if( md != 2 && !fix.empty() && nxv < (int) eq.size() && nxv > 0 ) { mode = md = 2; par = false; }
      for( int i = 0; i < t->n; i++ ) if( !par || !isfix(i) ) xv.push_back(i);
      nfixrows = md == 1 ? (int) fix.size() : 0; nx = (int) xv.size(); nc = (int) eq.size() + nfixrows; nd = (int) ineq.size();
   }
   bool par() const { return mode == 0 || mode == 3; }
   bool haslb(int i) const { return (mode == 2 || !isfix(i)) && t->xl[i] > -1e19; }
   bool hasub(int i) const { return (mode == 2 || !isfix(i)) && t->xu[i] < 1e19; }
   void full(const std::vector<double>& x, std::vector<double>& f) const { f.resize(t->n); for( int i = 0; i < t->n; i++ ) f[i] = t->xl[i]; for( int k = 0; k < nx; k++ ) f[xv[k]] = x[k]; }
   SmartPtr<DenseVector> vec(SmartPtr<const VectorSpace> s) const { return static_cast<DenseVector*>(s->MakeNew()); }
   SmartPtr<DenseVector> vec(SmartPtr<const VectorSpace> s, const char* n, std::vector<double>& v) const { SmartPtr<DenseVector> r = vec(s); v.resize(s->Dim() + 1); for( int i = 0; i < s->Dim(); i++ ) v[i] = symdi(n, i); r->SetValues(&v[0]); v.resize(s->Dim()); return r; }
};
// var i: bound pattern; 0 arbitrary (any doubles), 1 free, 2 fixed, 3 both finite and distinct, 4 lower only, 5 upper only
static inline void symbound(int pat, int i, const char* ln, const char* un, double& l, double& u)
{
   switch( pat ) {
   case 0: l = symdi(ln, i); u = symdi(un, i); break;
   case 1: l = -1e20; u = 1e20; break;
   case 2: l = symdi(ln, i, -1e6, 1e6); u = l; break;
   case 3: l = symdi(ln, i, -1e6, 1e6); u = symdi(un, i, -1e6, 1e6); ASSUME(l < u); break;
   case 4: l = symdi(ln, i, -1e6, 1e6); u = 1e20; break;
   case 5: l = -1e20; u = symdi(un, i, -1e6, 1e6); break;
   }
}
#include "IpUserScaling.hpp"
#include "IpTimingStatistics.hpp"
#include "IpGradientScaling.hpp"
#include "IpNLPScaling.hpp"
struct Org
{
   Adp a; TimingStatistics tm; SmartPtr<OrigIpoptNLP> on; SmartPtr<NLPScalingObject> sc; SmartPtr<Vector> x, yc, yd, zl, zu, vl, vu; bool ok;
   Org(int md) : a(md), ok(false) {}
   // kind: 0 none 1 user 2 gradient-based
   bool open(SmartPtr<QTNLP> t, int kind, bool ix = false, bool iy = false, bool iz = false)
   {
      a.t = t; a.ad = new TNLPAdapter(GetRawPtr(t), ConstPtr(a.app->Jnlst())); a.app->Options()->SetStringValue("fixed_variable_treatment", FVT[a.mode]);
      if( kind == 0 ) sc = new NoNLPScalingObject(); else if( kind == 1 ) sc = new UserScaling(GetRawPtr(a.ad)); else sc = new GradientScaling(GetRawPtr(a.ad));
      on = new OrigIpoptNLP(ConstPtr(a.app->Jnlst()), GetRawPtr(a.ad), sc, tm);
      if( !on->Initialize(*a.app->Jnlst(), *a.app->Options(), "") ) return false;
      ok = on->InitializeStructures(x, ix, yc, iy, yd, iy, zl, iz, zu, iz, vl, vu); if( ok ) a.ref(); return ok;
   }
};
