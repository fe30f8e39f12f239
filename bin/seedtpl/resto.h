// The restoration phase problem over a Fix.
#pragma once
#include "fix.h"
#include "IpRestoIpoptNLP.hpp"
struct Resto
{
   Fix& fx; SmartPtr<RestoIpoptNLP> nlp; SmartPtr<IpoptData> data; SmartPtr<IpoptCalculatedQuantities> cq; bool ok; int n, nc, nd; double rho, zeta; VD xr;
   Resto(Fix& f, bool init = true) : fx(f), ok(false) { nlp = new RestoIpoptNLP(*f.nlp, *f.data, *f.cq); data = new IpoptData(NULL); cq = new IpoptCalculatedQuantities(GetRawPtr(nlp), data); n = f.dim(0); nc = f.dim(2); nd = f.dim(3); dvget(*f.data->curr()->x(), xr); ok = data->Initialize(f.jn(), f.opt(), "resto.") && cq->Initialize(f.jn(), f.opt(), "resto.") && nlp->Initialize(f.jn(), f.opt(), "resto."); if( ok && init ) ok = data->InitializeDataStructures(*nlp, true, false, false, false, false); }
   int cd(int k) const { return k == 0 ? n : k < 3 ? nc : nd; }
   // part k of a vector of the primal variables
   static void get(const Vector& v, int k, VD& out) { dvget(*static_cast<const CompoundVector&>(v).GetComp(k), out); }
   static void put(Vector& v, int k, VD w) { w.push_back(0.); static_cast<DenseVector*>(GetRawPtr(static_cast<CompoundVector&>(v).GetCompNonConst(k)))->SetValues(&w[0]); }
   static VD flat(const Vector& v) { const CompoundVector& c = static_cast<const CompoundVector&>(v); VD r, w; for( int k = 0; k < c.NComps(); k++ ) { dvget(*c.GetComp(k), w); r.insert(r.end(), w.begin(), w.end()); } return r; }
   static void fill(Vector& v, const VD& w) { CompoundVector& c = static_cast<CompoundVector&>(v); size_t p = 0; for( int k = 0; k < c.NComps(); k++ ) { int d = c.GetComp(k)->Dim(); put(v, k, VD(w.begin() + p, w.begin() + p + d)); p += d; } }
   static VD arb(const Vector& v, const char* name) { VD r; for( int i = 0; i < v.Dim(); i++ ) r.push_back(symdi(name, i)); return r; }
};
