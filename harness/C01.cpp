//! {"quick":["0-15"],"thorough":["0-15","20-31"],"level":"model_checking","mode":"real",
//!  "reach":["spaces","relaxed-for-dof","inconsistent","fixed","free"],
//!  "bounds":["2 variables and 2 constraints (thorough: 3 and 3), variable/constraint bounds arbitrary reals (so every combination of free, one-sided, two-sided, fixed, inconsistent and beyond-infinity bounds), all four fixed_variable_treatment values","quadratic objective and constraints with arbitrary coefficients, duplicate triplet entries, C and Fortran index style; point, multipliers, objective factor arbitrary"],
//!  "assumptions":["exact real arithmetic"],
//!  "outside":["non-polynomial functions","limited-memory Hessian","dependency detection","finite-difference derivatives"]}
#include "adp.h"
// matrix-free comparison of an Ipopt matrix with a dense reference through products with an arbitrary vector
static void cmpmat(const Matrix& M, const std::vector<double>& D, int r, int c, const char* l, const char* lt)
{
   CHECK(M.NRows() == r, "matrix rows"); CHECK(M.NCols() == c, "matrix cols"); if( M.NRows() != r || M.NCols() != c ) return;
   SmartPtr<DenseVectorSpace> vr = new DenseVectorSpace(r), vc = new DenseVectorSpace(c);
   for( int pass = 0; pass < 2; pass++ ) {
      int in = pass ? r : c, out = pass ? c : r; SmartPtr<DenseVector> v = (pass ? vr : vc)->MakeNewDenseVector(), w = (pass ? vc : vr)->MakeNewDenseVector(); std::vector<double> vv(in + 1); for( int i = 0; i < in; i++ ) vv[i] = symdi("v", i); v->SetValues(&vv[0]);
      if( pass ) M.TransMultVector(1., *v, 0., *w); else M.MultVector(1., *v, 0., *w);
      std::vector<double> got; dvget(*w, got); for( int o = 0; o < out; o++ ) { double s = 0.; for( int i = 0; i < in; i++ ) s += (pass ? D[i * c + o] : D[o * c + i]) * vv[i]; CHECKEQ(got[o], s, pass ? lt : l); }
   }
}
extern "C" int sym_main()
{
   int c = __sym_case(); int mode = c % 4, grp = c / 4; int n = 2, m = 2; if( c >= 20 ) { n = 3; m = 3; mode = (c - 20) % 4; grp = 10 + (c - 20) / 4; }
   SmartPtr<QTNLP> t = new QTNLP(n, m); Adp a(mode);
   int vp[4] = {0, 0, 0, 0}, cp[4] = {0, 0, 0, 0};
   switch( grp ) {
   case 0: vp[0] = 0; vp[1] = 0; cp[0] = 2; cp[1] = 4; break;      // all variable bounds
   case 1: vp[0] = 2; vp[1] = 3; cp[0] = 0; cp[1] = 0; break;      // all constraint bounds, one fixed variable
   case 2: vp[0] = 0; vp[1] = 2; cp[0] = 2; cp[1] = 0; break;      // second fixed
   case 3: vp[0] = 4; vp[1] = 2; cp[0] = 2; cp[1] = 2; break;      // degrees of freedom exhausted
   case 10: vp[0] = 0; vp[1] = 2; vp[2] = 0; cp[0] = 3; cp[1] = 2; cp[2] = 5; break;
   case 11: vp[0] = 2; vp[1] = 3; vp[2] = 0; cp[0] = 0; cp[1] = 2; cp[2] = 0; break;
   case 12: vp[0] = 2; vp[1] = 2; vp[2] = 0; cp[0] = 2; cp[1] = 0; cp[2] = 0; break;
   }
   for( int i = 0; i < n; i++ ) symbound(vp[i], i, "xl", "xu", t->xl[i], t->xu[i]); for( int i = 0; i < m; i++ ) symbound(cp[i], i, "gl", "gu", t->gl[i], t->gu[i]);
   t->fortran = mode == 1 || mode == 2;
   t->c0 = symd("c0"); for( int i = 0; i < n; i++ ) t->c[i] = symdi("c", i); for( int i = 0; i < m; i++ ) t->g0[i] = symdi("g0", i);
   { Trip q; q.i = 0; q.j = 0; q.v = symd("q00"); t->Q.push_back(q); q.i = 1; q.j = 0; q.v = symd("q10"); t->Q.push_back(q); q.i = 1; q.j = 1; q.v = symd("q11"); t->Q.push_back(q); q.i = n - 1; q.j = n - 1; q.v = symd("qd"); t->Q.push_back(q); }
   { int k = 0; for( int r = 0; r < m; r++ ) for( int j = 0; j < n; j++ ) { if( r == 0 && j == 1 && grp == 2 ) continue; Trip q; q.i = r; q.j = j; q.v = symdi("a", k++); t->A.push_back(q); } Trip q; q.i = m - 1; q.j = 0; q.v = symd("adup"); t->A.push_back(q); }
   { TripK b; b.k = 0; b.i = 1; b.j = 0; b.v = symd("b0"); t->Bq.push_back(b); b.k = m - 1; b.i = 1; b.j = 1; b.v = symd("b1"); t->Bq.push_back(b); }
   bool inc = false; for( int i = 0; i < n; i++ ) { ASSUME(t->xl[i] <= 1e18); ASSUME(t->xu[i] >= -1e18); if( t->xl[i] > t->xu[i] ) inc = true; } for( int i = 0; i < m; i++ ) { ASSUME(t->gl[i] <= 1e18); ASSUME(t->gu[i] >= -1e18); if( t->gl[i] > t->gu[i] ) inc = true; }
   bool opened = a.open(t); CHECK(!t->bad_call, "callback dimensions");
   if( inc ) { CHECK(!opened && a.threw, "inconsistent bounds are refused"); REACH("inconsistent"); return 0; }
   CHECK(opened, "consistent problem accepted"); if( !opened ) return 0; REACH("spaces"); if( a.mode != mode ) REACH("relaxed-for-dof"); REACH(a.fix.empty() ? "free" : "fixed");
   CHECK(a.xs->Dim() == a.nx, "number of variables"); CHECK(a.cs->Dim() == a.nc, "number of equalities"); CHECK(a.ds->Dim() == a.nd, "number of inequalities"); if( a.xs->Dim() != a.nx || a.cs->Dim() != a.nc || a.ds->Dim() != a.nd ) return 0;
   // bounds
   { SmartPtr<Matrix> PL = a.pxl->MakeNew(), PU = a.pxu->MakeNew(), QL = a.pdl->MakeNew(), QU = a.pdu->MakeNew(); SmartPtr<DenseVector> xl = a.vec(a.xls), xu = a.vec(a.xus), dl = a.vec(a.dls), du = a.vec(a.dus);
     CHECK(a.ad->GetBoundsInformation(*PL, *xl, *PU, *xu, *QL, *dl, *QU, *du), "bounds delivered");
     for( int w = 0; w < 4; w++ ) { Matrix& P = w == 0 ? *PL : w == 1 ? *PU : w == 2 ? *QL : *QU; DenseVector& b = w == 0 ? *xl : w == 1 ? *xu : w == 2 ? *dl : *du; int dim = w < 2 ? a.nx : a.nd;
        CHECK(P.NRows() == dim && P.NCols() == b.Dim(), "bound map dimensions"); SmartPtr<DenseVectorSpace> sp = new DenseVectorSpace(dim); SmartPtr<DenseVector> v = sp->MakeNewDenseVector(), cnt = sp->MakeNewDenseVector(); SmartPtr<DenseVector> one = static_cast<DenseVector*>(b.MakeNew()); one->Set(1.); v->Set(0.); cnt->Set(0.);
        P.MultVector(1., b, 0., *v); P.MultVector(1., *one, 0., *cnt); std::vector<double> vv, cc; dvget(*v, vv); dvget(*cnt, cc);
        for( int k = 0; k < dim; k++ ) { int i = w < 2 ? a.xv[k] : a.ineq[k]; bool has = w == 0 ? a.haslb(i) : w == 1 ? a.hasub(i) : w == 2 ? t->gl[i] > -1e19 : t->gu[i] < 1e19; double val = w == 0 ? t->xl[i] : w == 1 ? t->xu[i] : w == 2 ? t->gl[i] : t->gu[i];
           CHECKEQ(cc[k], has ? 1. : 0., "a bound exists exactly where the user gave a finite one"); if( has && !(w < 2 && a.isfix(i)) ) CHECKEQ(vv[k], val, "bound value"); } } }
   // functions
   std::vector<double> x, f; SmartPtr<DenseVector> xv = a.vec(a.xs, "x", x); a.full(x, f); std::vector<double> gf(n), g(m), J(m * n), H(n * n);
   double fv; CHECK(a.ad->Eval_f(*xv, fv), "eval f"); CHECKEQ(fv, t->F(&f[0]), "objective value");
   SmartPtr<DenseVector> gr = a.vec(a.xs); CHECK(a.ad->Eval_grad_f(*xv, *gr), "eval grad"); t->GF(&f[0], &gf[0]); { std::vector<double> r; dvget(*gr, r); for( int k = 0; k < a.nx; k++ ) CHECKEQ(r[k], gf[a.xv[k]], "objective gradient"); }
   SmartPtr<DenseVector> cv = a.vec(a.cs), dvv = a.vec(a.ds); CHECK(a.ad->Eval_c(*xv, *cv), "eval c"); CHECK(a.ad->Eval_d(*xv, *dvv), "eval d"); t->G(&f[0], &g[0]);
   { std::vector<double> r; dvget(*cv, r); for( size_t k = 0; k < a.eq.size(); k++ ) CHECKEQ(r[k], g[a.eq[k]] - t->gl[a.eq[k]], "equality residual"); if( a.nfixrows ) for( size_t k = 0; k < a.fix.size(); k++ ) CHECKEQ(r[a.eq.size() + k], f[a.fix[k]] - t->xl[a.fix[k]] + 0. * 0. , "fixed-variable row"); 
     dvget(*dvv, r); for( size_t k = 0; k < a.ineq.size(); k++ ) CHECKEQ(r[k], g[a.ineq[k]], "inequality activity"); }
   t->J(&f[0], &J[0]); SmartPtr<Matrix> jc = a.jc->MakeNew(), jd = a.jd->MakeNew(); CHECK(a.ad->Eval_jac_c(*xv, *jc), "eval jac c"); CHECK(a.ad->Eval_jac_d(*xv, *jd), "eval jac d");
   { std::vector<double> D(a.nc * a.nx + 1, 0.); for( size_t k = 0; k < a.eq.size(); k++ ) for( int q = 0; q < a.nx; q++ ) D[k * a.nx + q] = J[a.eq[k] * n + a.xv[q]]; if( a.nfixrows ) for( size_t k = 0; k < a.fix.size(); k++ ) D[(a.eq.size() + k) * a.nx + a.fix[k]] = 1.; cmpmat(*jc, D, a.nc, a.nx, "equality Jacobian", "equality Jacobian transposed"); }
   { std::vector<double> D(a.nd * a.nx + 1, 0.); for( size_t k = 0; k < a.ineq.size(); k++ ) for( int q = 0; q < a.nx; q++ ) D[k * a.nx + q] = J[a.ineq[k] * n + a.xv[q]]; cmpmat(*jd, D, a.nd, a.nx, "inequality Jacobian", "inequality Jacobian transposed"); }
   { std::vector<double> yc, yd, lam(m, 0.); SmartPtr<DenseVector> ycv = a.vec(a.cs, "yc", yc), ydv = a.vec(a.ds, "yd", yd); double sf = symd("sf"); for( size_t k = 0; k < a.eq.size(); k++ ) lam[a.eq[k]] = yc[k]; for( size_t k = 0; k < a.ineq.size(); k++ ) lam[a.ineq[k]] = yd[k];
     SmartPtr<SymMatrix> h = a.hs->MakeNewSymMatrix(); CHECK(a.ad->Eval_h(*xv, sf, *ycv, *ydv, *h), "eval h"); t->H(sf, &lam[0], &H[0]); std::vector<double> D(a.nx * a.nx + 1, 0.); for( int p = 0; p < a.nx; p++ ) for( int q = 0; q < a.nx; q++ ) D[p * a.nx + q] = H[a.xv[p] * n + a.xv[q]]; cmpmat(*h, D, a.nx, a.nx, "Lagrangian Hessian", "Lagrangian Hessian symmetric"); 
     // histories: only one of the arguments changes between evaluations (and goes back)
     for( int st = 0; st < 5; st++ ) { std::vector<double> o; if( st == 0 ) { ydv = a.vec(a.ds, "yd_b", yd); } if( st == 1 ) ycv = a.vec(a.cs, "yc_b", yc); SmartPtr<DenseVector> xo = xv; std::vector<double> fo(f);
        if( st == 2 || st == 4 ) { xv = a.vec(a.xs, st == 2 ? "x_b" : "x_c", x); a.full(x, f); } if( st == 3 ) { double nf; CHECK(a.ad->Eval_f(*xv, nf), "eval f"); }
        for( size_t k = 0; k < a.eq.size(); k++ ) lam[a.eq[k]] = yc[k]; for( size_t k = 0; k < a.ineq.size(); k++ ) lam[a.ineq[k]] = yd[k];
        if( st == 4 ) { t->G(&f[0], &g[0]); CHECK(a.ad->Eval_jac_d(*xv, *jd) && a.ad->Eval_d(*xv, *dvv) && a.ad->Eval_c(*xv, *cv), "evaluation at another point"); std::vector<double> r; dvget(*cv, r); for( size_t k = 0; k < a.eq.size(); k++ ) CHECKEQ(r[k], g[a.eq[k]] - t->gl[a.eq[k]], "equality residual at another point"); dvget(*dvv, r); for( size_t k = 0; k < a.ineq.size(); k++ ) CHECKEQ(r[k], g[a.ineq[k]], "inequality activity at another point"); }
        CHECK(a.ad->Eval_h(*xv, sf, *ycv, *ydv, *h), "eval h"); t->H(sf, &lam[0], &H[0]); for( int p = 0; p < a.nx; p++ ) for( int q = 0; q < a.nx; q++ ) D[p * a.nx + q] = H[a.xv[p] * n + a.xv[q]]; cmpmat(*h, D, a.nx, a.nx, "Lagrangian Hessian after a change of one argument", "Lagrangian Hessian transposed after a change of one argument"); } }
   // starting point
   { for( int i = 0; i < n; i++ ) { t->x0[i] = symdi("x0", i); t->zl0[i] = symdi("zl0", i); t->zu0[i] = symdi("zu0", i); } for( int i = 0; i < m; i++ ) t->lam0[i] = symdi("lam0", i);
     SmartPtr<DenseVector> sx = a.vec(a.xs), syc = a.vec(a.cs), syd = a.vec(a.ds), szl = a.vec(a.xls), szu = a.vec(a.xus);
     CHECK(a.ad->GetStartingPoint(GetRawPtr(sx), true, GetRawPtr(syc), true, GetRawPtr(syd), true, GetRawPtr(szl), true, GetRawPtr(szu), true), "starting point"); std::vector<double> r;
     dvget(*sx, r); for( int k = 0; k < a.nx; k++ ) CHECKEQ(r[k], t->x0[a.xv[k]], "starting point x"); dvget(*syc, r); for( size_t k = 0; k < a.eq.size(); k++ ) CHECKEQ(r[k], t->lam0[a.eq[k]], "starting multipliers of equalities"); 
     dvget(*syd, r); for( size_t k = 0; k < a.ineq.size(); k++ ) CHECKEQ(r[k], t->lam0[a.ineq[k]], "starting multipliers of inequalities");
     int kl = 0, ku = 0; std::vector<double> ru; dvget(*szl, r); dvget(*szu, ru); for( int k = 0; k < a.nx; k++ ) { int i = a.xv[k]; if( a.haslb(i) ) { CHECKEQ(r[kl], t->zl0[i], "starting lower-bound multipliers"); kl++; } if( a.hasub(i) ) { CHECKEQ(ru[ku], t->zu0[i], "starting upper-bound multipliers"); ku++; } } }
   // x and g mapping back
   { std::vector<double> xo(n), go(m); a.ad->ResortX(*xv, &xo[0]); for( int i = 0; i < n; i++ ) CHECKEQ(xo[i], f[i], "x mapped back"); a.ad->ResortG(*cv, *dvv, &go[0], true); for( int i = 0; i < m; i++ ) CHECKEQ(go[i], g[i], "g mapped back"); }
   return 0;
}
