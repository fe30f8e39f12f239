//! {"quick":["0-15","18","fp:16-17"],"thorough":["0-15","18","fp:16-17","20-33"],"level":"model_checking",
//!  "reach":["op","mixed","homog"],
//!  "bounds":["DenseVector length 3 (quick), 0, 1 and 4 (thorough); every element and every scalar argument an arbitrary real (case 16-17: arbitrary IEEE double)","every combination of stored/homogeneous representation of all operands","one mutation from an arbitrary state, with every cached reduction either warm or cold before it, followed by every reduction"],
//!  "assumptions":["real arithmetic (exact) in cases 0-15; log and sqrt are the mathematical functions","reference BLAS"],
//!  "outside":["rounding","vectors longer than 4"]}
#include "hs.h"
static int N;
typedef std::vector<double> V;
static void check_red(const DenseVector& y, const V& v, const char* tag)
{
   double as = 0., am = 0., s = 0., n2 = 0.; double mx = v[0], mn = v[0];
   for( int i = 0; i < N; i++ ) { double a = v[i] < 0. ? -v[i] : v[i]; as += a; if( a > am ) am = a; s += v[i]; n2 += v[i] * v[i]; if( v[i] > mx ) mx = v[i]; if( v[i] < mn ) mn = v[i]; }
   CHECKEQ(y.Asum(), as, "asum"); CHECKEQ(y.Amax(), am, "amax"); CHECKEQ(y.Sum(), s, "sum"); CHECKEQ(y.Max(), mx, "max"); CHECKEQ(y.Min(), mn, "min");
   double r = y.Nrm2(); CHECK(r >= 0., "nrm2 nonnegative"); CHECKEQ(r * r, n2, "nrm2");
}
static void check_vals(const DenseVector& y, const V& v, const char* l) { const Number* p = y.ExpandedValues(); for( int i = 0; i < N; i++ ) CHECKEQ(p[i], v[i], l); }
static SmartPtr<DenseVectorSpace> sp;
static SmartPtr<DenseVector> mk(const char* nm_, V& v, bool h) { SmartPtr<DenseVector> r = symvec(GetRawPtr(sp), nm_, h); dvget(*r, v); return r; }
extern "C" int sym_main()
{
   int c = __sym_case(); N = 3; int op = c;
   if( c == 16 ) { // HasValidNumbers over all doubles
      N = 2; sp = new DenseVectorSpace(N); bool h = symbf("h"); V v; SmartPtr<DenseVector> y = mk("y", v, h);
      double a = v[0] < 0. ? -v[0] : v[0], b = v[1] < 0. ? -v[1] : v[1]; ASSUME(!(a > 1e300 && a < 1. / 0.)); ASSUME(!(b > 1e300 && b < 1. / 0.));
      bool fin = (a - a == 0.) & (b - b == 0.); CHECK(y->HasValidNumbers() == fin, "HasValidNumbers is true exactly for finite vectors"); 
      CHECK(y->HasValidNumbers() == fin, "HasValidNumbers cached"); REACH("valid"); return 0; }
   if( c == 17 ) { // Max/Min/Amax over doubles: element actually present and extremal
      N = 3; sp = new DenseVectorSpace(N); V v; SmartPtr<DenseVector> y = mk("y", v, symbf("h")); for( int i = 0; i < N; i++ ) ASSUME(v[i] - v[i] == 0.);
      double mx = y->Max(), mn = y->Min(), am = y->Amax(); bool a = false, b = false, d = false;
      for( int i = 0; i < N; i++ ) { CHECK(mx >= v[i], "fp max"); CHECK(mn <= v[i], "fp min"); double w = v[i] < 0. ? -v[i] : v[i]; CHECK(am >= w, "fp amax"); a |= mx == v[i]; b |= mn == v[i]; d |= am == w; }
      CHECK(a, "fp max attained"); CHECK(b, "fp min attained"); CHECK(d, "fp amax attained"); return 0; }
   if( c == 18 ) { // reductions asked for, operand changed, then copied or asked again
      N = 2; sp = new DenseVectorSpace(N); V v, w; bool h = symbf("h"); SmartPtr<DenseVector> y = mk("y", v, h), x = mk("x", w, symbf("hx")); int g = symfork("get", 0, 5), m = symfork("change", 0, 3), k = symfork("then", 0, 2); double a = symd("a");
      auto red = [&](DenseVector& d, int q) { return q == 0 ? d.Asum() : q == 1 ? d.Amax() : q == 2 ? d.Max() : q == 3 ? d.Min() : q == 4 ? d.Sum() : d.Nrm2(); };
      auto ref = [&](int q, double got, const char* l) { double r = q == 2 || q == 3 ? v[0] : 0.; for( int i = 0; i < N; i++ ) { double b = v[i] < 0. ? -v[i] : v[i]; if( q == 0 ) r += b; if( q == 1 && b > r ) r = b; if( q == 2 && v[i] > r ) r = v[i]; if( q == 3 && v[i] < r ) r = v[i]; if( q == 4 ) r += v[i]; if( q == 5 ) r += v[i] * v[i]; } if( q == 5 ) { CHECK(got >= 0., l); CHECKEQ(got * got, r, l); } else CHECKEQ(got, r, l); };
      ref(g, red(*y, g), "reduction"); if( m == 0 ) { y->Scal(a); for( auto& e : v ) e = a * e; } if( m == 1 ) { y->AddScalar(a); for( auto& e : v ) e += a; } if( m == 2 ) { y->Axpy(a, *x); for( int i = 0; i < N; i++ ) v[i] += a * w[i]; } if( m == 3 ) { y->Set(a); for( auto& e : v ) e = a; }
      SmartPtr<DenseVector> z = y; if( k == 1 ) z = static_cast<DenseVector*>(y->MakeNewCopy()); if( k == 2 ) { red(*x, g); x->Copy(*y); z = x; } ref(g, red(*z, g), "reduction after a change"); if( k ) { y->AddScalar(1.); ref(g, red(*z, g), "reduction of a copy when the original changes"); } REACH("op"); return 0; }
   if( c >= 20 ) { op = c - 20; N = symfork("N", 1, 4); if( N == 3 ) return 0; if( op >= 11 && N > 2 ) return 0; }
   sp = new DenseVectorSpace(N);
   bool hy = symbf("hy"); V y0, x0, z0; SmartPtr<DenseVector> y = mk("y", y0, hy), x, z; REACH(hy ? "homog" : "mixed"); REACH("op");
   bool warm = op < 11 && symbf("warm");
   if( warm ) check_red(*y, y0, "before");
   V e = y0;
   switch( op ) {
   case 0: { double a = symd("a"); y->Scal(a); for( int i = 0; i < N; i++ ) e[i] = a * y0[i]; break; }
   case 1: { x = mk("x", x0, symbf("hx")); double a = symd("a"); y->Axpy(a, *x); for( int i = 0; i < N; i++ ) e[i] = y0[i] + a * x0[i]; break; }
   case 2: { x = mk("x", x0, symbf("hx")); bool wx = symbf("warmx"); if( wx ) { x->Nrm2(); x->Asum(); x->Amax(); x->Max(); x->Min(); x->Sum(); } if( symbf("set") ) { double a = symd("a"); y->Set(a); for( int i = 0; i < N; i++ ) e[i] = a; } else { y->Copy(*x); e = x0; } break; }
   case 3: { x = mk("x", x0, symbf("hx")); if( symbf("div") ) { for( int i = 0; i < N; i++ ) ASSUME(x0[i] != 0.); y->ElementWiseDivide(*x); for( int i = 0; i < N; i++ ) e[i] = y0[i] / x0[i]; } else { y->ElementWiseMultiply(*x); for( int i = 0; i < N; i++ ) e[i] = y0[i] * x0[i]; }
      check_vals(*y, e, "elementwise multiply/divide"); return 0; }
   case 4: { x = mk("x", x0, symbf("hx")); y->ElementWiseSelect(*x); for( int i = 0; i < N; i++ ) e[i] = y0[i] > 0. ? x0[i] : (y0[i] < 0. ? -x0[i] : 0.); check_vals(*y, e, "elementwise select"); return 0; }
   case 5: { x = mk("x", x0, symbf("hx")); if( symbf("mx") ) { y->ElementWiseMax(*x); for( int i = 0; i < N; i++ ) e[i] = y0[i] > x0[i] ? y0[i] : x0[i]; } else { y->ElementWiseMin(*x); for( int i = 0; i < N; i++ ) e[i] = y0[i] < x0[i] ? y0[i] : x0[i]; } check_vals(*y, e, "elementwise max/min"); CHECKEQ(y->Max(), [&] { double m = e[0]; for( int i = 1; i < N; i++ ) m = e[i] > m ? e[i] : m; return m; }(), "max after"); return 0; }
   case 6: { for( int i = 0; i < N; i++ ) ASSUME(y0[i] != 0.); y->ElementWiseReciprocal(); for( int i = 0; i < N; i++ ) e[i] = 1. / y0[i]; check_vals(*y, e, "reciprocal"); double s = 0.; for( int i = 0; i < N; i++ ) s += e[i]; CHECKEQ(y->Sum(), s, "sum after reciprocal"); return 0; }
   case 7: { int k = symfork("k", 0, 1); if( k == 0 ) { y->ElementWiseAbs(); for( int i = 0; i < N; i++ ) e[i] = y0[i] < 0. ? -y0[i] : y0[i]; } else { y->ElementWiseSgn(); for( int i = 0; i < N; i++ ) e[i] = y0[i] > 0. ? 1. : (y0[i] < 0. ? -1. : 0.); } break; }
   case 8: { for( int i = 0; i < N; i++ ) ASSUME(y0[i] >= 0.); y->ElementWiseSqrt(); const Number* p = y->ExpandedValues(); for( int i = 0; i < N; i++ ) { CHECK(p[i] >= 0., "sqrt sign"); CHECKEQ(p[i] * p[i], y0[i], "sqrt"); } return 0; }
   case 9: { double a = symd("a"); y->AddScalar(a); for( int i = 0; i < N; i++ ) e[i] = y0[i] + a; break; }
   case 10: { // position copies
      int dx = symfork("dx", 0, 2); if( dx > N ) return 0; SmartPtr<DenseVectorSpace> sx = new DenseVectorSpace(dx); SmartPtr<DenseVector> xx = symvec(GetRawPtr(sx), "x", symbf("hx")); dvget(*xx, x0); int pos = symfork("pos", 0, N - dx);
      if( symbf("to") ) { y->CopyToPos(pos, *xx); for( int i = 0; i < dx; i++ ) e[pos + i] = x0[i]; check_vals(*y, e, "copy to position"); if( N > 0 ) { double s = 0.; for( int i = 0; i < N; i++ ) s += e[i]; CHECKEQ(y->Sum(), s, "sum after copy to position"); } }
      else { double s0 = xx->Sum(); (void) s0; xx->CopyFromPos(pos, *y); const Number* p = dx ? xx->ExpandedValues() : NULL; double s = 0.; for( int i = 0; i < dx; i++ ) { CHECKEQ(p[i], y0[pos + i], "copy from position"); s += y0[pos + i]; } CHECKEQ(xx->Sum(), s, "sum after copy from position"); }
      return 0; }
   case 11: { // two-vector sums with every special-cased coefficient
      x = mk("x", x0, symbf("hx")); z = mk("z", z0, symbf("hz")); double a = symd("a"), b = symd("b"), cc = symd("c"); y->Sum();
      y->AddTwoVectors(a, *x, b, *z, cc); for( int i = 0; i < N; i++ ) e[i] = a * x0[i] + b * z0[i] + cc * y0[i]; check_vals(*y, e, "add two vectors"); double s = 0.; for( int i = 0; i < N; i++ ) s += e[i]; CHECKEQ(y->Sum(), s, "sum after add two vectors"); return 0; }
   case 12: { x = mk("x", x0, symbf("hx")); double a = symd("a"), cc = symd("c"); y->Sum(); y->AddOneVector(a, *x, cc); for( int i = 0; i < N; i++ ) e[i] = a * x0[i] + cc * y0[i]; check_vals(*y, e, "add one vector"); double s = 0.; for( int i = 0; i < N; i++ ) s += e[i]; CHECKEQ(y->Sum(), s, "sum after add one vector"); return 0; }
   case 13: { // fraction to the boundary
      x = mk("x", x0, symbf("hx")); double tau = symd("tau"); ASSUME(tau > 0. && tau < 1.); for( int i = 0; i < N; i++ ) ASSUME(y0[i] > 0.);
      double al = y->FracToBound(*x, tau); CHECK(al > 0. && al <= 1., "step fraction in (0,1]"); bool tight = al == 1.;
      for( int i = 0; i < N; i++ ) { CHECK(y0[i] + al * x0[i] >= (1. - tau) * y0[i], "fraction-to-boundary respected"); tight = tight | (y0[i] + al * x0[i] == (1. - tau) * y0[i]); }
      CHECK(tight, "largest such step"); return 0; }
   case 14: { x = mk("x", x0, symbf("hx")); z = mk("z", z0, symbf("hz")); double a = symd("a"), cc = symd("c"); y->Sum(); for( int i = 0; i < N; i++ ) ASSUME(z0[i] != 0.);
      y->AddVectorQuotient(a, *x, *z, cc); for( int i = 0; i < N; i++ ) e[i] = a * x0[i] / z0[i] + cc * y0[i]; check_vals(*y, e, "add vector quotient"); return 0; }
   case 15: { // inner product and logs, with a changed operand in between
      x = mk("x", x0, symbf("hx")); double d = 0.; for( int i = 0; i < N; i++ ) d += x0[i] * y0[i]; CHECKEQ(y->Dot(*x), d, "dot"); CHECKEQ(x->Dot(*y), d, "dot commutes"); double k = symd("k");
      if( symbf("chg") ) y->AddScalar(k); else x->AddScalar(k); double d2 = 0.; V y1, x1; dvget(*y, y1); dvget(*x, x1); for( int i = 0; i < N; i++ ) d2 += x1[i] * y1[i]; CHECKEQ(y->Dot(*x), d2, "dot after change");
      SmartPtr<DenseVector> w = static_cast<DenseVector*>(x->MakeNewCopy()); CHECKEQ(w->Dot(*y), d2, "dot of a copy"); 
      SmartPtr<DenseVector> q = mk("q", z0, symbf("hq")); double ls = 0.; for( int i = 0; i < N; i++ ) ASSUME(z0[i] > 0.); for( int i = 0; i < N; i++ ) ls += std::log(z0[i]); CHECKEQ(q->SumLogs(), ls, "sum of logs");
      double qq = q->Dot(*q), q2 = 0.; for( int i = 0; i < N; i++ ) q2 += z0[i] * z0[i]; CHECKEQ(qq, q2, "dot with itself"); return 0; }
   }
   check_vals(*y, e, "values"); check_red(*y, e, "after"); 
   return 0;
}
