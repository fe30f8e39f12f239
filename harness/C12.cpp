//! {"quick":["0-18","fp:30-35","fp:38-44","fp:46-48"],"thorough":["0-18","fp:30-35","fp:38-44","fp:46-48"],"level":"model_checking",
//!  "reach":["mult","trans","amax","addmsinvz","sinvblrm","valid"],
//!  "bounds":["all 19 kinds of matrices with up to 3 rows and columns, every position of the stored entries (two of three entries free for triplet matrices, repeated positions included), all values, scale factors and expansion positions","products with beta 0, 1, -1 and arbitrary, arbitrary alpha, operands stored plainly or as one repeated value, the result uninitialised when beta is 0","a data change between two products; validity over all IEEE doubles"],
//!  "assumptions":["real arithmetic for products","reference BLAS (C model of the called routines)"],
//!  "outside":["rounding; larger dimensions; printing"]}
#include "mats.h"
static double av(double a) { return a < 0. ? -a : a; }
extern "C" int sym_main()
{
   int c = __sym_case();
   if( c >= 30 )
   { // an entry that is not a number or infinite is noticed, finite entries are accepted
      fpmode = true; MM x = build(c - 30); REACH("valid"); double e = first_entry, a = e < 0. ? -e : e; ASSUME(!(a > 1e300 && a < 1. / 0.)); bool fin = e - e == 0.; CHECK(x.m->HasValidNumbers() == fin, "a matrix is valid exactly if all its entries are finite"); CHECK(x.m->HasValidNumbers() == fin, "validity asked for again"); return 0;
   }
   MM x = build(c); int big = c == 0 || c == 1 || c == 10 || c == 11 || c == 16 || c == 18 || c == 12 || c == 15;
   int op = symfork("op", 0, 4); double al = symd("alpha"); bool hx = symbf("x homogeneous"); int kb = (op < 2 || op == 2) ? symfork("beta", 0, 3) : 0; double be = kb == 0 ? 0. : kb == 1 ? 1. : kb == 2 ? -1. : symd("beta"); bool hy = big ? hx : symbf("y homogeneous");
   CHECK(x.m->NRows() == x.r && x.m->NCols() == x.c, "dimensions");
   if( op <= 1 )
   {
      bool tr = op == 1; SmartPtr<Vector> v = mkv(tr ? x.rs : x.cs, "x", hx), y = mkv(tr ? x.cs : x.rs, "y", hy, kb != 0); V vv = flat(*v), yy(tr ? x.c : x.r, 0.); if( kb ) yy = flat(*y);
      if( tr ) x.m->TransMultVector(al, *v, be, *y); else x.m->MultVector(al, *v, be, *y);
      int in = tr ? x.r : x.c, out = tr ? x.c : x.r; V e(out); for( int o = 0; o < out; o++ ) { double s = 0.; for( int i = 0; i < in; i++ ) s += (tr ? x.D[i * x.c + o] : x.D[o * x.c + i]) * vv[i]; e[o] = al * s + (kb ? be * yy[o] : 0.); }
      same(*y, e, tr ? "transposed product" : "product"); same(*v, vv, "the factor is unchanged"); REACH(tr ? "trans" : "mult");
   }
   if( op == 2 )
   {
      if( kb > 1 ) return 0; bool col = symbf("columns"), init = kb == 0; SmartPtr<Vector> y = mkv(col ? x.cs : x.rs, "y", hy, true); int out = col ? x.c : x.r, in = col ? x.r : x.c; V y0 = flat(*y); for( auto a : y0 ) ASSUME(a >= 0.); bool unimp = false;
      try { if( col ) x.m->ComputeColAMax(*y, init); else x.m->ComputeRowAMax(*y, init); } catch( IpoptException& ) { unimp = true; } CHECK(unimp == !x.amax, "largest entries available for this kind"); if( unimp ) return 0;
      V e(out); if( dup ) return 0; for( int o = 0; o < out; o++ ) { double s = init ? 0. : y0[o]; for( int i = 0; i < in; i++ ) { double a = av(col ? x.D[i * x.c + o] : x.D[o * x.c + i]); s = a > s ? a : s; } e[o] = s; } same(*y, e, "largest absolute entries"); REACH("amax");
   }
   if( op == 3 || op == 4 )
   {
      SmartPtr<Vector> S = mkv(x.cs, "S", hx), Z = mkv(x.cs, "Z", hy); V s = flat(*S), z = flat(*Z); for( auto a : s ) ASSUME(a != 0.);
      if( op == 3 ) { SmartPtr<Vector> X = mkv(x.rs, "X", false); V e = flat(*X); x.m->AddMSinvZ(al, *S, *Z, *X); for( int i = 0; i < x.r; i++ ) for( int j = 0; j < x.c; j++ ) e[i] += al * x.D[i * x.c + j] * z[j] / s[j]; same(*X, e, "product with a quotient"); REACH("addmsinvz"); }
      else { SmartPtr<Vector> R = mkv(x.cs, "R", hy), D = mkv(x.rs, "D", hx), X = mkv(x.cs, "X", hx); V r = flat(*R), d = flat(*D), e(x.c); x.m->SinvBlrmZMTdBr(al, *S, *R, *Z, *D, *X); for( int j = 0; j < x.c; j++ ) { double t = 0.; for( int i = 0; i < x.r; i++ ) t += x.D[i * x.c + j] * d[i]; e[j] = (r[j] + al * z[j] * t) / s[j]; } same(*X, e, "step of a bound multiplier"); REACH("sinvblrm"); }
   }
   return 0;
}
