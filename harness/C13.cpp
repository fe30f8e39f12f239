//! {"quick":["0-18","20-23","26-29","40-41"],"thorough":["0-18","20-33","40-41"],"level":"model_checking",
//!  "reach":["triplet","offsets","unsupported","csr","dup","gap","vector"],
//!  "bounds":["all 19 kinds of matrices (dimension up to 3) with free positions and values, arbitrary row and column offsets","compressed rows: every sequence of 3 entries in a 3x3 matrix and of 4 entries (thorough: 5) in a 2x2 matrix (thorough: 4 entries in 3x3), both triangles, repeated entries and empty rows included, four storage formats, all values, converter reused for a second matrix","vectors: dense, one repeated value, two blocks, nested blocks"],
//!  "assumptions":["real arithmetic"],
//!  "outside":["larger dimensions"]}
#include "mats.h"
#include "IpTripletHelper.hpp"
#include "IpTripletToCSRConverter.hpp"
static void triplets(int c)
{
   MM x = build(c); const Matrix& m = *x.m; bool supported = c != 2 && c != 3 && c != 17 && c != 18;
   int n = -1; bool un = false; try { n = TripletHelper::GetNumberEntries(m); } catch( IpoptException& ) { un = true; }
   CHECK(un == !supported, "kinds of matrices that can be handed over"); if( un ) { REACH("unsupported"); return; }
   int ro = symfork("row offset", 0, 2), co = symfork("column offset", 0, 1); bool def = ro == 0 && co == 0 && symbf("default offsets");
   VI ir(n + 2, -77), jc(n + 2, -77); V v(n + 2, -77.);
   if( def ) TripletHelper::FillRowCol(n, m, &ir[0], &jc[0]); else { TripletHelper::FillRowCol(n, m, &ir[0], &jc[0], ro, co); REACH("offsets"); }
   TripletHelper::FillValues(n, m, &v[0]);
   CHECK(ir[n] == -77 && jc[n] == -77 && v[n] == -77., "nothing written behind the entries");
   V D(x.r * x.c, 0.); bool ok = true; for( int k = 0; k < n; k++ ) { int i = ir[k] - 1 - ro, j = jc[k] - 1 - co; if( i < 0 || i >= x.r || j < 0 || j >= x.c ) { ok = false; continue; } D[i * x.c + j] += v[k]; if( x.sym && i != j ) D[j * x.c + i] += v[k]; }
   CHECK(ok, "positions inside the matrix"); for( int k = 0; k < x.r * x.c; k++ ) CHECKEQ(D[k], x.D[k], "the triplets describe the matrix"); REACH("triplet");
}
static void csr(int fmt, int n, int nz)
{
   int off = fmt & 1; bool full = fmt & 2; TripletToCSRConverter cv(off, full ? TripletToCSRConverter::Full_Format : TripletToCSRConverter::Triangular_Format);
   int rounds = nz >= 3 && n == 3 ? 1 : 2; if( rounds == 2 ) { Index i1[2] = {3, 2}, j1[2] = {1, 2}; Number v1[2] = {1., 2.}, o1[4]; int q = cv.InitializeConverter(3, 2, i1, j1); CHECK(q == (full ? 3 : 2), "entries of the first matrix"); cv.ConvertValues(2, v1, q, o1); }
   VI ir(nz), jc(nz); V v(nz), D(n * n, 0.); VI seen(n * n, 0); for( int k = 0; k < nz; k++ ) { int p = symfork("position", 0, n * n - 1); ir[k] = p / n + 1; jc[k] = p % n + 1; v[k] = symdi("v", k); int i = p / n, j = p % n; D[i * n + j] += v[k]; seen[i * n + j]++; if( i != j ) { D[j * n + i] += v[k]; seen[j * n + i]++; } if( seen[i * n + j] > 1 ) REACH("dup"); }
   int distinct = 0; for( int i = 0; i < n; i++ ) { bool any = false; for( int j = 0; j < n; j++ ) { if( seen[i * n + j] && (full || j >= i) ) distinct++; if( seen[i * n + j] && j >= i ) any = true; } if( !any ) REACH("gap"); }
   int nc = cv.InitializeConverter(n, nz, &ir[0], &jc[0]); CHECK(nc == distinct, "one entry for every position of the stored part");
   const Index* ia = cv.IA(), *ja = cv.JA(); CHECK(ia[0] == off && ia[n] == nc + off, "row starts cover all entries"); bool ok = true; for( int i = 0; i < n; i++ ) if( ia[i] > ia[i + 1] || ia[i] < off ) ok = false; CHECK(ok, "row starts increase"); if( !ok ) return;
   for( int rep = 0; rep < 2; rep++ )
   {
      V a(nc + 1, -77.); if( rep ) for( auto& e : v ) e = -2. * e; cv.ConvertValues(nz, &v[0], nc, &a[0]); CHECK(a[nc] == -77., "nothing written behind the values"); double f = rep ? -2. : 1.;
      V E(n * n, 0.); VI cnt(n * n, 0); for( int i = 0; i < n; i++ ) for( int k = ia[i] - off; k < ia[i + 1] - off; k++ ) { int j = ja[k] - off; if( j < 0 || j >= n ) { ok = false; continue; } cnt[i * n + j]++; if( !full && j < i ) ok = false; E[i * n + j] += a[k]; if( !full && i != j ) E[j * n + i] += a[k]; }
      CHECK(ok, "columns in range and in the stored triangle"); for( int k = 0; k < n * n; k++ ) { CHECK(cnt[k] <= 1, "no position stored twice"); CHECKEQ(E[k], f * D[k], "the compressed rows describe the matrix"); }
   }
   REACH("csr");
}
static void vectors(int c)
{
   if( c == 40 )
   {
      int kind = symfork("vector", 0, 3); V e; SmartPtr<Vector> v = mkv(kind == 0 ? VI{3} : kind == 1 ? VI{2, 1} : VI{1, 0, 2}, "x", kind == 3 || symbf("homogeneous")); e = flat(*v); int n = (int) e.size();
      V out(n + 1, -77.); TripletHelper::FillValuesFromVector(n, *v, &out[0]); CHECK(out[n] == -77., "nothing written behind the values"); for( int i = 0; i < n; i++ ) CHECKEQ(out[i], e[i], "values of a vector"); V g = flat(*v); for( int i = 0; i < n; i++ ) CHECKEQ(g[i], e[i], "reading leaves the vector alone"); REACH("vector");
   }
   else
   {
      int kind = symfork("vector", 0, 3); SmartPtr<Vector> v = mkv(kind == 0 ? VI{3} : kind == 1 ? VI{2, 1} : VI{1, 0, 2}, "x", symbf("homogeneous"), kind != 3); TaggedObject::Tag t = v->GetTag(); V in = vn(3, "new"); TripletHelper::PutValuesInVector(3, &in[0], *v); V g = flat(*v); for( int i = 0; i < 3; i++ ) CHECKEQ(g[i], in[i], "values put into a vector"); CHECK(v->HasChanged(t), "the change is noticed");
   }
}
extern "C" int sym_main()
{
   int c = __sym_case();
   if( c < 20 ) triplets(c);
   else if( c < 24 ) csr(c - 20, 3, 3);
   else if( c == 24 || c == 25 ) csr((c - 24) * 3, 3, 2);
   else if( c < 30 ) csr(c - 26, 2, 4);
   else if( c < 34 ) csr(c - 30, 3, 4);
   else vectors(c);
   return 0;
}
