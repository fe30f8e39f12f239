// Stand-in for MUMPS (dmumps_c): dense symmetric indefinite LDL^T with complete (Bunch-Parlett) pivoting,
// used by the symbolic executor (MUMPS is Fortran, no IR) and by the native replay alike.
#include <cmath>
#include <cstdlib>
#include <cstring>
#include "dmumps_c.h"
struct Fac { int n; int neg; int zero; double* a; int* perm; int* piv; double* d2; int nullrow; };
static double& E(Fac* f, int i, int j) { return f->a[i * f->n + j]; }
static void freeFac(Fac* f) { if( f ) { free(f->a); free(f->perm); free(f->piv); free(f); } }
extern "C" void __attribute__((weak)) dmumps_c(DMUMPS_STRUC_C* m) {
   if( m->job == -1 ) { m->n = 0; m->instance_number = 1; m->wk_user = 0; m->pivnul_list = 0; for( int i = 0; i < 60; i++ ) m->icntl[i] = 0; m->info[0] = m->infog[0] = 0; return; }
   if( m->job == -2 ) { freeFac((Fac*)m->wk_user); m->wk_user = 0; free(m->pivnul_list); m->pivnul_list = 0; return; }
   for( int i = 0; i < 40; i++ ) { m->info[i] = 0; m->infog[i] = 0; }
   if( m->job == 1 ) { // MUMPS: structurally singular -> -6
      return; }
   if( m->job == 2 || m->job == 4 ) {
      freeFac((Fac*)m->wk_user);
      int n = m->n; Fac* f = (Fac*)malloc(sizeof(Fac)); f->n = n; f->neg = f->zero = 0; f->a = (double*)calloc(n * n + 1, sizeof(double)); f->perm = (int*)malloc((n + 1) * sizeof(int)); f->piv = (int*)malloc((n + 1) * sizeof(int)); f->nullrow = -1;
      m->wk_user = (double*)f; free(m->pivnul_list); m->pivnul_list = (MUMPS_INT*)malloc((n + 1) * sizeof(MUMPS_INT));
      double mx = 0;
      for( int k = 0; k < m->nz; k++ ) { int i = m->irn[k] - 1, j = m->jcn[k] - 1; E(f, i, j) += m->a[k]; if( i != j ) E(f, j, i) += m->a[k]; }
      for( int i = 0; i < n * n; i++ ) { double v = std::fabs(f->a[i]); if( v > mx ) mx = v; if( v != v ) { mx = v; break; } }
      if( mx != mx ) { m->info[0] = m->infog[0] = -10; return; }
      for( int i = 0; i < n; i++ ) f->perm[i] = i;
      double eps = mx * 1e-14; const double al = 0.6403882032022076;
      int k = 0;
      while( k < n ) {
         double d = -1, o = -1; int di = k, oi = k, oj = k;
         for( int i = k; i < n; i++ ) { double v = std::fabs(E(f, i, i)); if( v > d ) { d = v; di = i; } for( int j = k; j < i; j++ ) { v = std::fabs(E(f, i, j)); if( v > o ) { o = v; oi = i; oj = j; } } }
         if( d <= eps && o <= eps ) { f->zero = n - k; f->nullrow = f->perm[k]; if( m->icntl[23] ) { int c = 0; for( int i = k; i < n; i++ ) if( m->pivnul_list ) m->pivnul_list[c++] = f->perm[i] + 1; m->infog[27] = n - k; m->infog[11] = f->neg; return; } m->info[0] = m->infog[0] = -10; return; }
         auto swp = [&](int p, int q) { if( p == q ) return; for( int j = 0; j < n; j++ ) { double t = E(f, p, j); E(f, p, j) = E(f, q, j); E(f, q, j) = t; } for( int j = 0; j < n; j++ ) { double t = E(f, j, p); E(f, j, p) = E(f, j, q); E(f, j, q) = t; } int t = f->perm[p]; f->perm[p] = f->perm[q]; f->perm[q] = t; };
         if( d >= al * o ) {
            swp(k, di); double p = E(f, k, k); if( p < 0 ) f->neg++;
            for( int i = k + 1; i < n; i++ ) { double l = E(f, i, k) / p; for( int j = k + 1; j < n; j++ ) E(f, i, j) -= l * E(f, k, j); E(f, i, k) = l; }
            for( int j = k + 1; j < n; j++ ) E(f, k, j) = 0;
            f->piv[k] = 1; k++; }
         else {
            // oj < oi
            swp(k, oj); swp(k + 1, oi == k ? oj : oi);
            double a = E(f, k, k), b = E(f, k + 1, k), c = E(f, k + 1, k + 1), det = a * c - b * b; f->neg++;
            for( int i = k + 2; i < n; i++ ) { double x = E(f, i, k), y = E(f, i, k + 1); double l1 = (x * c - y * b) / det, l2 = (y * a - x * b) / det;
               for( int j = k + 2; j < n; j++ ) E(f, i, j) -= l1 * E(f, k, j) + l2 * E(f, k + 1, j);
               E(f, i, k) = l1; E(f, i, k + 1) = l2; }
            for( int j = k + 2; j < n; j++ ) E(f, k, j) = E(f, k + 1, j) = 0;
            E(f, k, k + 1) = b;
            f->piv[k] = 2; f->piv[k + 1] = 0; k += 2; }
      }
      m->infog[11] = f->neg; return; }
   if( m->job == 3 ) {
      Fac* f = (Fac*)m->wk_user; int n = f->n; double* y = (double*)malloc((n + 1) * sizeof(double));
      for( int i = 0; i < n; i++ ) y[i] = m->rhs[f->perm[i]];
      for( int k = 0; k < n; ) { int w = f->piv[k]; for( int i = k + w; i < n; i++ ) { y[i] -= E(f, i, k) * y[k]; if( w == 2 ) y[i] -= E(f, i, k + 1) * y[k + 1]; } k += w; }
      for( int k = 0; k < n; ) { if( f->piv[k] == 1 ) { y[k] /= E(f, k, k); k++; } else { double a = E(f, k, k), b = E(f, k, k + 1), c = E(f, k + 1, k + 1), det = a * c - b * b; double p = (c * y[k] - b * y[k + 1]) / det, q = (a * y[k + 1] - b * y[k]) / det; y[k] = p; y[k + 1] = q; k += 2; } }
      for( int k = n - 1; k >= 0; ) { int w = f->piv[k] == 1 ? 1 : 2; int b = w == 2 ? k - 1 : k; for( int i = k + 1; i < n; i++ ) { y[b] -= E(f, i, b) * y[i]; if( w == 2 ) y[k] -= E(f, i, k) * y[i]; } k -= w; }
      for( int i = 0; i < n; i++ ) m->rhs[f->perm[i]] = y[i];
      free(y); return; }
}
