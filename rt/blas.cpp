// Reference BLAS/LAPACK kernels (column major, Fortran ABI) as bitcode for the symbolic executor.
// The native replay uses the system's reference BLAS/LAPACK instead.
#include <cmath>
typedef int I;
#define A(i, j) a[(i) + (long)(j) * *lda]
extern "C" {
double ddot_(I* n, const double* x, I* ix, const double* y, I* iy) { double s = 0; for( I i = 0; i < *n; i++ ) s += x[(long)i * *ix] * y[(long)i * *iy]; return s; }
double dnrm2_(I* n, const double* x, I* ix) { double s = 0; for( I i = 0; i < *n; i++ ) s += x[(long)i * *ix] * x[(long)i * *ix]; return std::sqrt(s); }
double dasum_(I* n, const double* x, I* ix) { double s = 0; for( I i = 0; i < *n; i++ ) s += std::fabs(x[(long)i * *ix]); return s; }
I idamax_(I* n, const double* x, I* ix) { if( *n < 1 ) return 0; I k = 0; double m = std::fabs(x[0]); for( I i = 1; i < *n; i++ ) { double v = std::fabs(x[(long)i * *ix]); if( v > m ) { m = v; k = i; } } return k + 1; }
void dcopy_(I* n, const double* x, I* ix, double* y, I* iy) { for( I i = 0; i < *n; i++ ) y[(long)i * *iy] = x[(long)i * *ix]; }
void daxpy_(I* n, const double* al, const double* x, I* ix, double* y, I* iy) { if( *al == 0. ) return; for( I i = 0; i < *n; i++ ) y[(long)i * *iy] += *al * x[(long)i * *ix]; }
void dscal_(I* n, const double* al, double* x, I* ix) { for( I i = 0; i < *n; i++ ) x[(long)i * *ix] *= *al; }
void dgemv_(char* t, I* m, I* n, const double* al, const double* a, I* lda, const double* x, I* ix, const double* be, double* y, I* iy, int) {
   bool tr = *t == 'T' || *t == 't' || *t == 'C' || *t == 'c'; I ny = tr ? *n : *m, nx = tr ? *m : *n;
   bool z = *al == 0.; for( I i = 0; i < ny; i++ ) { double s = 0; if( !z ) for( I j = 0; j < nx; j++ ) s += (tr ? A(j, i) : A(i, j)) * x[(long)j * *ix]; double r = *al * s; if( *be != 0. ) r += *be * y[(long)i * *iy]; y[(long)i * *iy] = r; } }
void dsymv_(char* u, I* n, const double* al, const double* a, I* lda, const double* x, I* ix, const double* be, double* y, I* iy, int) {
   bool up = *u == 'U' || *u == 'u';
   for( I i = 0; i < *n; i++ ) { double s = 0; for( I j = 0; j < *n; j++ ) { bool use = up ? i <= j : i >= j; s += (use ? A(i, j) : A(j, i)) * x[(long)j * *ix]; } double r = *al * s; if( *be != 0. ) r += *be * y[(long)i * *iy]; y[(long)i * *iy] = r; } }
void dgemm_(char* ta, char* tb, I* m, I* n, I* k, const double* al, const double* a, I* lda, const double* b, I* ldb, const double* be, double* c, I* ldc, int, int) {
   bool at = *ta == 'T' || *ta == 't', bt = *tb == 'T' || *tb == 't';
   for( I i = 0; i < *m; i++ ) for( I j = 0; j < *n; j++ ) { double s = 0; for( I l = 0; l < *k; l++ ) s += (at ? A(l, i) : A(i, l)) * (bt ? b[j + (long)l * *ldb] : b[l + (long)j * *ldb]); double r = *al * s; if( *be != 0. ) r += *be * c[i + (long)j * *ldc]; c[i + (long)j * *ldc] = r; } }
void dsyrk_(char* u, char* t, I* n, I* k, const double* al, const double* a, I* lda, const double* be, double* c, I* ldc, int, int) {
   bool up = *u == 'U' || *u == 'u', tr = *t == 'T' || *t == 't';
   for( I i = 0; i < *n; i++ ) for( I j = 0; j < *n; j++ ) { if( up ? i > j : i < j ) continue; double s = 0; for( I l = 0; l < *k; l++ ) s += (tr ? A(l, i) * A(l, j) : A(i, l) * A(j, l)); double r = *al * s; if( *be != 0. ) r += *be * c[i + (long)j * *ldc]; c[i + (long)j * *ldc] = r; } }
void dtrsm_(char* sd, char* u, char* t, char* dg, I* m, I* n, const double* al, const double* a, I* lda, double* b, I* ldb, int, int, int, int) {
   bool left = *sd == 'L' || *sd == 'l', up = *u == 'U' || *u == 'u', tr = *t == 'T' || *t == 't', unit = *dg == 'U' || *dg == 'u';
   for( I i = 0; i < *m; i++ ) for( I j = 0; j < *n; j++ ) b[i + (long)j * *ldb] *= *al;
   I q = left ? *m : *n, r = left ? *n : *m;
   // solve op(A) X = B (left) or X op(A) = B (right), one right-hand side at a time
   for( I c = 0; c < r; c++ ) {
      bool eu = left ? (up != tr) : (up == tr);  // effective upper for the forward system  M x = b, M = op(A) or op(A)^T
      for( I ii = 0; ii < q; ii++ ) { I i = eu ? q - 1 - ii : ii; double s = left ? b[i + (long)c * *ldb] : b[c + (long)i * *ldb];
         for( I jj = 0; jj < ii; jj++ ) { I j = eu ? q - 1 - jj : jj; bool at = left ? tr : !tr; double mij = at ? A(j, i) : A(i, j); s -= mij * (left ? b[j + (long)c * *ldb] : b[c + (long)j * *ldb]); }
         if( !unit ) s /= A(i, i); if( left ) b[i + (long)c * *ldb] = s; else b[c + (long)i * *ldb] = s; } } }
void dpotrf_(char* u, I* n, double* a, I* lda, I* info, int) { *info = 0; bool up = *u == 'U' || *u == 'u';
   for( I j = 0; j < *n; j++ ) { double s = A(j, j); for( I k = 0; k < j; k++ ) { double v = up ? A(k, j) : A(j, k); s -= v * v; } if( !(s > 0) ) { *info = j + 1; return; } s = std::sqrt(s); A(j, j) = s;
      for( I i = j + 1; i < *n; i++ ) { double t = up ? A(j, i) : A(i, j); for( I k = 0; k < j; k++ ) t -= up ? A(k, j) * A(k, i) : A(j, k) * A(i, k); t /= s; if( up ) A(j, i) = t; else A(i, j) = t; } } }
void dpotrs_(char* u, I* n, I* nrhs, const double* a, I* lda, double* b, I* ldb, I* info, int) { *info = 0; double one = 1; char L = 'L', N = 'N', T = 'T';
   bool up = *u == 'U' || *u == 'u'; dtrsm_(&L, u, up ? &T : &N, &N, n, nrhs, &one, a, lda, b, ldb, 1, 1, 1, 1); dtrsm_(&L, u, up ? &N : &T, &N, n, nrhs, &one, a, lda, b, ldb, 1, 1, 1, 1); }
void dgetrf_(I* m, I* n, double* a, I* lda, I* ip, I* info) { *info = 0; I q = *m < *n ? *m : *n;
   for( I k = 0; k < q; k++ ) { I p = k; double mx = std::fabs(A(k, k)); for( I i = k + 1; i < *m; i++ ) if( std::fabs(A(i, k)) > mx ) { mx = std::fabs(A(i, k)); p = i; } ip[k] = p + 1;
      if( A(p, k) == 0. ) { if( !*info ) *info = k + 1; continue; }
      if( p != k ) for( I j = 0; j < *n; j++ ) { double t = A(k, j); A(k, j) = A(p, j); A(p, j) = t; }
      for( I i = k + 1; i < *m; i++ ) { A(i, k) /= A(k, k); for( I j = k + 1; j < *n; j++ ) A(i, j) -= A(i, k) * A(k, j); } } }
void dgetrs_(char* t, I* n, I* nrhs, const double* a, I* lda, const I* ip, double* b, I* ldb, I* info, int) { *info = 0; double one = 1; char L = 'L', U = 'U', N = 'N', T = 'T';
   if( *t == 'N' || *t == 'n' ) { for( I c = 0; c < *nrhs; c++ ) for( I k = 0; k < *n; k++ ) { I p = ip[k] - 1; if( p != k ) { double x = b[k + (long)c * *ldb]; b[k + (long)c * *ldb] = b[p + (long)c * *ldb]; b[p + (long)c * *ldb] = x; } }
      dtrsm_(&L, &L, &N, &U, n, nrhs, &one, a, lda, b, ldb, 1, 1, 1, 1); dtrsm_(&L, &U, &N, &N, n, nrhs, &one, a, lda, b, ldb, 1, 1, 1, 1); }
   else { dtrsm_(&L, &U, &T, &N, n, nrhs, &one, a, lda, b, ldb, 1, 1, 1, 1); dtrsm_(&L, &L, &T, &U, n, nrhs, &one, a, lda, b, ldb, 1, 1, 1, 1);
      for( I c = 0; c < *nrhs; c++ ) for( I k = *n - 1; k >= 0; k-- ) { I p = ip[k] - 1; if( p != k ) { double x = b[k + (long)c * *ldb]; b[k + (long)c * *ldb] = b[p + (long)c * *ldb]; b[p + (long)c * *ldb] = x; } } } }
void dppsv_(char* u, I* n, I* nrhs, double* ap, double* b, I* ldb, I* info, int) { // packed Cholesky, 'L': column by column lower
   double f[400]; I ld = *n; bool up = *u == 'U' || *u == 'u'; I k = 0;
   for( I j = 0; j < *n; j++ ) { if( up ) for( I i = 0; i <= j; i++ ) f[i + j * ld] = ap[k++]; else for( I i = j; i < *n; i++ ) f[i + j * ld] = ap[k++]; }
   dpotrf_(u, n, f, &ld, info, 1); if( *info == 0 ) dpotrs_(u, n, nrhs, f, &ld, b, ldb, info, 1);
   k = 0; for( I j = 0; j < *n; j++ ) { if( up ) for( I i = 0; i <= j; i++ ) ap[k++] = f[i + j * ld]; else for( I i = j; i < *n; i++ ) ap[k++] = f[i + j * ld]; } }
// cyclic Jacobi eigenvalue method; ascending eigenvalues (intended for concrete matrices)
void dsyev_(char* jz, char* u, I* n, double* a, I* lda, double* w, double* work, I* lwork, I* info, int, int) {
   *info = 0; if( *lwork == -1 ) { work[0] = 3. * *n + 64; return; }
   I N = *n; bool up = *u == 'U' || *u == 'u'; double m[20][20], v[20][20];
   for( I i = 0; i < N; i++ ) for( I j = 0; j < N; j++ ) { m[i][j] = up ? (i <= j ? A(i, j) : A(j, i)) : (i >= j ? A(i, j) : A(j, i)); v[i][j] = i == j; }
   for( int sw = 0; sw < 60; sw++ ) { double off = 0; for( I i = 0; i < N; i++ ) for( I j = i + 1; j < N; j++ ) off += std::fabs(m[i][j]); if( off == 0. ) break;
      for( I p = 0; p < N; p++ ) for( I q = p + 1; q < N; q++ ) { if( m[p][q] == 0. ) continue; double th = (m[q][q] - m[p][p]) / (2 * m[p][q]); double t = (th >= 0 ? 1. : -1.) / (std::fabs(th) + std::sqrt(th * th + 1)); double c = 1 / std::sqrt(t * t + 1), s = t * c;
         for( I k = 0; k < N; k++ ) { double x = m[k][p], y = m[k][q]; m[k][p] = c * x - s * y; m[k][q] = s * x + c * y; }
         for( I k = 0; k < N; k++ ) { double x = m[p][k], y = m[q][k]; m[p][k] = c * x - s * y; m[q][k] = s * x + c * y; }
         m[p][q] = m[q][p] = 0;
         for( I k = 0; k < N; k++ ) { double x = v[k][p], y = v[k][q]; v[k][p] = c * x - s * y; v[k][q] = s * x + c * y; } } }
   for( I i = 0; i < N; i++ ) w[i] = m[i][i];
   for( I i = 0; i < N; i++ ) { I b = i; for( I j = i + 1; j < N; j++ ) if( w[j] < w[b] ) b = j; if( b != i ) { double t = w[i]; w[i] = w[b]; w[b] = t; for( I k = 0; k < N; k++ ) { t = v[k][i]; v[k][i] = v[k][b]; v[k][b] = t; } } }
   if( *jz == 'V' || *jz == 'v' ) for( I i = 0; i < N; i++ ) for( I j = 0; j < N; j++ ) A(i, j) = v[i][j]; }
}
