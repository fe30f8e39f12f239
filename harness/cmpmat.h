#pragma once
// matrix-free comparison of an Ipopt matrix with a dense reference (row major) through products with an arbitrary vector
static void cmpmat(const Matrix& M, const std::vector<double>& D, int r, int c, const char* l, const char* lt)
{
   CHECK(M.NRows() == r, "matrix rows"); CHECK(M.NCols() == c, "matrix cols"); if( M.NRows() != r || M.NCols() != c ) return;
   SmartPtr<DenseVectorSpace> vr = new DenseVectorSpace(r), vc = new DenseVectorSpace(c);
   for( int pass = 0; pass < 2; pass++ ) {
      int in = pass ? r : c, out = pass ? c : r; SmartPtr<DenseVector> v = (pass ? vr : vc)->MakeNewDenseVector(), w = (pass ? vc : vr)->MakeNewDenseVector(); std::vector<double> vv(in + 1); for( int i = 0; i < in; i++ ) vv[i] = symdi("v", i); v->SetValues(&vv[0]);
      if( pass ) M.TransMultVector(1., *v, 0., *w); else M.MultVector(1., *v, 0., *w);
      std::vector<double> got; dvget(*w, got); for( int o = 0; o < out; o++ ) { double s = 0.; for( int i = 0; i < in; i++ ) s += (pass ? D[i * c + o] : D[o * c + i]) * vv[i]; CHECKEQ(got[o], s, pass ? lt : l); }
   }
}
