From a357d70ad716271daa87627007bf2a302a3d5ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 01/34] fix: DenseVector::AddTwoVectors added v2 Dim() times
 for a = 0, b = 1, c = 1

---
 src/LinAlg/IpDenseVector.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index 5b90313..02fc9f0 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -1028,10 +1028,7 @@ void DenseVector::AddTwoVectorsImpl(
          }
          else if( b == 1. )
          {
-            for( Index i = 0; i < Dim(); i++ )
-            {
-               IpBlasAxpy(Dim(), 1., values_v2, 1, values_, 1);
-            }
+            IpBlasAxpy(Dim(), 1., values_v2, 1, values_, 1);
          }
          else if( b == -1. )
          {
-- 
2.43.0


From f9779994f00e56a06695390e4c3d5076f78d6b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 02/34] fix: DenseVector::CopyToPos used its own scalar for a
 homogeneous argument and lost its homogeneous value

---
 src/LinAlg/IpDenseVector.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index 02fc9f0..c1d0cb6 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -1544,12 +1544,17 @@ void DenseVector::CopyToPos(
    const DenseVector* dense_x = static_cast<const DenseVector*>(&x);
    DBG_ASSERT(dynamic_cast<const DenseVector*>(&x));
 
+   if( initialized_ && homogeneous_ )
+   {
+      // keep the value of the elements that are not overwritten
+      set_values_from_scalar();
+   }
    Number* vals = values_allocated();
    homogeneous_ = false;
 
    if( dense_x->homogeneous_ )
    {
-      IpBlasCopy(dim_x, &scalar_, 0, vals + Pos, 1);
+      IpBlasCopy(dim_x, &dense_x->scalar_, 0, vals + Pos, 1);
    }
    else
    {
-- 
2.43.0


From 3757b99975a06fb9b22e7d6786eda524b41c2288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 03/34] fix: DenseVector::ElementWiseSelect used the value
 instead of the sign for homogeneous operands

---
 src/LinAlg/IpDenseVector.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index c1d0cb6..db2948c 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -405,9 +405,10 @@ void DenseVector::ElementWiseSelectImpl(
       {
          return;
       }
+      const Number sgn = scalar_ > 0.0 ? 1.0 : -1.0;
       if( dense_x->homogeneous_ )
       {
-         scalar_ *= dense_x->scalar_;
+         scalar_ = sgn * dense_x->scalar_;
       }
       else
       {
@@ -415,7 +416,7 @@ void DenseVector::ElementWiseSelectImpl(
          Number* vals = values_allocated();
          for( Index i = 0; i < Dim(); i++ )
          {
-            vals[i] = scalar_ * values_x[i];
+            vals[i] = sgn * values_x[i];
          }
       }
    }
@@ -423,20 +424,17 @@ void DenseVector::ElementWiseSelectImpl(
    {
       if( dense_x->homogeneous_ )
       {
-         if( dense_x->scalar_ != 1.0 )
+         for( Index i = 0; i < Dim(); i++ )
          {
-            for( Index i = 0; i < Dim(); i++ )
+            if( values_[i] > 0.0 )
             {
-               if( values_[i] > 0.0 )
-               {
-                  values_[i] = dense_x->scalar_;
-               }
-               else if( values_[i] < 0.0 )
-               {
-                  values_[i] = -dense_x->scalar_;
-               }
-               // else values_[i] remains at 0.0
+               values_[i] = dense_x->scalar_;
             }
+            else if( values_[i] < 0.0 )
+            {
+               values_[i] = -dense_x->scalar_;
+            }
+            // else values_[i] remains at 0.0
          }
       }
       else
-- 
2.43.0


From facd1b73ab5444cc743e28a4ab7b42661701c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 04/34] fix: initialize Vector::valid_cache_tag_

---
 src/LinAlg/IpVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/IpVector.hpp b/src/LinAlg/IpVector.hpp
index 67aab42..0c74120 100644
--- a/src/LinAlg/IpVector.hpp
+++ b/src/LinAlg/IpVector.hpp
@@ -542,6 +542,7 @@ inline Vector::Vector(
      min_cache_tag_(0),
      sum_cache_tag_(0),
      sumlogs_cache_tag_(0),
+     valid_cache_tag_(0),
      cached_valid_(0)
 {
    DBG_ASSERT(IsValid(owner_space_));
-- 
2.43.0


From c068e419b326247fd6511433a5612d9904f48bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 05/34] fix: compute bound multipliers of fixed variables also
 when a time limit was hit

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index a782341..19e13c2 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2180,6 +2180,8 @@ void TNLPAdapter::FinalizeSolution(
    {
       case SUCCESS:
       case MAXITER_EXCEEDED:
+      case CPUTIME_EXCEEDED:
+      case WALLTIME_EXCEEDED:
       case STOP_AT_TINY_STEP:
       case STOP_AT_ACCEPTABLE_POINT:
       case LOCAL_INFEASIBILITY:
-- 
2.43.0


From 5e85c95e2ba54b36be8bc62131405cb29a0e046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 06/34] fix: starting bound multipliers were scaled with the
 inverse of the x-scaling

---
 src/Algorithm/IpOrigIpoptNLP.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index 0d73b65..90d56c5 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -434,7 +434,11 @@ bool OrigIpoptNLP::InitializeStructures(
       z_L->Print(*jnlst_, J_VECTOR, J_INITIALIZATION, "initial z_L unscaled");
       if( NLP_scaling()->have_x_scaling() )
       {
-         z_L = NLP_scaling()->apply_vector_scaling_x_LU_NonConst(*Px_L_, ConstPtr(z_L), *x_space_);
+         // z for the scaled variables is z divided by the scaling factor (inverse of what is done in FinalizeSolution)
+         SmartPtr<Vector> tmp_x = x_space_->MakeNew();
+         Px_L_->MultVector(1., *z_L, 0., *tmp_x);
+         tmp_x = NLP_scaling()->unapply_vector_scaling_x_NonConst(ConstPtr(tmp_x));
+         Px_L_->TransMultVector(1., *tmp_x, 0., *z_L);
       }
       if( obj_scal != 1. )
       {
@@ -446,7 +450,11 @@ bool OrigIpoptNLP::InitializeStructures(
       z_U->Print(*jnlst_, J_VECTOR, J_INITIALIZATION, "initial z_U unscaled");
       if( NLP_scaling()->have_x_scaling() )
       {
-         z_U = NLP_scaling()->apply_vector_scaling_x_LU_NonConst(*Px_U_, ConstPtr(z_U), *x_space_);
+         // z for the scaled variables is z divided by the scaling factor (inverse of what is done in FinalizeSolution)
+         SmartPtr<Vector> tmp_x = x_space_->MakeNew();
+         Px_U_->MultVector(1., *z_U, 0., *tmp_x);
+         tmp_x = NLP_scaling()->unapply_vector_scaling_x_NonConst(ConstPtr(tmp_x));
+         Px_U_->TransMultVector(1., *tmp_x, 0., *z_U);
       }
       if( obj_scal != 1. )
       {
-- 
2.43.0


From f6574c308819bb6534d57494c5073d553f6b6a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 07/34] fix: a failed eval_g was remembered as successful for
 further requests at the same point

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 19e13c2..84037d1 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2847,7 +2847,7 @@ bool TNLPAdapter::internal_eval_g(
 
    if( !retval )
    {
-      x_tag_for_jac_g_ = 0;
+      x_tag_for_g_ = 0;
    }
 
    return retval;
-- 
2.43.0


From 2d9e2f829e5ff64dea1bf363fb47f613fa2e1981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 08/34] fix: filter was augmented with uninitialized or
 outdated values if the restoration phase starts without a line search

---
 src/Algorithm/IpFilterLSAcceptor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Algorithm/IpFilterLSAcceptor.cpp b/src/Algorithm/IpFilterLSAcceptor.cpp
index bd381a2..b53045c 100644
--- a/src/Algorithm/IpFilterLSAcceptor.cpp
+++ b/src/Algorithm/IpFilterLSAcceptor.cpp
@@ -893,6 +893,12 @@ char FilterLSAcceptor::UpdateForNextIteration(Number alpha_primal_test)
 
 void FilterLSAcceptor::PrepareRestoPhaseStart()
 {
+   // If the restoration phase is called without a preceding line search for the
+   // current iterate (e.g., because the search direction could not be computed),
+   // then the reference values have not been set for the current iterate
+   reference_theta_ = IpCq().curr_constraint_violation();
+   reference_barr_ = IpCq().curr_barrier_obj();
+
    AugmentFilter();
 }
 
-- 
2.43.0


From c5bf932eb123cf724f3d86f5808c11966fae2756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:20 +0000
Subject: [PATCH 09/34] fix: iterations of a failing restoration phase were not
 counted

---
 src/Algorithm/IpRestoMinC_1Nrm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Algorithm/IpRestoMinC_1Nrm.cpp b/src/Algorithm/IpRestoMinC_1Nrm.cpp
index 87c96da..83d040d 100644
--- a/src/Algorithm/IpRestoMinC_1Nrm.cpp
+++ b/src/Algorithm/IpRestoMinC_1Nrm.cpp
@@ -244,6 +244,9 @@ bool MinC_1NrmRestorationPhase::PerformRestoration()
          IpData().set_trial(trial);
          IpData().AcceptTrialPoint();
       }
+
+      // The iterations of the restoration phase have been performed also if it failed
+      IpData().Set_iter_count(resto_ip_data->iter_count());
    }
 
    if( resto_status == SUCCESS )
-- 
2.43.0


From 7129d2f9c6cbae11aebdaecb1d5f1f8e97e56dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 10/34] fix: store numeric option values with enough digits to
 return exactly the value that was set

---
 src/Common/IpOptionsList.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 7aafa04..1f2dfca 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -115,8 +115,16 @@ bool OptionsList::SetNumericValue(
    bool               dont_print     /* = false */
 )
 {
+   // use as few digits as necessary, but as many as needed to get exactly the given value back in GetNumericValue()
    char buffer[256];
-   Snprintf(buffer, 255, "%g", value);
+   for( int prec = 6; prec <= 17; ++prec )
+   {
+      Snprintf(buffer, 255, "%.*g", prec, value);
+      if( strtod(buffer, NULL) == value )
+      {
+         break;
+      }
+   }
 
    if( IsValid(reg_options_) )
    {
-- 
2.43.0


From c17b259fdf834b6a87be89c7b131422a700ce100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:48 +0000
Subject: [PATCH 11/34] fix: options file: accept empty quoted values, refuse
 number options without a number

---
 src/Common/IpOptionsList.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 1f2dfca..fab9458 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -765,7 +765,7 @@ bool OptionsList::ReadFromStream(
             }
             char* p_end;
             Number retval = strtod(buffer, &p_end);
-            if( *p_end != '\0' && !isspace(*p_end) )
+            if( p_end == buffer || (*p_end != '\0' && !isspace(*p_end)) )
             {
                delete[] buffer;
                std::string msg = "Option \"" + tag + "\": Double value expected, but non-numeric option value \""
@@ -781,7 +781,7 @@ bool OptionsList::ReadFromStream(
          {
             char* p_end;
             size_t retval = strtol(value.c_str(), &p_end, 10);
-            if( *p_end != '\0' && !isspace(*p_end) )
+            if( p_end == value.c_str() || (*p_end != '\0' && !isspace(*p_end)) )
             {
                std::string msg = "Option \"" + tag + "\": Integer value expected, but non-integer option value \""
                                  + value + "\" found.\n";
@@ -886,6 +886,16 @@ bool OptionsList::readnexttoken(
          return false;   // eof after quotation symbol
       }
       c = is.get();
+      if( c == '"' && !is.eof() )
+      {
+         // empty string in quotes, possibly followed by further characters
+         inside_quotes = false;
+         c = is.get();
+         if( is.eof() )
+         {
+            return true;
+         }
+      }
    }
 
    if( is.eof() )
-- 
2.43.0


From 4647304fa292e96ddd13ebcb93ed370b5926e242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:48 +0000
Subject: [PATCH 12/34] fix: options file: refuse integer values that do not
 fit instead of wrapping them around

---
 src/Common/IpOptionsList.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index fab9458..34f1a2f 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -11,6 +11,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 
 namespace Ipopt
 {
@@ -780,7 +781,7 @@ bool OptionsList::ReadFromStream(
          else if( option->Type() == OT_Integer )
          {
             char* p_end;
-            size_t retval = strtol(value.c_str(), &p_end, 10);
+            long retval = strtol(value.c_str(), &p_end, 10);
             if( p_end == value.c_str() || (*p_end != '\0' && !isspace(*p_end)) )
             {
                std::string msg = "Option \"" + tag + "\": Integer value expected, but non-integer option value \""
@@ -791,6 +792,12 @@ bool OptionsList::ReadFromStream(
                }
                THROW_EXCEPTION(OPTION_INVALID, msg);
             }
+            // strtol() saturates, so this also catches values that do not fit into a long
+            if( retval < std::numeric_limits<Index>::min() || retval > std::numeric_limits<Index>::max() )
+            {
+               std::string msg = "Option \"" + tag + "\": Integer value \"" + value + "\" is too large.\n";
+               THROW_EXCEPTION(OPTION_INVALID, msg);
+            }
             bool result = SetIntegerValue(tag, static_cast<Index>(retval), allow_clobber);
             ASSERT_EXCEPTION(result, OPTION_INVALID,
                              "Error setting integer value read from option file.");
-- 
2.43.0


From b71cbb0509a4e9dcae36f852b66dd9cde6247aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:48 +0000
Subject: [PATCH 13/34] fix: do not accept NaN as value of a numeric option

---
 src/Common/IpRegOptions.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Common/IpRegOptions.hpp b/src/Common/IpRegOptions.hpp
index 38ad026..7136ec8 100644
--- a/src/Common/IpRegOptions.hpp
+++ b/src/Common/IpRegOptions.hpp
@@ -557,6 +557,11 @@ public:
    ) const
    {
       DBG_ASSERT(type_ == OT_Number);
+      if( value != value )
+      {
+         // NaN does not compare with any bound and is never a valid setting
+         return false;
+      }
       if( has_lower_ && ((lower_strict_ == true && value <= lower_) || (lower_strict_ == false && value < lower_)) )
       {
          return false;
-- 
2.43.0


From 8f69c1c8a43bf20f4574c4817985699472ea462d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:13 +0000
Subject: [PATCH 14/34] fix: pass the dimensions of a non-square matrix to GEMV
 in the right order

---
 src/LinAlg/IpBlas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpBlas.cpp b/src/LinAlg/IpBlas.cpp
index 735e5e2..82d0c2b 100644
--- a/src/LinAlg/IpBlas.cpp
+++ b/src/LinAlg/IpBlas.cpp
@@ -322,7 +322,7 @@ void IpBlasGemv(
    Index         incY
 )
 {
-   ipindex M = nCols, N = nRows, LDA = ldA, INCX = incX, INCY = incY;
+   ipindex M = nRows, N = nCols, LDA = ldA, INCX = incX, INCY = incY;
 
    char TRANS;
    if( trans )
-- 
2.43.0


From 6599a9e3fd163f991b1d12d75e847b6146d6a7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:13 +0000
Subject: [PATCH 15/34] fix: largest entries per row and column of dense
 matrices: index the storage as it is laid out

---
 src/LinAlg/IpDenseGenMatrix.cpp | 13 +++++++++----
 src/LinAlg/IpDenseSymMatrix.cpp |  9 ++++-----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/LinAlg/IpDenseGenMatrix.cpp b/src/LinAlg/IpDenseGenMatrix.cpp
index 481f65b..febfcc7 100644
--- a/src/LinAlg/IpDenseGenMatrix.cpp
+++ b/src/LinAlg/IpDenseGenMatrix.cpp
@@ -383,10 +383,11 @@ void DenseGenMatrix::ComputeRowAMaxImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&rows_norms));
    Number* vec_vals = dense_vec->Values();
 
+   // values_ is stored column by column
    const Number* vals = values_;
-   for( Index irow = 0; irow < NRows(); irow++ )
+   for( Index jcol = 0; jcol < NCols(); jcol++ )
    {
-      for( Index jcol = 0; jcol < NCols(); jcol++ )
+      for( Index irow = 0; irow < NRows(); irow++ )
       {
          vec_vals[irow] = Max(vec_vals[irow], std::abs(*vals));
          vals++;
@@ -409,8 +410,12 @@ void DenseGenMatrix::ComputeColAMaxImpl(
    const Number* vals = values_;
    for( Index jcol = 0; jcol < NCols(); jcol++ )
    {
-      Index i = IpBlasIamax(NRows(), vals, 1);
-      vec_vals[jcol] = Max(vec_vals[jcol], std::abs(vals[i]));
+      if( NRows() > 0 )
+      {
+         // IpBlasIamax counts from 1
+         Index i = IpBlasIamax(NRows(), vals, 1) - 1;
+         vec_vals[jcol] = Max(vec_vals[jcol], std::abs(vals[i]));
+      }
       vals += NRows();
    }
 }
diff --git a/src/LinAlg/IpDenseSymMatrix.cpp b/src/LinAlg/IpDenseSymMatrix.cpp
index 0761d78..1f1da40 100644
--- a/src/LinAlg/IpDenseSymMatrix.cpp
+++ b/src/LinAlg/IpDenseSymMatrix.cpp
@@ -241,15 +241,14 @@ void DenseSymMatrix::ComputeRowAMaxImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&rows_norms));
    Number* vec_vals = dense_vec->Values();
 
-   const Number* vals = values_;
-   for( Index irow = 0; irow < NRows(); irow++ )
+   // values_ stores the lower triangle in a full array, column by column
+   for( Index jcol = 0; jcol < NRows(); jcol++ )
    {
-      for( Index jcol = 0; jcol <= irow; jcol++ )
+      for( Index irow = jcol; irow < NRows(); irow++ )
       {
-         const Number f = std::abs(*vals);
+         const Number f = std::abs(values_[irow + jcol * NRows()]);
          vec_vals[irow] = Max(vec_vals[irow], f);
          vec_vals[jcol] = Max(vec_vals[jcol], f);
-         vals++;
       }
    }
 }
-- 
2.43.0


From d730a53992cf03f230afb86ca8c975a92e6f5688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:13 +0000
Subject: [PATCH 16/34] fix: inverted validity test in
 ExpandedMultiVectorMatrix::HasValidNumbers

---
 src/LinAlg/IpExpandedMultiVectorMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpExpandedMultiVectorMatrix.cpp b/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
index 9b45e88..f0e7cf3 100644
--- a/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
+++ b/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
@@ -168,7 +168,7 @@ bool ExpandedMultiVectorMatrix::HasValidNumbersImpl() const
 {
    for( Index i = 0; i < NRows(); i++ )
    {
-      if( IsValid(vecs_[i]) && vecs_[i]->HasValidNumbers() )
+      if( IsValid(vecs_[i]) && !vecs_[i]->HasValidNumbers() )
       {
          return false;
       }
-- 
2.43.0


From 14c2c68837a2c9f5a1ff8ec3d5cdace7ed2169b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:13 +0000
Subject: [PATCH 17/34] fix: products of dense matrices with a vector stored as
 one repeated value read a null pointer

---
 src/LinAlg/IpDenseGenMatrix.cpp | 4 ++--
 src/LinAlg/IpDenseSymMatrix.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/IpDenseGenMatrix.cpp b/src/LinAlg/IpDenseGenMatrix.cpp
index febfcc7..e3d0c3c 100644
--- a/src/LinAlg/IpDenseGenMatrix.cpp
+++ b/src/LinAlg/IpDenseGenMatrix.cpp
@@ -346,7 +346,7 @@ void DenseGenMatrix::MultVectorImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
    bool trans = false;
-   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseGenMatrix::TransMultVectorImpl(
@@ -368,7 +368,7 @@ void DenseGenMatrix::TransMultVectorImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
    bool trans = true;
-   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseGenMatrix::ComputeRowAMaxImpl(
diff --git a/src/LinAlg/IpDenseSymMatrix.cpp b/src/LinAlg/IpDenseSymMatrix.cpp
index 1f1da40..c008e78 100644
--- a/src/LinAlg/IpDenseSymMatrix.cpp
+++ b/src/LinAlg/IpDenseSymMatrix.cpp
@@ -51,7 +51,7 @@ void DenseSymMatrix::MultVectorImpl(
    DenseVector* dense_y = static_cast<DenseVector*>(&y);
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
-   IpBlasSymv(Dim(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasSymv(Dim(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseSymMatrix::FillIdentity(
-- 
2.43.0


From 1884bf6e1201eac2ff54be6266c9bbfc6a82b193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 18/34] fix: products and largest entries of matrices with
 identity factor, compound and symmetric triplet matrices

IdentityMatrix ignored its factor in ComputeRowAMax and AddMSinvZ,
CompoundMatrix::ComputeColAMax accumulated into the vector component of the row
instead of the column, CompoundSymMatrix used row instead of column norms for
transposed blocks, and SymTMatrix::ComputeRowAMax ignored init.
---
 src/LinAlg/IpCompoundMatrix.cpp       | 2 +-
 src/LinAlg/IpCompoundSymMatrix.cpp    | 2 +-
 src/LinAlg/IpIdentityMatrix.cpp       | 8 +++++---
 src/LinAlg/TMatrices/IpSymTMatrix.cpp | 9 ++++++---
 4 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/LinAlg/IpCompoundMatrix.cpp b/src/LinAlg/IpCompoundMatrix.cpp
index c994c78..8519ccf 100644
--- a/src/LinAlg/IpCompoundMatrix.cpp
+++ b/src/LinAlg/IpCompoundMatrix.cpp
@@ -702,7 +702,7 @@ void CompoundMatrix::ComputeColAMaxImpl(
             SmartPtr<Vector> vec_i;
             if( comp_vec )
             {
-               vec_i = comp_vec->GetCompNonConst(irow);
+               vec_i = comp_vec->GetCompNonConst(jcol);
             }
             else
             {
diff --git a/src/LinAlg/IpCompoundSymMatrix.cpp b/src/LinAlg/IpCompoundSymMatrix.cpp
index 0c190a4..f653f1b 100644
--- a/src/LinAlg/IpCompoundSymMatrix.cpp
+++ b/src/LinAlg/IpCompoundSymMatrix.cpp
@@ -231,7 +231,7 @@ void CompoundSymMatrix::ComputeRowAMaxImpl(
          }
          else if( jcol > irow && ConstComp(jcol, irow) )
          {
-            ConstComp(jcol, irow)->ComputeRowAMax(*vec_i, false);
+            ConstComp(jcol, irow)->ComputeColAMax(*vec_i, false);
          }
       }
    }
diff --git a/src/LinAlg/IpIdentityMatrix.cpp b/src/LinAlg/IpIdentityMatrix.cpp
index 10ff48e..69e6acd 100644
--- a/src/LinAlg/IpIdentityMatrix.cpp
+++ b/src/LinAlg/IpIdentityMatrix.cpp
@@ -6,6 +6,8 @@
 
 #include "IpIdentityMatrix.hpp"
 
+#include <cmath>
+
 namespace Ipopt
 {
 
@@ -52,12 +54,12 @@ void IdentityMatrix::ComputeRowAMaxImpl(
 {
    if( init )
    {
-      rows_norms.Set(1.);
+      rows_norms.Set(std::fabs(factor_));
    }
    else
    {
       SmartPtr<Vector> v = rows_norms.MakeNew();
-      v->Set(1.);
+      v->Set(std::fabs(factor_));
       rows_norms.ElementWiseMax(*v);
    }
 }
@@ -91,7 +93,7 @@ void IdentityMatrix::AddMSinvZImpl(
    DBG_ASSERT(NCols() == Z.Dim());
    DBG_ASSERT(NCols() == X.Dim());
 
-   X.AddVectorQuotient(alpha, Z, S, 1.);
+   X.AddVectorQuotient(alpha * factor_, Z, S, 1.);
 }
 
 } // namespace Ipopt
diff --git a/src/LinAlg/TMatrices/IpSymTMatrix.cpp b/src/LinAlg/TMatrices/IpSymTMatrix.cpp
index e85681f..d510e5d 100644
--- a/src/LinAlg/TMatrices/IpSymTMatrix.cpp
+++ b/src/LinAlg/TMatrices/IpSymTMatrix.cpp
@@ -163,7 +163,7 @@ bool SymTMatrix::HasValidNumbersImpl() const
 
 void SymTMatrix::ComputeRowAMaxImpl(
    Vector& rows_norms,
-   bool    /*init*/
+   bool    init
 ) const
 {
    DBG_ASSERT(initialized_);
@@ -182,8 +182,11 @@ void SymTMatrix::ComputeRowAMaxImpl(
    Number* vec_vals = dense_vec->Values();
    DBG_ASSERT(vec_vals != NULL);
 
-   const Number zero = 0.;
-   IpBlasCopy(NRows(), &zero, 0, vec_vals, 1);
+   if( init )
+   {
+      const Number zero = 0.;
+      IpBlasCopy(NRows(), &zero, 0, vec_vals, 1);
+   }
 
    vec_vals--; // to deal with 1-based indexing in irn and jcn (I believe)
    for( Index i = 0; i < Nonzeros(); i++ )
-- 
2.43.0


From 6aa819b45f04d85e0a304369c3496ea277f563dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 19/34] fix: conversion of triplet matrices with empty rows to
 compressed rows

A row was closed only once when the next entry lies several rows further down,
so that later entries of the matrix were assigned to wrong rows.
---
 src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp b/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
index 4ab2bc5..9cfa1f3 100644
--- a/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
+++ b/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
@@ -184,9 +184,9 @@ Index TripletToCSRConverter::InitializeConverter(
          nonzeros_compressed_++;
          ja_tmp[nonzeros_compressed_] = jcol;
          ipos_first_tmp[nonzeros_compressed_] = list_iterator->PosTriplet();
-         if( cur_row != irow )
+         while( cur_row != irow )
          {
-            // this is in a new row
+            // this is in a new row (rows in between are empty)
 
             ia_[cur_row] = nonzeros_compressed_;
             cur_row++;
-- 
2.43.0


From a392842c74bf60d1eb5e9a696da4566dd1898220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:14 +0000
Subject: [PATCH 20/34] fix: MUMPS memory increase cannot leave zero percent

---
 src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp b/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp
index 6208936..d839a58 100644
--- a/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp
+++ b/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp
@@ -476,7 +476,7 @@ ESymSolverStatus MumpsSolverInterface::Factorization(
          Jnlst().Printf(J_WARNING, J_LINEAR_ALGEBRA,
                         "MUMPS returned INFO(1) = %" IPOPT_INDEX_FORMAT " and requires more memory, reallocating.  Attempt %d\n", error, trycount + 1);
          MUMPS_INT old_mem_percent = mumps_data->icntl[13];
-         ComputeMemIncrease(mumps_data->icntl[13], 2.0 * (Number)old_mem_percent, MUMPS_INT(0), "percent extra working space for MUMPS");
+         ComputeMemIncrease(mumps_data->icntl[13], 2.0 * (Number)old_mem_percent, MUMPS_INT(1), "percent extra working space for MUMPS");
          Jnlst().Printf(J_WARNING, J_LINEAR_ALGEBRA,
                         "  Increasing icntl[13] from %" IPOPT_INDEX_FORMAT " to %" IPOPT_INDEX_FORMAT ".\n", old_mem_percent, mumps_data->icntl[13]);
 
@@ -667,7 +667,7 @@ ESymSolverStatus MumpsSolverInterface::DetermineDependentRows(
          Jnlst().Printf(J_WARNING, J_LINEAR_ALGEBRA,
                         "MUMPS returned INFO(1) = %" IPOPT_INDEX_FORMAT " and requires more memory, reallocating.  Attempt %d\n", error, trycount + 1);
          MUMPS_INT old_mem_percent = mumps_data->icntl[13];
-         ComputeMemIncrease(mumps_data->icntl[13], 2.0 * (Number)old_mem_percent, MUMPS_INT(0), "percent extra working space for MUMPS");
+         ComputeMemIncrease(mumps_data->icntl[13], 2.0 * (Number)old_mem_percent, MUMPS_INT(1), "percent extra working space for MUMPS");
          Jnlst().Printf(J_WARNING, J_LINEAR_ALGEBRA,
                         "  Increasing icntl[13] from %" IPOPT_INDEX_FORMAT " to %" IPOPT_INDEX_FORMAT ".\n", old_mem_percent, mumps_data->icntl[13]);
 
-- 
2.43.0


From 113a1022344524d4b660e083c90d0168dc841883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:14 +0000
Subject: [PATCH 21/34] fix: increased pivot tolerance is passed on to MUMPS
 before refactorization

---
 src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp b/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp
index d839a58..8469a80 100644
--- a/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp
+++ b/src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp
@@ -458,6 +458,7 @@ ESymSolverStatus MumpsSolverInterface::Factorization(
 #endif
 
    mumps_data->job = 2;  //numerical factorization
+   mumps_data->cntl[0] = pivtol_;  // Set pivot tolerance (may have been increased since symbolic factorization)
 
    dump_matrix(mumps_data);
    Jnlst().Printf(J_MOREDETAILED, J_LINEAR_ALGEBRA,
-- 
2.43.0


From a75826a390a10657aa3e3803912679232f201fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 22/34] fix: perturbation handler: start from scratch after the
 largest perturbation has failed; singular matrix after the degeneracy test
 was stopped

---
 src/Algorithm/IpPDPerturbationHandler.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpPDPerturbationHandler.cpp b/src/Algorithm/IpPDPerturbationHandler.cpp
index 443c362..d6fbe1c 100644
--- a/src/Algorithm/IpPDPerturbationHandler.cpp
+++ b/src/Algorithm/IpPDPerturbationHandler.cpp
@@ -327,7 +327,15 @@ bool PDPerturbationHandler::PerturbForSingularity(
             }
             break;
          case NO_TEST:
-            DBG_ASSERT(false && "we should not get here.");
+            // the test has been stopped in PerturbForWrongInertia because delta_x became too large;
+            // since then delta_c > 0 is used, so only delta_x can be increased
+            DBG_ASSERT(delta_c_curr_ > 0.);
+            retval = get_deltas_for_wrong_inertia(delta_x, delta_s, delta_c, delta_d);
+            if( !retval )
+            {
+               return false;
+            }
+            break;
       }
    }
    else
@@ -398,8 +406,11 @@ bool PDPerturbationHandler::get_deltas_for_wrong_inertia(
    {
       Jnlst().Printf(J_DETAILED, J_LINEAR_ALGEBRA,
                      "delta_x perturbation is becoming too large: %e\n", delta_x_curr_);
+      // forget about this perturbation, so that the next matrix starts from scratch
       delta_x_last_ = 0.;
       delta_s_last_ = 0.;
+      delta_x_curr_ = 0.;
+      delta_s_curr_ = 0.;
       IpData().Append_info_string("dx");
       return false;
    }
-- 
2.43.0


From 5b9941860911ca9b6fbba810fa48ee0fde2833e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 23/34] fix: perturbation handler: no endless repetition with
 jacobian_regularization_value = 0

---
 src/Algorithm/IpPDPerturbationHandler.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Algorithm/IpPDPerturbationHandler.cpp b/src/Algorithm/IpPDPerturbationHandler.cpp
index d6fbe1c..c865c64 100644
--- a/src/Algorithm/IpPDPerturbationHandler.cpp
+++ b/src/Algorithm/IpPDPerturbationHandler.cpp
@@ -340,10 +340,11 @@ bool PDPerturbationHandler::PerturbForSingularity(
    }
    else
    {
-      if( delta_c_curr_ > 0. )   // || get_deltas_for_wrong_inertia_called_) {
+      if( delta_c_curr_ > 0. || delta_cd() == 0. )   // || get_deltas_for_wrong_inertia_called_) {
       {
-         // If we already used a perturbation for the constraints, we do
-         // the same thing as if we were encountering negative curvature
+         // If we already used a perturbation for the constraints (or none is
+         // to be used), we do the same thing as if we were encountering
+         // negative curvature
          retval = get_deltas_for_wrong_inertia(delta_x, delta_s, delta_c, delta_d);
          if( !retval )
          {
@@ -445,7 +446,7 @@ bool PDPerturbationHandler::PerturbForWrongInertia(
    finalize_test();
 
    bool retval = get_deltas_for_wrong_inertia(delta_x, delta_s, delta_c, delta_d);
-   if( !retval && delta_c == 0. )
+   if( !retval && delta_c == 0. && delta_cd() > 0. )
    {
       DBG_ASSERT(delta_d == 0.);
       delta_c_curr_ = delta_cd();
-- 
2.43.0


From 094c678b220937537e0ae76598b2ff09cbec2fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 24/34] fix: number of filter resets is limited by
 max_filter_resets

---
 src/Algorithm/IpFilterLSAcceptor.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/Algorithm/IpFilterLSAcceptor.cpp b/src/Algorithm/IpFilterLSAcceptor.cpp
index b53045c..631b455 100644
--- a/src/Algorithm/IpFilterLSAcceptor.cpp
+++ b/src/Algorithm/IpFilterLSAcceptor.cpp
@@ -340,6 +340,7 @@ FilterLSAcceptor::CheckAcceptabilityOfTrialPoint(
                      "trial_theta = %e is larger than theta_max = %e\n",
                      trial_theta, theta_max_);
       IpData().Append_info_string("Tmax");
+      last_rejection_due_to_filter_ = false;
       return false;
    }
 
@@ -402,29 +403,30 @@ FilterLSAcceptor::CheckAcceptabilityOfTrialPoint(
    // Filter reset heuristic
    if (max_filter_resets_ > 0)
    {
-      if (n_filter_resets_ < max_filter_resets_)
+      if (last_rejection_due_to_filter_)
       {
-         if (last_rejection_due_to_filter_)
+         count_successive_filter_rejections_++;
+         if (count_successive_filter_rejections_ >= filter_reset_trigger_)
          {
-            count_successive_filter_rejections_++;
-            if (count_successive_filter_rejections_ >= filter_reset_trigger_)
+            if (n_filter_resets_ < max_filter_resets_)
             {
                Jnlst().Printf(J_DETAILED, J_LINE_SEARCH,
                               "Resetting filter because in %" IPOPT_INDEX_FORMAT " iterations last rejection was due to filter", count_successive_filter_rejections_);
                IpData().Append_info_string("F+");
+               n_filter_resets_++;
                Reset();
             }
-         }
-         else
-         {
-            count_successive_filter_rejections_ = 0;
+            else
+            {
+               Jnlst().Printf(J_DETAILED, J_LINE_SEARCH,
+                              "Filter should be reset, but maximal number of resets already exceeded.\n");
+               IpData().Append_info_string("F-");
+            }
          }
       }
       else
       {
-         Jnlst().Printf(J_DETAILED, J_LINE_SEARCH,
-                        "Filter should be reset, but maximal number of resets already exceeded.\n");
-         IpData().Append_info_string("F-");
+         count_successive_filter_rejections_ = 0;
       }
    }
    last_rejection_due_to_filter_ = false;
-- 
2.43.0


From 7894a89be3b6921170a5f10a1a9adf70a3e43ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:40 +0000
Subject: [PATCH 25/34] fix: monotone mu update: reset line search also if last
 of several updates does not change mu

---
 src/Algorithm/IpMonotoneMuUpdate.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpMonotoneMuUpdate.cpp b/src/Algorithm/IpMonotoneMuUpdate.cpp
index a9fad93..9585ce4 100644
--- a/src/Algorithm/IpMonotoneMuUpdate.cpp
+++ b/src/Algorithm/IpMonotoneMuUpdate.cpp
@@ -139,6 +139,7 @@ bool MonotoneMuUpdate::UpdateBarrierParameter()
    Number kappa_eps_mu = barrier_tol_factor_ * mu;
 
    bool done = false;
+   bool any_mu_changed = false;
    bool tiny_step_flag = IpData().tiny_step_flag();
    IpData().Set_tiny_step_flag(false);
    while( (sub_problem_error <= kappa_eps_mu || tiny_step_flag) && !done && !first_iter_resto_ )
@@ -165,6 +166,7 @@ bool MonotoneMuUpdate::UpdateBarrierParameter()
       IpData().Set_tau(new_tau);
       mu = new_mu;
       tau = new_tau;
+      any_mu_changed = any_mu_changed || mu_changed;
 
       // If this is the first iteration or if
       // mu_allow_fast_monotone_decrease_ is true, we want to check if
@@ -185,7 +187,7 @@ bool MonotoneMuUpdate::UpdateBarrierParameter()
       }
 
       // Reset the line search
-      if( done && mu_changed )
+      if( done && any_mu_changed )
       {
          linesearch_->Reset();
       }
-- 
2.43.0


From bd5b46a552434763ddca93ede1d8e7756f3340fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:40 +0000
Subject: [PATCH 26/34] fix: adaptive mu update: barrier parameter does not go
 below mu_target in fixed mode

---
 src/Algorithm/IpAdaptiveMuUpdate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpAdaptiveMuUpdate.cpp b/src/Algorithm/IpAdaptiveMuUpdate.cpp
index fda6939..ac1c032 100644
--- a/src/Algorithm/IpAdaptiveMuUpdate.cpp
+++ b/src/Algorithm/IpAdaptiveMuUpdate.cpp
@@ -326,7 +326,7 @@ bool AdaptiveMuUpdate::UpdateBarrierParameter()
             Number compl_inf_tol = std::abs(IpNLP().NLP_scaling()->apply_obj_scaling(compl_inf_tol_));
             Number new_mu = Min(mu_linear_decrease_factor_ * mu, std::pow(mu, mu_superlinear_decrease_power_));
             DBG_PRINT((1, "new_mu = %e, compl_inf_tol = %e tol = %e\n", new_mu, compl_inf_tol, tol));
-            new_mu = Max(new_mu, Min(compl_inf_tol, tol) / (barrier_tol_factor_ + Number(1.)));
+            new_mu = Max(new_mu, mu_target_, Min(compl_inf_tol, tol) / (barrier_tol_factor_ + Number(1.)));
             if( tiny_step_flag && new_mu == mu )
             {
                THROW_EXCEPTION(TINY_STEP_DETECTED, "Problem solved to best possible numerical accuracy");
@@ -620,7 +620,7 @@ Number AdaptiveMuUpdate::NewFixedMu()
    new_mu = Max(new_mu, lower_mu_safeguard());
    new_mu = Min(new_mu, Number(0.1) * max_ref);
 
-   new_mu = Max(new_mu, mu_min_);
+   new_mu = Max(new_mu, mu_min_, mu_target_);
    new_mu = Min(new_mu, mu_max_);
 
    return new_mu;
-- 
2.43.0


From f13eeed572fc2c6ced7ca201f0a11092324a1475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:01 +0000
Subject: [PATCH 27/34] fix: warm start with warm_start_target_mu: do not use
 the container that was handed over to set_trial

---
 src/Algorithm/IpWarmStartIterateInitializer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Algorithm/IpWarmStartIterateInitializer.cpp b/src/Algorithm/IpWarmStartIterateInitializer.cpp
index 0b0491b..2421f88 100644
--- a/src/Algorithm/IpWarmStartIterateInitializer.cpp
+++ b/src/Algorithm/IpWarmStartIterateInitializer.cpp
@@ -274,6 +274,8 @@ bool WarmStartIterateInitializer::SetInitialIterates()
       // Set the trial pointers to new_x and new_s. The process_target_mu
       // methods below create new vectors in new_x and new_s and do not alter
       // the existing ones.
+      // (set_trial() has taken over the previous container)
+      init_vec = curr->MakeNewContainer();
       init_vec->Set_x(*new_x);
       init_vec->Set_s(*new_s);
       IpData().set_trial(init_vec);
@@ -286,6 +288,7 @@ bool WarmStartIterateInitializer::SetInitialIterates()
                         *IpNLP().Pd_U(), new_s, new_v_U);
 
       // Now submit the full modified point
+      init_vec = IpData().trial()->MakeNewContainer();
       init_vec->Set_x(*new_x);
       init_vec->Set_s(*new_s);
       // y_c and y_d currently contain a copy of curr()->y_c...
-- 
2.43.0


From b755f67784b8d0f0fcc38f09c3731376c78444a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:01 +0000
Subject: [PATCH 28/34] fix: restoration reduction: keep the contribution of
 the elastic variables when D_d is given

---
 src/Algorithm/IpAugRestoSystemSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithm/IpAugRestoSystemSolver.cpp b/src/Algorithm/IpAugRestoSystemSolver.cpp
index 5f95084..44c0d2d 100644
--- a/src/Algorithm/IpAugRestoSystemSolver.cpp
+++ b/src/Algorithm/IpAugRestoSystemSolver.cpp
@@ -396,7 +396,7 @@ SmartPtr<const Vector> AugRestoSystemSolver::Neg_Omega_d_plus_D_d(
          }
          if( D_d )
          {
-            retVec->Copy(*D_d);
+            retVec->Axpy(1.0, *D_d);
          }
          neg_omega_d_plus_D_d_cache_.AddCachedResult(retVec, deps, scalar_deps);
       }
-- 
2.43.0


From 0e8a33767a50ea65ba3457edc7f55a706885cfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:01 +0000
Subject: [PATCH 29/34] fix: GenAugSystemSolver: reset freed pointers when
 initialized again

---
 src/Algorithm/IpGenAugSystemSolver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Algorithm/IpGenAugSystemSolver.cpp b/src/Algorithm/IpGenAugSystemSolver.cpp
index 6daba5d..8dca68d 100644
--- a/src/Algorithm/IpGenAugSystemSolver.cpp
+++ b/src/Algorithm/IpGenAugSystemSolver.cpp
@@ -59,9 +59,13 @@ bool GenAugSystemSolver::InitializeImpl(
    if( !warm_start_same_structure_ )
    {
       delete[] dx_vals_copy_;
+      dx_vals_copy_ = NULL;
       delete[] ds_vals_copy_;
+      ds_vals_copy_ = NULL;
       delete[] dc_vals_copy_;
+      dc_vals_copy_ = NULL;
       delete[] dd_vals_copy_;
+      dd_vals_copy_ = NULL;
    }
 
    return solver_interface_->Initialize(Jnlst(), IpNLP(), IpData(), IpCq(), options, prefix);
-- 
2.43.0


From adf10cdfa413d82539239f6604e84743405153b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:01 +0000
Subject: [PATCH 30/34] fix: LowRankAugSystemSolver: recompute the
 factorization after a failed update

---
 src/Algorithm/IpLowRankAugSystemSolver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpLowRankAugSystemSolver.cpp b/src/Algorithm/IpLowRankAugSystemSolver.cpp
index b0cecf7..361f681 100644
--- a/src/Algorithm/IpLowRankAugSystemSolver.cpp
+++ b/src/Algorithm/IpLowRankAugSystemSolver.cpp
@@ -89,7 +89,6 @@ ESymSolverStatus LowRankAugSystemSolver::Solve(
 
    if( first_call_ )
    {
-      DBG_ASSERT(IsNull(Wdiag_));
       // Set up the diagonal matrix Wdiag_
       Index dimx = rhs_x.Dim();
       SmartPtr<DiagMatrixSpace> Wdiag_space = new DiagMatrixSpace(dimx);
@@ -112,6 +111,8 @@ ESymSolverStatus LowRankAugSystemSolver::Solve(
                                    rhs_x, rhs_s, rhs_c, rhs_d, check_NegEVals, numberOfNegEVals);
       if( retval != SYMSOLVER_SUCCESS )
       {
+         // the stored factorization information does not belong to any system now, so it has to be recomputed next time
+         first_call_ = true;
          return retval;
       }
 
-- 
2.43.0


From c6f281b99edb6496979dd590edb0f89d6f9b437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:01 +0000
Subject: [PATCH 31/34] fix: LowRankSSAugSystemSolver: do not regularize the
 rows of the low-rank terms with delta_c

---
 src/Algorithm/IpLowRankSSAugSystemSolver.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Algorithm/IpLowRankSSAugSystemSolver.cpp b/src/Algorithm/IpLowRankSSAugSystemSolver.cpp
index d086716..f494d7c 100644
--- a/src/Algorithm/IpLowRankSSAugSystemSolver.cpp
+++ b/src/Algorithm/IpLowRankSSAugSystemSolver.cpp
@@ -215,7 +215,7 @@ ESymSolverStatus LowRankSSAugSystemSolver::UpdateExtendedData(
    Number           /*delta_s*/,
    const Matrix&    J_c,
    const Vector*    D_c,
-   Number           /*delta_c*/,
+   Number           delta_c,
    const Matrix&    /*J_d*/,
    const Vector*    /*D_d*/,
    Number           /*delta_d*/,
@@ -308,6 +308,8 @@ ESymSolverStatus LowRankSSAugSystemSolver::UpdateExtendedData(
    SmartPtr<DenseVector> D_c_rank = static_cast<DenseVector*>(GetRawPtr(D_c_rank_vec));
    DBG_ASSERT(dynamic_cast<DenseVector*>(GetRawPtr(D_c_rank_vec)));
    Number* D_c_rank_vals = D_c_rank->Values();
+   // the linear solver subtracts delta_c also from the diagonal elements that belong to V and U,
+   // but these rows are part of the Hessian and must not be regularized
    Index irank = 0;
    if( IsValid(V) )
    {
@@ -318,7 +320,7 @@ ESymSolverStatus LowRankSSAugSystemSolver::UpdateExtendedData(
       {
          SmartPtr<const Vector> vec = V->GetVector(i);
          expanded_vu_->SetVector(irank, vec);
-         D_c_rank_vals[irank] = -1.;
+         D_c_rank_vals[irank] = -1. + delta_c;
          irank++;
       }
    }
@@ -334,14 +336,14 @@ ESymSolverStatus LowRankSSAugSystemSolver::UpdateExtendedData(
       {
          SmartPtr<const Vector> vec = U->GetVector(i);
          expanded_vu_->SetVector(irank, vec);
-         D_c_rank_vals[irank] = 1.;
+         D_c_rank_vals[irank] = 1. + delta_c;
          irank++;
       }
    }
    for( ; irank < max_rank_; irank++ )
    {
       expanded_vu_->SetVector(irank, NULL);
-      D_c_rank_vals[irank] = 1.;
+      D_c_rank_vals[irank] = 1. + delta_c;
    }
    if( D_c )
    {
-- 
2.43.0


From 59ce1bba19adace189a8003870861989d9c8f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:23 +0000
Subject: [PATCH 32/34] fix: TNLPReducer: count nonzeros with the index style
 of the problem; free bounds if no starting point

---
 src/Interfaces/IpTNLPReducer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPReducer.cpp b/src/Interfaces/IpTNLPReducer.cpp
index b6a603b..41a4ce2 100644
--- a/src/Interfaces/IpTNLPReducer.cpp
+++ b/src/Interfaces/IpTNLPReducer.cpp
@@ -141,8 +141,9 @@ bool TNLPReducer::get_nlp_info(
       }
       nnz_jac_g_reduced_ = 0;
       nnz_jac_g_skipped_ = 0;
+      const Index offset = (index_style_orig_ == FORTRAN_STYLE ? 1 : 0);
       for( Index i = 0; i < nnz_jac_g_orig_; i++ )
-         if( g_keep_map_[iRow[i]] != -1 )
+         if( g_keep_map_[iRow[i] - offset] != -1 )
          {
             nnz_jac_g_reduced_++;
          }
@@ -192,6 +193,9 @@ bool TNLPReducer::get_bounds_info(
             x_start = new Number[n];
             if( !tnlp_->get_starting_point(n, true, x_start, false, NULL, NULL, m_orig_, false, NULL) )
             {
+               delete[] x_start;
+               delete[] g_l_orig;
+               delete[] g_u_orig;
                return false;
             }
          }
-- 
2.43.0


From b28cfa0d38c137e48b9bb9b2f24c1b7063227ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:23 +0000
Subject: [PATCH 33/34] fix: NLPBoundsRemover: sign of starting multipliers of
 lower bounds

---
 src/Algorithm/IpNLPBoundsRemover.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Algorithm/IpNLPBoundsRemover.cpp b/src/Algorithm/IpNLPBoundsRemover.cpp
index d2babf3..5f3d085 100644
--- a/src/Algorithm/IpNLPBoundsRemover.cpp
+++ b/src/Algorithm/IpNLPBoundsRemover.cpp
@@ -220,6 +220,11 @@ bool NLPBoundsRemover::GetStartingPoint(
    }
    bool retval = nlp_->GetStartingPoint(x, need_x, y_c, need_y_c, y_d_orig, need_y_d, z_L_orig, need_y_d, z_U_orig,
                                         need_y_d);
+   if( retval && need_y_d )
+   {
+      // the multiplier of an inequality for a lower bound is the negative of the bound multiplier (see FinalizeSolution)
+      z_L_orig->Scal(-1.);
+   }
    return retval;
 }
 
-- 
2.43.0


From e5eef3f30b7d068e50436ac84a1618aeb4da5c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:18 +0000
Subject: [PATCH 34/34] fix: keep the dual step of a soft restoration step that
 is accepted by the original criterion

BacktrackingLineSearch::FindAcceptableTrialPoint overwrote the dual
variables of such a step with a step of size alpha_primal = 0 for the
equality multipliers (and reported a primal step size of zero).
---
 src/Algorithm/IpBacktrackingLineSearch.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/IpBacktrackingLineSearch.cpp b/src/Algorithm/IpBacktrackingLineSearch.cpp
index 6782ac5..92a06ef 100644
--- a/src/Algorithm/IpBacktrackingLineSearch.cpp
+++ b/src/Algorithm/IpBacktrackingLineSearch.cpp
@@ -348,6 +348,7 @@ void BacktrackingLineSearch::FindAcceptableTrialPoint()
    bool accept = false;
    Index n_steps = 0;
    Number alpha_primal = 0.;
+   bool soft_resto_step = false;
 
    // Check if search direction becomes too small
    bool tiny_step = (!goto_resto && DetectTinyStep());
@@ -444,6 +445,7 @@ void BacktrackingLineSearch::FindAcceptableTrialPoint()
             accept = TrySoftRestoStep(actual_delta, satisfies_original_criterion);
             if( accept )
             {
+               soft_resto_step = true;
                IpData().Set_info_alpha_primal_char('s');
                if( satisfies_original_criterion )
                {
@@ -629,7 +631,11 @@ void BacktrackingLineSearch::FindAcceptableTrialPoint()
       Number alpha_dual_max = IpCq().dual_frac_to_the_bound(IpData().curr_tau(), *actual_delta->z_L(),
                               *actual_delta->z_U(), *actual_delta->v_L(), *actual_delta->v_U());
 
-      PerformDualStep(alpha_primal, alpha_dual_max, actual_delta);
+      // a soft restoration step has already set all dual variables
+      if( !soft_resto_step )
+      {
+         PerformDualStep(alpha_primal, alpha_dual_max, actual_delta);
+      }
 
       if( n_steps == 0 )
       {
-- 
2.43.0

