From 65409c04af3073ca6b734c730f4612b7447f434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 001/121] fix: reset thread groups when they are
 (re)initialized

Calling oneGroup(), oneStripe() or calcGroups() on an object that already
contains a partitioning retained parts of the previous partitioning, such
that elements could be processed twice or not at all.
---
 src/Utility/ThreadGroups.C | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Utility/ThreadGroups.C b/src/Utility/ThreadGroups.C
index 79de268..aaeecc6 100644
--- a/src/Utility/ThreadGroups.C
+++ b/src/Utility/ThreadGroups.C
@@ -56,7 +56,7 @@ void ThreadGroups::oneGroup (size_t nel, const IntVec& elms)
   if (elms.empty())
     this->oneGroup(nel);
   else {
-    tg[0].resize(1, elms.front() >= 0 ? elms : IntVec{});
+    tg[0].assign(1, elms.front() >= 0 ? elms : IntVec{});
     tg[1].resize(0);
   }
 }
@@ -67,7 +67,7 @@ void ThreadGroups::oneStripe (size_t nel)
   tg[0].resize(nel);
   tg[1].resize(0);
   for (size_t iel = 0; iel < nel; iel++)
-    tg[0][iel].resize(1,iel);
+    tg[0][iel].assign(1,iel);
 }
 
 
@@ -76,7 +76,7 @@ void ThreadGroups::oneStripe (size_t nel, const IntVec& elms)
   if (elms.empty())
     this->oneStripe(nel);
   else {
-    tg[0].resize(elms.size());
+    tg[0].assign(elms.size(),IntVec{});
     tg[1].resize(0);
     if (elms.front() >= 0)
       for (size_t iel = 0; iel < elms.size(); ++iel)
@@ -163,7 +163,7 @@ void ThreadGroups::calcGroups (const BoolVec& el1, const BoolVec& el2,
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
-      tg[i].resize(threads);
+      tg[i].assign(threads,IntVec{});
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
         int maxy = stripDir == V ? stripsizes[i][t] : nel2;
@@ -233,7 +233,7 @@ void ThreadGroups::calcGroups (int nel1, int nel2, int minsize)
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
-      tg[i].resize(threads);
+      tg[i].assign(threads,IntVec{});
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
         int maxy = stripDir == V ? stripsizes[i][t] : nel2;
@@ -330,7 +330,7 @@ void ThreadGroups::calcGroups (const BoolVec& el1, const BoolVec& el2,
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
-      tg[i].resize(threads);
+      tg[i].assign(threads,IntVec{});
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
         int maxy = stripDir == V ? stripsizes[i][t] : nel2;
@@ -403,7 +403,7 @@ void ThreadGroups::calcGroups (int nel1, int nel2, int nel3, int minsize)
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
-      tg[i].resize(threads);
+      tg[i].assign(threads,IntVec{});
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
         int maxy = stripDir == V ? stripsizes[i][t] : nel2;
-- 
2.43.0


From 92e2ed10098104a7760737e0db437a555e775713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 002/121] fix: normInf() reads outside the vector when an
 offset is given

With unit increment, the number of components to consider was not reduced
by the offset, such that values behind the end of the vector were included.
---
 src/LinAlg/matrix.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/LinAlg/matrix.h b/src/LinAlg/matrix.h
index 4b0b300..f03ac8b 100644
--- a/src/LinAlg/matrix.h
+++ b/src/LinAlg/matrix.h
@@ -1129,22 +1129,24 @@ namespace utl //! General utility classes and functions.
   template<> inline
   float vector<float>::normInf(size_t& off, int inc, bool sign) const
   {
-    if (inc < 1 || myVec.empty())
+    if (inc < 1 || myVec.size() <= off)
       return 0.0f;
 
     const float* v = myVec.data() + off;
-    off = 1 + cblas_isamax(myVec.size()/inc,v,inc);
+    int n = inc > 1 ? myVec.size()/inc : myVec.size()-off;
+    off = 1 + cblas_isamax(n,v,inc);
     return sign ? v[(off-1)*inc] : fabsf(v[(off-1)*inc]);
   }
 
   template<> inline
   double vector<double>::normInf(size_t& off, int inc, bool sign) const
   {
-    if (inc < 1 || myVec.empty())
+    if (inc < 1 || myVec.size() <= off)
       return 0.0;
 
     const double* v = myVec.data() + off;
-    off = 1 + cblas_idamax(myVec.size()/inc,v,inc);
+    int n = inc > 1 ? myVec.size()/inc : myVec.size()-off;
+    off = 1 + cblas_idamax(n,v,inc);
     return sign ? v[(off-1)*inc] : fabs(v[(off-1)*inc]);
   }
 
-- 
2.43.0


From cce50756276dbdd20eb5fbf326f67e7420de759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 003/121] fix: wrong column index in matrix4d::fillColumn()

---
 src/LinAlg/matrixnd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/matrixnd.h b/src/LinAlg/matrixnd.h
index 0a6d337..7b8c74c 100644
--- a/src/LinAlg/matrixnd.h
+++ b/src/LinAlg/matrixnd.h
@@ -323,7 +323,7 @@ namespace utl
       CHECK_INDEX("matrix4d::fillColumn: Third index " ,i3,this->n[2]);
       CHECK_INDEX("matrix4d::fillColumn: Fourth index ",i4,this->n[3]);
       size_t ndata = this->n[0] > data.size() ? data.size() : this->n[0];
-      memcpy(this->ptr(i2-1 + this->n[1]*((i3-1)) + this->n[2]*(i4-1)),
+      memcpy(this->ptr(i2-1 + this->n[1]*((i3-1) + this->n[2]*(i4-1))),
              data.data(),ndata*sizeof(T));
     }
 
-- 
2.43.0


From 057675ed41b7341dab67d0a7b03cd706f26173a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 004/121] fix: utl::invert() reported failure for matrices with
 negative determinant

---
 src/LinAlg/MatVec.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/MatVec.C b/src/LinAlg/MatVec.C
index 17fbbd8..dc8b45d 100644
--- a/src/LinAlg/MatVec.C
+++ b/src/LinAlg/MatVec.C
@@ -151,7 +151,7 @@ bool utl::transform (Vector& V, const Matrix& Tn, bool transpose)
 bool utl::invert (Matrix& A)
 {
   if (A.rows() <= 3)
-    return A.inverse() > 0.0;
+    return A.rows() == A.cols() && A.inverse() != 0.0;
 
 #ifdef HAS_BLAS
   if (sizeof(Real) != sizeof(double))
-- 
2.43.0


From cb5189e0ea31c16b43e85932ec97c3d96cde5d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 005/121] fix: off-by-one in the node lookup for a given
 equation number

SAM::getNodeAndLocalDof() expects a 1-based DOF index, whereas the index
found from the equation number was 0-based.
---
 src/LinAlg/SAM.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index 53f2cac..7e7effa 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -103,7 +103,7 @@ std::pair<int,int> SAM::getNodeAndLocalDof (int idof, bool eqno) const
   if (eqno)
   {
     if (int* eq = std::find(meqn,meqn+ndof,idof); eq != meqn+ndof)
-      idof = std::distance(meqn,eq);
+      idof = 1 + std::distance(meqn,eq);
     else
       return { 0, 0 };
   }
-- 
2.43.0


From b88c259b0a296c44e56c58ba0016231a8fab0a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 006/121] fix: accumulate the reaction forces from all
 prescribed DOFs of an element

Only the contribution from the last prescribed DOF was retained
for elements with more than one prescribed DOF.
---
 src/LinAlg/SAM.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index 7e7effa..59cbb7c 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -455,7 +455,7 @@ bool SAM::assembleSystem (SystemMatrix& sysK, SystemVector& sysRHS,
 	if (meen[i-1] < 1)
 	{
 	  eS.resize(eK.rows());
-	  eS(i) = -c0*eK(i,j);
+	  eS(i) -= c0*eK(i,j);
 	}
     }
 
@@ -503,7 +503,7 @@ bool SAM::assembleSystem (SystemVector& sysRHS,
       if (reactionForces && ieq < 1)
       {
         eS.resize(eK.rows());
-        eS(i) = -c0*eK(i,j);
+        eS(i) -= c0*eK(i,j);
       }
     }
   }
-- 
2.43.0


From bce9ce0599f50e1153f74a7cc82726a326c24424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 007/121] fix: matrix-vector multiplication with
 column-oriented UMFPACK matrices

SparseMatrix::multiply() treated the 0-based column-oriented storage used
with UMFPACK as the 1-based row-oriented storage used with SAMG.
---
 src/LinAlg/SparseMatrix.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 3806803..b7bda08 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -588,7 +588,7 @@ bool SparseMatrix::multiply (const SystemVector& B, SystemVector& C) const
   if (editable)
     for (const ValueMap::value_type& val : elem)
       (*Cptr)(val.first.first) += val.second*(*Bptr)(val.first.second);
-  else if (solver == SUPERLU) {
+  else if (solver == SUPERLU || solver == UMFPACK) {
     double* y = Cptr->ptr();
 #pragma omp parallel for schedule(static) reduction(+:y[0:nrow])
       for (size_t j = 1; j <= ncol; j++)
-- 
2.43.0


From ea50b319664f0194b6b6a69590f52b7f021eff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 008/121] fix: SAM::getDofVal always returned zero for the last
 DOF

---
 src/LinAlg/SAM.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index 59cbb7c..1bf804f 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -761,7 +761,7 @@ Real SAM::getDofVal (const RealArray& dofVec, int inod, int ldof) const
 
   int idof = madof[inod-1] + ldof-1;
   int ndof = static_cast<int>(dofVec.size());
-  return idof < madof[inod] && idof < ndof ? dofVec[idof-1] : Real(0);
+  return idof < madof[inod] && idof <= ndof ? dofVec[idof-1] : Real(0);
 }
 
 
-- 
2.43.0


From a13308f8c8e584944fcba59d444b2683a68c64f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 009/121] fix: ISTL matrices ignored the flagging of equations
 without contributions

---
 src/LinAlg/ISTLMatrix.C | 5 ++++-
 src/LinAlg/ISTLMatrix.h | 3 ---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LinAlg/ISTLMatrix.C b/src/LinAlg/ISTLMatrix.C
index a6d9da2..b4822df 100644
--- a/src/LinAlg/ISTLMatrix.C
+++ b/src/LinAlg/ISTLMatrix.C
@@ -149,11 +149,14 @@ void ISTLMatrix::initAssembly (const SAM& sam, char)
 
 bool ISTLMatrix::endAssembly()
 {
+  if (!this->SparseMatrix::endAssembly())
+    return false;
+
   for (size_t j = 0; j < cols(); ++j)
     for (int i = IA[j]; i < IA[j+1]; ++i)
       iA[JA[i]][j] = A[i];
 
-  return this->SparseMatrix::endAssembly();
+  return true;
 }
 
 
diff --git a/src/LinAlg/ISTLMatrix.h b/src/LinAlg/ISTLMatrix.h
index c12264e..ab8c7ab 100644
--- a/src/LinAlg/ISTLMatrix.h
+++ b/src/LinAlg/ISTLMatrix.h
@@ -95,9 +95,6 @@ public:
   //! \brief Returns the matrix type.
   LinAlg::MatrixType getType() const override { return LinAlg::ISTL; }
 
-  //! \brief Returns the dimension of the system matrix.
-  size_t dim(int = 1) const override { return 0; }
-
   //! \brief Creates a copy of the system matrix and returns a pointer to it.
   SystemMatrix* copy() const override { return new ISTLMatrix(*this); }
 
-- 
2.43.0


From 73b16d949da1732edc2c7514c78ce0cb2a67f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 010/121] fix: DenseMatrix::add added the square of the
 specified constant to the diagonal

---
 src/LinAlg/DenseMatrix.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index 76ec505..effe3b8 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -495,7 +495,8 @@ bool DenseMatrix::add (Real sigma, int ieq)
   else if (ieq > 0)
     myMat(ieq,ieq) += sigma;
   else
-    cblas_daxpy(myMat.rows(),sigma,&sigma,0,myMat.ptr(),myMat.rows()+1);
+    for (size_t i = 1; i <= myMat.rows() && i <= myMat.cols(); i++)
+      myMat(i,i) += sigma;
 
   return this->flagNonZeroEq(ieq);
 }
-- 
2.43.0


From 15367aacb95ea46614af38542ea93f4303e2f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 011/121] fix: loading of dense matrices from a text file with
 a label

---
 src/LinAlg/DenseMatrix.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index effe3b8..cc69c6d 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -185,7 +185,7 @@ bool DenseMatrix::load (const char* fileName, bool binary)
   else
   {
     char* cdim = strstr(header,"=");
-    std::stringstream sdim(cdim ? cdim : header);
+    std::stringstream sdim(cdim ? cdim+1 : header);
     sdim >> nrow >> ncol >> flag;
   }
   if (nrow != myMat.rows() || ncol != myMat.cols())
-- 
2.43.0


From b96fb566bd753f94601eba3529c78011dd21809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 012/121] fix: dump of rectangular dense matrices and of sparse
 matrices on compressed format

---
 src/LinAlg/DenseMatrix.C  | 4 ++--
 src/LinAlg/SparseMatrix.C | 8 ++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index cc69c6d..81f1810 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -106,8 +106,8 @@ void DenseMatrix::dump (std::ostream& os, LinAlg::StorageFormat format,
       if (label)
         os <<"\n% label = "<< label;
       os <<'\n' << myMat.rows() <<' '<< myMat.cols();
-      for (size_t j = 1; j <= myMat.rows(); j++)
-        for (size_t i = 1; i <= myMat.cols(); i++)
+      for (size_t j = 1; j <= myMat.cols(); j++)
+        for (size_t i = 1; i <= myMat.rows(); i++)
           os <<'\n'<< myMat(i,j);
       os << std::endl;
       break;
diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index b7bda08..f165bcf 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -374,20 +374,16 @@ void SparseMatrix::dump (std::ostream& os, LinAlg::StorageFormat format,
   else if (solver == SUPERLU || solver == UMFPACK)
   {
     // Column-oriented format with 0-based indices
-    os << JA.front()+1 <<" 1 "<< A[0];
     for (size_t j = 1; j <= ncol; j++)
       for (int i = IA[j-1]; i < IA[j]; i++)
-        if (j > 1 || i != IA.front())
-          os << end << JA[i]+1 <<' '<< j <<' '<< A[i];
+        os << (i > 0 ? end : "") << JA[i]+1 <<' '<< j <<' '<< A[i];
   }
   else
   {
     // Row-oriented format with 1-based indices
-    os <<"1 "<< JA.front() <<' '<< A[0];
     for (size_t i = 1; i <= nrow; i++)
       for (int j = IA[i-1]; j < IA[i]; j++)
-        if (i > 1 || j != IA.front())
-          os << end << i <<' '<< JA[j-1] <<' '<< A[i-1];
+        os << (j > 1 ? end : "") << i <<' '<< JA[j-1] <<' '<< A[j-1];
   }
 
   if (format == LinAlg::MATLAB) os <<"]";
-- 
2.43.0


From e4cfa866b8c069ca588ecbda230862c36cb7e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 013/121] fix: SparseMatrix::calcCSR left old row pointers in a
 reused array

---
 src/LinAlg/SparseMatrix.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index f165bcf..9991605 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -1423,6 +1423,7 @@ Real SparseMatrix::Linfnorm () const
 void SparseMatrix::calcCSR (IntVec& iA, IntVec& jA) const
 {
   size_t nnz = elem.size();
+  iA.clear();
   iA.resize(nrow+1,nnz);
   jA.resize(nnz);
 
-- 
2.43.0


From 77bc69d20d9a72dbeb671183979356993fe3c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 014/121] fix: DiagMatrix::multiply did not set the size of the
 resulting vector

---
 src/LinAlg/DiagMatrix.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LinAlg/DiagMatrix.C b/src/LinAlg/DiagMatrix.C
index 3179d41..48db31d 100644
--- a/src/LinAlg/DiagMatrix.C
+++ b/src/LinAlg/DiagMatrix.C
@@ -187,6 +187,8 @@ bool DiagMatrix::add (Real sigma, int ieq)
 
 bool DiagMatrix::multiply (const SystemVector& B, SystemVector& C) const
 {
+  C.redim(myMat.size());
+
   const Real* a = myMat.ptr();
   const Real* b = B.getRef();
   Real*       c = C.getPtr();
-- 
2.43.0


From 90cb0cddfd6797cdd99abc583eb40dcd9e37b3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 015/121] fix: DenseMatrix::redim left old matrix content in
 the new rows and columns

---
 src/LinAlg/DenseMatrix.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/DenseMatrix.C b/src/LinAlg/DenseMatrix.C
index 81f1810..0043d06 100644
--- a/src/LinAlg/DenseMatrix.C
+++ b/src/LinAlg/DenseMatrix.C
@@ -459,11 +459,12 @@ bool DenseMatrix::redim (size_t r, size_t c)
     else if (c > myMat.cols())
     {
       myMat.resize(r,c);
+      if (r != c) symm = false;
       return true;
     }
 
   Matrix tmp(myMat);
-  myMat.resize(r,c);
+  myMat.resize(r,c,true);
   for (size_t i = 1; i <= c && i <= tmp.cols(); i++)
     myMat.fillColumn(i,tmp.getColumn(i));
 
-- 
2.43.0


From a53140e451e575e62c5893fbcc2ca484069f044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 016/121] fix: TimeStep::reset ignored the start time of the
 simulation

---
 src/SIM/TimeStep.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 96f69ae..25639de 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -211,7 +211,8 @@ bool TimeStep::reset (int istep)
   if (istep == 0)
     stopTime = mySteps.back().second;
   time.dt = mySteps.front().first.front();
-  time.dtn = time.t = time.CFL = 0.0;
+  time.dtn = time.CFL = 0.0;
+  time.t = starTime;
   for (int i = 0; i < istep; i++)
     if (!this->increment())
       return false;
-- 
2.43.0


From ae8df327a00ddb2e6c81cb33c65c6725516e022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 017/121] fix: cut-back in the last time step of an interval,
 and when several step sizes are given

---
 src/SIM/TimeStep.C | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 25639de..f43adf1 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -237,9 +237,11 @@ bool TimeStep::increment ()
       }
     }
   }
-  else if (stepIt != mySteps.end())
-    if (++lstep <= stepIt->first.size())
-      time.dt = stepIt->first[lstep-1];
+  else if (stepIt != mySteps.end()) {
+    if (++lstep > stepIt->first.size())
+      stepIt->first.push_back(time.dt);
+    time.dt = stepIt->first[lstep-1];
+  }
 
   if (dtMin < dtMax && maxCFL <= 0.0 && step > 1)
   {
@@ -273,9 +275,6 @@ bool TimeStep::increment ()
 
   if (stepIt != mySteps.end())
   {
-    if (stepIt->first.size() <= lstep)
-      stepIt->first.push_back(time.dt);
-
     if (this->hasReached(stepIt->second))
     {
       if (time.t != stepIt->second)
@@ -283,8 +282,11 @@ bool TimeStep::increment ()
         // Adjust the size of the last time step
         time.dt += stepIt->second - time.t;
         time.t = stepIt->second;
-        stepIt->first.back() = time.dt;
+        if (lstep > 0)
+          stepIt->first[lstep-1] = time.dt;
       }
+      if (lstep > 0)
+        stepIt->first.resize(lstep);
       lstep = 0;
       ++stepIt;
     }
@@ -312,6 +314,8 @@ bool TimeStep::cutback ()
 
   // Reduce the time step size by the factor f2 < 1.0 or 0.5
   double dt = time.dt;
+  if (stepIt != mySteps.begin() && time.t == (stepIt-1)->second)
+    lstep = (--stepIt)->first.size(); // The diverged step ended its interval
   time.dt *= (f2 < 1.0 ? f2 : 0.5);
   if (time.dt < dtMin)
     time.dt = dtMin;
@@ -320,8 +324,8 @@ bool TimeStep::cutback ()
   niter = 10;
   time.first = 'c';
   time.t += time.dt - dt;
-  if (stepIt != mySteps.end())
-    stepIt->first.back() = time.dt;
+  if (stepIt != mySteps.end() && lstep > 0)
+    stepIt->first[lstep-1] = time.dt;
 
   IFEM::cout <<"  ** Iterations diverged, trying cut-back with dt="
              << time.dt << std::endl;
-- 
2.43.0


From d524f0f56356b5a41a689f6f1734db4c2586658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 018/121] fix: copying a TimeStep object lost the current
 position in the time step sequence

---
 src/SIM/TimeStep.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index f43adf1..35c8859 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -53,8 +53,11 @@ TimeStep& TimeStep::operator= (const TimeStep& ts)
   iter = ts.iter;
 
   time = ts.time;
+  if (this == &ts) return *this;
+
   mySteps = ts.mySteps;
-  stepIt = mySteps.begin();
+  stepIt = mySteps.begin() + std::distance(ts.mySteps.begin(),
+                                           TimeSteps::const_iterator(ts.stepIt));
   return *this;
 }
 
-- 
2.43.0


From 01fcb1a5a6599cb58c0d1c19bdd6297bb62f3c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 019/121] fix: restart of time stepping with cut-backs or
 iteration-dependent step sizes

---
 src/SIM/TimeStep.C | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 35c8859..a80ade9 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -19,6 +19,7 @@
 #ifdef HAS_CEREAL
 #include <cereal/cereal.hpp>
 #include <cereal/archives/binary.hpp>
+#include <cereal/types/vector.hpp>
 #endif
 
 
@@ -369,6 +370,20 @@ bool TimeStep::serialize (std::map<std::string,std::string>& data) const
     doSerializeOps(ar,*const_cast<TimeStep*>(this));
   }
   data.insert(std::make_pair("TimeStep",str.str()));
+
+  // Store the actual step sizes of the intervals so far
+  std::ostringstream seq;
+  {
+    cereal::BinaryOutputArchive ar(seq);
+    size_t interval = stepIt - const_cast<TimeStep*>(this)->mySteps.begin();
+    std::vector<std::vector<double>> sizes;
+    for (size_t i = 0; i <= interval && i < mySteps.size(); i++)
+      sizes.push_back(mySteps[i].first);
+    if (sizes.size() > interval)
+      sizes.back().resize(lstep,time.dt);
+    ar(iter,niter,sizes);
+  }
+  data.insert(std::make_pair("TimeStep::sequence",seq.str()));
   return true;
 #else
   return false;
@@ -384,7 +399,32 @@ bool TimeStep::deSerialize (const std::map<std::string,std::string>& data)
     std::stringstream str(it->second);
     cereal::BinaryInputArchive ar(str);
     doSerializeOps(ar,*this);
-    return this->reset(step);
+    if ((it = data.find("TimeStep::sequence")) == data.end())
+      return this->reset(step);
+
+    std::stringstream seq(it->second);
+    cereal::BinaryInputArchive as(seq);
+    std::vector<std::vector<double>> sizes;
+    as(iter,niter,sizes);
+
+    // Find the current interval and restore the actual step sizes up to there
+    lstep = 0;
+    stepIt = mySteps.begin();
+    for (const std::vector<double>& dt : sizes)
+      if (dt.empty() || stepIt == mySteps.end())
+        break;
+      else if (this->hasReached(stepIt->second))
+        (stepIt++)->first = dt;
+      else
+      {
+        lstep = dt.size();
+        if (stepIt->first.size() < lstep)
+          stepIt->first.resize(lstep);
+        std::copy(dt.begin(),dt.end(),stepIt->first.begin());
+        break;
+      }
+
+    return true;
   }
 #endif
   return false;
-- 
2.43.0


From a6e86eaade2e8d8307d865f0608ab0ae23c72e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 020/121] fix: cut-back to a step size that equals the minimum
 step size but for round-off

---
 src/SIM/TimeStep.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index a80ade9..d116476 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -309,7 +309,8 @@ bool TimeStep::increment ()
 
 bool TimeStep::cutback ()
 {
-  if (time.dt <= dtMin)
+  const double epsT = 1.0e-6;
+  if (time.dt <= dtMin*(1.0+epsT))
   {
     // Already reached the minimum step size, cannot do further cut-back
     IFEM::cout <<" *** Iterations diverged, terminating..."<< std::endl;
-- 
2.43.0


From 62b87dbbd07fd14377fc900c81c1c526b78df240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 021/121] fix: convergence state was shared between all
 nonlinear (and all dynamic) simulators

---
 src/SIM/MultiStepSIM.C | 3 ++-
 src/SIM/MultiStepSIM.h | 3 +++
 src/SIM/NewmarkSIM.C   | 4 ----
 src/SIM/NonLinSIM.C    | 4 ----
 4 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/SIM/MultiStepSIM.C b/src/SIM/MultiStepSIM.C
index 3888a8d..1688d5a 100644
--- a/src/SIM/MultiStepSIM.C
+++ b/src/SIM/MultiStepSIM.C
@@ -30,7 +30,8 @@ MultiStepSIM::MultiStepSIM (SIMbase& sim)
 #endif
 
   refNopt = MAX;
-  refNorm = 0.0;
+  refNorm = convTol = prevNorm = 0.0;
+  nIncrease = 0;
   rCond   = -1.0;
   subiter = NONE;
   nRHSvec = 1;
diff --git a/src/SIM/MultiStepSIM.h b/src/SIM/MultiStepSIM.h
index 6c83dfd..5a7df19 100644
--- a/src/SIM/MultiStepSIM.h
+++ b/src/SIM/MultiStepSIM.h
@@ -208,6 +208,9 @@ protected:
 
   NormOp refNopt; //!< Reference norm option
   double refNorm; //!< Reference norm value used in convergence checks
+  double convTol;   //!< Convergence tolerance of current time/load step
+  double prevNorm;  //!< Convergence norm of previous iteration
+  int    nIncrease; //!< Number of successive iterations with norm increase
   double rCond;   //!< Reciprocal condition number of the linear equation system
   SubIt  subiter; //!< Sub-iteration flag
   size_t nRHSvec; //!< Number of right-hand-side vectors to assemble
diff --git a/src/SIM/NewmarkSIM.C b/src/SIM/NewmarkSIM.C
index 073e802..79d1b0e 100644
--- a/src/SIM/NewmarkSIM.C
+++ b/src/SIM/NewmarkSIM.C
@@ -543,10 +543,6 @@ SIM::ConvStatus NewmarkSIM::solveIteration (TimeStep& param)
 
 SIM::ConvStatus NewmarkSIM::checkConvergence (TimeStep& param)
 {
-  static double convTol   = 0.0;
-  static double prevNorm  = 0.0;
-  static int    nIncrease = 0;
-
   double norms[3];
   model.iterationNorms(linsol,residual,norms[0],norms[1],norms[2]);
   double norm = norms[cNorm];
diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index 4df8f3c..722fda8 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -413,10 +413,6 @@ SIM::ConvStatus NonLinSIM::checkConvergence (TimeStep& param)
   if (iteNorm <= NONE)
     return CONVERGED; // No iterations, we are solving a linear problem
 
-  static double convTol   = 0.0;
-  static double prevNorm  = 0.0;
-  static int    nIncrease = 0;
-
   ConvStatus status = OK;
   double enorm, resNorm, linsolNorm;
   model.iterationNorms(linsol,residual,enorm,resNorm,linsolNorm);
-- 
2.43.0


From b87727fdcbc9bb6353dcd525d390576f2fd6d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 022/121] fix: restart of dynamic simulations with the HHT and
 nonlinear Newmark integrators

---
 src/SIM/HHTSIM.C       | 27 +++++++++++++++++----------
 src/SIM/NewmarkNLSIM.C | 17 +++++++++++------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/SIM/HHTSIM.C b/src/SIM/HHTSIM.C
index 8f53ba4..7dee7b7 100644
--- a/src/SIM/HHTSIM.C
+++ b/src/SIM/HHTSIM.C
@@ -281,7 +281,7 @@ void HHTSIM::setSolution (const RealArray& newSol, int idx)
 
 bool HHTSIM::serialize (SerializeMap& data) const
 {
-  if (!this->saveSolution(data,model.getName()))
+  if (!this->MultiStepSIM::serialize(data))
     return false;
 
   if (Finert)
@@ -298,20 +298,27 @@ bool HHTSIM::serialize (SerializeMap& data) const
 
 bool HHTSIM::deSerialize (const SerializeMap& data)
 {
-  if (!this->restoreSolution(data,model.getName()))
+  if (!this->MultiStepSIM::deSerialize(data))
     return false;
 
-  SerializeMap::const_iterator sit = data.find("HHT::Finert");
-  if (sit == data.end()) return false;
+  // Note: These vectors do not exist in the first time step(s)
+  delete Finert;
+  delete Fext;
+  Finert = Fext = nullptr;
 
-  Finert = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  SerializeMap::const_iterator sit = data.find("HHT::Finert");
+  if (sit != data.end())
+  {
+    Finert = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  }
 
   sit = data.find("HHT::Fext");
-  if (sit == data.end()) return false;
-
-  Fext = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Fext->getPtr(),Fext->dim());
+  if (sit != data.end())
+  {
+    Fext = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Fext->getPtr(),Fext->dim());
+  }
 
   return true;
 }
diff --git a/src/SIM/NewmarkNLSIM.C b/src/SIM/NewmarkNLSIM.C
index a8a395b..fe10e5b 100644
--- a/src/SIM/NewmarkNLSIM.C
+++ b/src/SIM/NewmarkNLSIM.C
@@ -238,7 +238,7 @@ void NewmarkNLSIM::setSolution (const RealArray& newSol, int idx)
 
 bool NewmarkNLSIM::serialize (SerializeMap& data) const
 {
-  if (!this->saveSolution(data,model.getName()))
+  if (!this->MultiStepSIM::serialize(data))
     return false;
 
   if (Finert)
@@ -251,14 +251,19 @@ bool NewmarkNLSIM::serialize (SerializeMap& data) const
 
 bool NewmarkNLSIM::deSerialize (const SerializeMap& data)
 {
-  if (!this->restoreSolution(data,model.getName()))
+  if (!this->MultiStepSIM::deSerialize(data))
     return false;
 
-  SerializeMap::const_iterator sit = data.find("HHT::Finert");
-  if (sit == data.end()) return false;
+  // Note: This vector exists only when using true inertia forces
+  delete Finert;
+  Finert = nullptr;
 
-  Finert = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  SerializeMap::const_iterator sit = data.find("HHT::Finert");
+  if (sit != data.end())
+  {
+    Finert = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  }
 
   return true;
 }
-- 
2.43.0


From f3629441a2451fdebf81ccb6618ae22af7f7221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 023/121] fix: line search in an equilibrium state gave NaN in
 the solution

---
 src/SIM/NonLinSIM.C | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index 722fda8..46dbb69 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -347,6 +347,12 @@ bool NonLinSIM::lineSearch (TimeStep& param)
   model.setMode(SIM::RHS_ONLY,false);
 
   double s0 = residual.dot(linsol);
+  if (s0 == 0.0)
+  {
+    alpha = alphaO = 1.0;
+    return true; // Nothing to gain (already in equilibrium)
+  }
+
   double smin = fabs(s0);
   double cmin = 1.0;
   double ck = 1.0;
-- 
2.43.0


From 1a450e7e2a0da3e6102452a370469f2f9e338d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 024/121] fix: restart of simulations with a constant
 coefficient matrix

---
 src/SIM/MultiStepSIM.C | 4 ++++
 src/SIM/MultiStepSIM.h | 1 +
 src/SIM/NewmarkSIM.C   | 6 ++++--
 src/SIM/NonLinSIM.C    | 3 ++-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/SIM/MultiStepSIM.C b/src/SIM/MultiStepSIM.C
index 1688d5a..7722942 100644
--- a/src/SIM/MultiStepSIM.C
+++ b/src/SIM/MultiStepSIM.C
@@ -36,6 +36,7 @@ MultiStepSIM::MultiStepSIM (SIMbase& sim)
   subiter = NONE;
   nRHSvec = 1;
   rotUpd  = false;
+  restart = false;
   saveBCs = true;
 
   geoBlk = nBlock = lastSt = 0;
@@ -229,6 +230,9 @@ bool MultiStepSIM::deSerialize (const SerializeMap& data)
   if (sit != data.end())
     SIMsolution::deSerialize(sit->second,&refNorm,1);
 
+  // The coefficient matrix has to be assembled, also when it is constant
+  restart = true;
+
   return this->restoreSolution(data,model.getName());
 }
 
diff --git a/src/SIM/MultiStepSIM.h b/src/SIM/MultiStepSIM.h
index 5a7df19..ce68d11 100644
--- a/src/SIM/MultiStepSIM.h
+++ b/src/SIM/MultiStepSIM.h
@@ -215,6 +215,7 @@ protected:
   SubIt  subiter; //!< Sub-iteration flag
   size_t nRHSvec; //!< Number of right-hand-side vectors to assemble
   char   rotUpd;  //!< Option for how to update of nodal rotations
+  bool   restart; //!< If \e true, we have restarted without any LHS matrix yet
 
   int geoBlk; //!< Running VTF geometry block counter
   int nBlock; //!< Running VTF result block counter
diff --git a/src/SIM/NewmarkSIM.C b/src/SIM/NewmarkSIM.C
index 79d1b0e..2973a90 100644
--- a/src/SIM/NewmarkSIM.C
+++ b/src/SIM/NewmarkSIM.C
@@ -401,11 +401,13 @@ SIM::ConvStatus NewmarkSIM::solveStep (TimeStep& param, SIM::SolutionMode,
   if (subiter&FIRST && !this->predictStep(param))
     return SIM::FAILURE;
 
-  bool newTangent = (param.time.first || nupdat > 0) && !read_factor;
+  const bool first = param.time.first || restart;
+  bool newTangent = (first || nupdat > 0) && !read_factor;
+  restart = false;
   if (!model.setMode(newTangent ? SIM::DYNAMIC : SIM::RHS_ONLY, false))
     return SIM::FAILURE;
 
-  if (param.time.first && read_factor)
+  if (first && read_factor)
   {
     PROFILE1("Read factorized Nmat");
     IFEM::cout <<"   * Reading factorized Newton matrix from file "
diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index 46dbb69..cfc9612 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -229,7 +229,8 @@ SIM::ConvStatus NonLinSIM::solveStep (TimeStep& param,
     return FAILURE;
 
   bool poorConvg = false;
-  bool newTangent = param.time.first || iteNorm != NONE;
+  bool newTangent = param.time.first || restart || iteNorm != NONE;
+  restart = false;
   model.setMode(newTangent ? mode : RHS_ONLY, false);
   model.setQuadratureRule(opt.nGauss[0],true);
   if (!this->assembleSystem(param.time,solution,newTangent))
-- 
2.43.0


From 220dce9e768762292472dfbc16db8f0a6baddacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 025/121] fix: use of erased iterator when overriding a
 Dirichlet condition

---
 src/ASM/ASMbase.C | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index fc8e667..dc85638 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -562,9 +562,10 @@ bool ASMbase::addMPC (MPC*& mpc, int code, bool verbose, bool overrideD)
     if (verbose)
       std::cout <<"Replacing constraint "<< **mit.first <<" by "<< *mpc;
 #endif
-    dCode.erase(*mit.first);
+    MPC* oldMPC = *mit.first;
+    dCode.erase(oldMPC);
     mpcs.erase(mit.first);
-    delete *mit.first;
+    delete oldMPC;
     mpcs.insert(mpc);
     if (code > 0) dCode[mpc] = code;
     return true;
-- 
2.43.0


From bdb21bd0fbe7ad3226606ba4f534cbfce201406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 026/121] fix: checking the fixed status of several DOFs in a
 node

---
 src/ASM/ASMbase.C | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index dc85638..8470c58 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -498,12 +498,12 @@ public:
       for (int dof = myDofs; dof > 0; dof /= 10)
 	switch (dof%10)
 	  {
-	  case 1: return bc.CX == 0;
-	  case 2: return bc.CY == 0;
-	  case 3: return bc.CZ == 0;
-	  case 4: return bc.RX == 0;
-	  case 5: return bc.RY == 0;
-	  case 6: return bc.RZ == 0;
+	  case 1: if (bc.CX == 0) return true; break;
+	  case 2: if (bc.CY == 0) return true; break;
+	  case 3: if (bc.CZ == 0) return true; break;
+	  case 4: if (bc.RX == 0) return true; break;
+	  case 5: if (bc.RY == 0) return true; break;
+	  case 6: if (bc.RZ == 0) return true; break;
 	  }
     return false;
   }
@@ -517,7 +517,7 @@ bool ASMbase::isFixed (int node, int dof, bool all) const
   if (dof < 10 || !all)
     bit = std::find_if(BCode.begin(),BCode.end(),fixed(node,dof));
   else for (int d = dof; d > 0 && bit != BCode.end(); d /= 10)
-    if (d <= nf)
+    if (d%10 <= nf)
       bit = std::find_if(BCode.begin(),BCode.end(),fixed(node,d%10));
 
   return bit != BCode.end();
-- 
2.43.0


From 957542d515ad82388103adfe7b4c4eb3bde27ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 027/121] fix: do not add masters to an existing constraint of
 the slave DOF

---
 src/ASM/ASMbase.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index 8470c58..09f9134 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -587,7 +587,7 @@ bool ASMbase::add2PC (int slave, int dir, int master, int code)
 
   MPC* cons = new MPC(slave,dir);
   bool stat = this->addMPC(cons,code);
-  if (cons)
+  if (stat && cons)
   {
     cons->addMaster(master,dir);
 #if SP_DEBUG > 1
@@ -607,7 +607,7 @@ bool ASMbase::add3PC (int slave, int dir, int master1, int master2, int code)
 
   MPC* cons = new MPC(slave,dir);
   bool stat = this->addMPC(cons,code);
-  if (cons)
+  if (stat && cons)
   {
     if (master1 != slave) cons->addMaster(master1,dir);
     if (master2 != slave) cons->addMaster(master2,dir);
-- 
2.43.0


From 20a57d249a27c84cca96f37db735f9b07f0242a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 028/121] fix: fixed master DOFs take precedence when resolving
 chained constraints

---
 src/ASM/ASMbase.C | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index 09f9134..cc7d2c6 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -1105,7 +1105,7 @@ void ASMbase::resolveMPCchains (const MPCSet& allMPCs,
 #endif
 
   // Recursive lambda function for resolving the chained MPC-equations.
-  std::function<bool(MPC*)> resolve = [&allMPCs,&resolve](MPC* mpc)
+  std::function<bool(MPC*)> resolve = [&allMPCs,&model,&resolve](MPC* mpc)
   {
     if (!mpc) return false;
 
@@ -1113,7 +1113,15 @@ void ASMbase::resolveMPCchains (const MPCSet& allMPCs,
     for (size_t i = 0; i < mpc->getNoMaster();)
     {
       MPC master(mpc->getMaster(i).node,mpc->getMaster(i).dof);
-      if (MPCIter cit = allMPCs.find(&master); cit != allMPCs.end())
+      bool isFixed = false;
+      for (ASMbase* pch : model)
+        if ((isFixed = pch->isFixed(master.getSlave().node,
+                                    master.getSlave().dof)))
+          break;
+
+      if (isFixed)
+        i++; // Fixed master DOF, which takes precedence over other constraints
+      else if (MPCIter cit = allMPCs.find(&master); cit != allMPCs.end())
       {
         // We have a master DOF which is a slave in another constraint equation.
         // Invoke resolve() recursively to ensure that all master DOFs of that
-- 
2.43.0


From f4d63253474ac651778395f2e96a3438b13b89d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 029/121] fix: renumber all instances of a merged node in the
 patch

---
 src/ASM/ASMbase.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index cc7d2c6..d1a91eb 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -1332,7 +1332,9 @@ bool ASMbase::mergeNodes (size_t inod, int globalNum, bool verbose)
                <<" at X="<< this->getCoord(inod) << std::endl;
 
   IntMap old2New;
-  myMLGN[inod-1] = old2New[oldNum] = globalNum;
+  old2New[oldNum] = globalNum;
+  for (int& node : myMLGN)
+    utl::renumber(node,old2New);
   for (ASMbase* pch : neighbors)
     pch->renumberNodes(old2New,{},1);
 
-- 
2.43.0


From 58060c5ecff70b6eed43e8d448001ebb078240cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 030/121] fix: override all fixations of a DOF in merged nodes

---
 src/ASM/ASMbase.C | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index d1a91eb..bd7f983 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -529,9 +529,9 @@ bool ASMbase::addMPC (MPC*& mpc, int code, bool verbose, bool overrideD)
   if (!mpc) return true;
 
   int sdof = mpc->getSlave().dof;
-  BCVec::iterator bit = std::find_if(BCode.begin(),BCode.end(),
-                                     fixed(mpc->getSlave().node,sdof));
-  if (bit != BCode.end())
+  fixed isFixedDof(mpc->getSlave().node,sdof);
+  BCVec::iterator bit = std::find_if(BCode.begin(),BCode.end(),isFixedDof);
+  for (; bit != BCode.end(); bit = std::find_if(bit,BCode.end(),isFixedDof))
   {
     if (!overrideD)
     {
@@ -543,7 +543,7 @@ bool ASMbase::addMPC (MPC*& mpc, int code, bool verbose, bool overrideD)
 
     // Override the homogeneous Dirichlet condition for this DOF
     if (bit->free(sdof) == 6)
-      BCode.erase(bit); // All DOFs in this node are free (or prescribed)
+      bit = BCode.erase(bit); // All DOFs in this node are free (or prescribed)
   }
 
   std::pair<MPCIter,bool> mit = mpcs.insert(mpc);
-- 
2.43.0


From 2946e46c8a615b348ceb4c312446cc37bbf1525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 031/121] fix: inhomogeneous constraint without free masters
 taken as fixed in chains

---
 src/ASM/ASMbase.C | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index bd7f983..88dadfd 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -585,7 +585,9 @@ bool ASMbase::add2PC (int slave, int dir, int master, int code)
   if (dir < 1 || dir > nf) return true;
   if (slave == master) return true;
 
-  MPC* cons = new MPC(slave,dir);
+  // Using non-zero constant until the value of the function is available,
+  // such that this equation is not interpreted as a fixed DOF when resolved
+  MPC* cons = new MPC(slave,dir,code > 0 ? 1.0 : 0.0);
   bool stat = this->addMPC(cons,code);
   if (stat && cons)
   {
@@ -605,7 +607,9 @@ bool ASMbase::add3PC (int slave, int dir, int master1, int master2, int code)
 
   if (dir < 1 || dir > nf) return true;
 
-  MPC* cons = new MPC(slave,dir);
+  // Using non-zero constant until the value of the function is available,
+  // such that this equation is not interpreted as a fixed DOF when resolved
+  MPC* cons = new MPC(slave,dir,code > 0 ? 1.0 : 0.0);
   bool stat = this->addMPC(cons,code);
   if (stat && cons)
   {
-- 
2.43.0


From 9672cfcc2c5e9020ce62b0759e5cb92b7bfd11dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 032/121] fix: constraint equations not found after renumbering
 of nodes

---
 src/ASM/ASMbase.C | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index 88dadfd..899a5d0 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -1430,6 +1430,23 @@ bool ASMbase::renumberNodes (const IntMap& old2new, const IntVec& new2old,
   for (MPC* mpc : mpcs)
     invalid += mpc->renumberNodes(old2new,printInvalidNodes);
 
+  // The containers are sorted on the slave node numbers,
+  // and need to be rebuilt since these numbers might have been changed
+  std::vector<MPC*> allMPC(mpcs.begin(),mpcs.end());
+  std::vector<MPCMap::value_type> allCodes(dCode.begin(),dCode.end());
+  mpcs.clear();
+  dCode.clear();
+  dCode.insert(allCodes.begin(),allCodes.end());
+  for (MPC* mpc : allMPC)
+    if (!mpcs.insert(mpc).second)
+    {
+      // Two merged nodes have a constraint on the same DOF, keep the first one
+      if (MPCMap::iterator it = dCode.find(mpc);
+          it != dCode.end() && it->first == mpc)
+        dCode.erase(it);
+      delete mpc;
+    }
+
   if (invalid > 0 && renumAll)
   {
     std::cerr <<" *** "<< invalid <<" invalid nodes found while renumbering\n";
-- 
2.43.0


From f5d7a8b8920d0ec79fbb681684bb1f6f9320a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 033/121] fix: increment of constraint equations with both
 constant and masters, and when the prescribed value returns to zero

---
 src/ASM/SAMpatch.C | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ASM/SAMpatch.C b/src/ASM/SAMpatch.C
index 97c7e74..2e865ce 100644
--- a/src/ASM/SAMpatch.C
+++ b/src/ASM/SAMpatch.C
@@ -404,13 +404,18 @@ bool SAMpatch::updateConstraintEqs (const Vector* prevSol)
       for (size_t i = 0; prevSol && i < (*cit)->getNoMaster(); i++)
         update((*cit)->getMaster(i),c0,ipeq,Real(1));
 
-      // Update the constant term of the constraint equation
-      if (!prevSol || c0 == Real(0)) // Note: c0=0 means no constant offset
-        ttcc[jpeq] = Real(0);
+      // Update the constant term of the constraint equation,
+      // accounting for the previous value of the slave and master DOFs, if any
+      if (!prevSol)
+        c0 = Real(0);
       else if (idof <= (int)prevSol->size())
-	ttcc[jpeq] = c0 - (*prevSol)(idof);
-      else
-	ttcc[jpeq] = c0;
+      {
+        c0 -= (*prevSol)(idof);
+        for (int jp = jpeq+1; jp < mpmceq[(*cit)->iceq+1]-1; jp++)
+          if (mmceq[jp] > 0 && mmceq[jp] <= (int)prevSol->size())
+            c0 += ttcc[jp]*(*prevSol)(mmceq[jp]);
+      }
+      ttcc[jpeq] = c0;
 
 #if SP_DEBUG > 1
       std::cout <<"Updated constraint value for dof="<< idof <<": "<< ttcc[jpeq]
-- 
2.43.0


From 185325116b455fac84be8b4afdd63862d0d8a374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:13 +0000
Subject: [PATCH 034/121] fix: memory corruption when merging models with
 ignored constraint equations

---
 src/ASM/SAMpatch.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ASM/SAMpatch.C b/src/ASM/SAMpatch.C
index 2e865ce..ae10d1e 100644
--- a/src/ASM/SAMpatch.C
+++ b/src/ASM/SAMpatch.C
@@ -313,6 +313,7 @@ bool SAMpatch::initConstraintEqs ()
                   << idof <<" ("<< (*cit)->getSlave()
                   <<").\n          This dof is already marked as "
                   << (msc[idof-1] == 0 ? "FIXED." : "SLAVE.") << std::endl;
+	(*cit)->iceq = -1;
 	ip--;
 	nceq--;
 	continue;
@@ -450,8 +451,10 @@ bool SAMpatch::merge (const SAM* other, const std::map<int,int>* old2new)
   // Reinitialize some model size parameters
   nnod += that->nnod;
   nel  += that->nel;
-  nceq += that->nceq;
   neq   = 0;
+  nmmnpc = nmmceq = nceq = 0;
+  for (const ASMbase* pch : model)
+    nceq += pch->getNoMPCs(); // including those that were ignored so far
 
   if (!nodeType.empty())
     nodeType.resize(nnod,'0');
-- 
2.43.0


From 5bd301165bffbf99f3498e6eabce2998e7af90d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 035/121] fix: AlgEqSystem::add() must add all vectors and all
 reaction forces

The loops over the system vectors and the reaction forces were limited
by the number of system matrices and vectors, respectively.
---
 src/ASM/AlgEqSystem.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index 797e3eb..f39e001 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -136,13 +136,13 @@ AlgEqSystem& AlgEqSystem::add (const AlgEqSystem& that)
   for (i = 0; i < A.size() && i < that.A.size(); i++)
     A[i]._A->add(*that.A[i]._A);
 
-  for (i = 0; i < b.size() && i < that.A.size(); i++)
+  for (i = 0; i < b.size() && i < that.b.size(); i++)
     b[i]->add(*that.b[i]);
 
   for (i = 0; i < c.size() && i < that.c.size(); i++)
     c[i] += that.c[i];
 
-  for (i = 0; i < b.size() && i < that.R.size(); i++)
+  for (i = 0; i < R.size() && i < that.R.size(); i++)
     R[i] += that.R[i];
 
   return *this;
-- 
2.43.0


From f134936e3f47c537cd437a4faa12c6719e55144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 036/121] fix: AlgEqSystem::copy() must retain the associated
 vectors

The right-hand-side vectors associated with the matrices when there are
more than one of them were lost, and self-assignment was not handled.
---
 src/ASM/AlgEqSystem.C | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index f39e001..8840c1d 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -100,6 +100,9 @@ bool AlgEqSystem::init (LinAlg::MatrixType mtype, const LinSolParams* spar,
 
 AlgEqSystem& AlgEqSystem::copy (const AlgEqSystem& that)
 {
+  if (this == &that)
+    return *this;
+
   for (SysMatrixPair& a : A)
     delete a._A;
 
@@ -122,8 +125,11 @@ AlgEqSystem& AlgEqSystem::copy (const AlgEqSystem& that)
   for (i = 0; i < b.size(); i++)
     b[i] = that.b[i]->copy();
 
-  if (A.size() == 1 && !b.empty())
-    A.front()._b = b.front();
+  // Retain the associations between matrices and right-hand-side vectors
+  for (i = 0; i < A.size(); i++)
+    for (size_t j = 0; j < b.size() && that.A[i]._b; j++)
+      if (that.A[i]._b == that.b[j])
+        A[i]._b = b[j];
 
   return *this;
 }
-- 
2.43.0


From 6bf0e3f00f7ba44582a39ba739c2f2950d50aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 037/121] fix: out-of-bounds access in static condensation and
 recovery

The list of retained equations was accessed beyond its end when the last
equation is an internal one.
---
 src/ASM/AlgEqSystem.C | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index 8840c1d..99c5645 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -361,7 +361,7 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
                                       const IntVec& extNodes, size_t imat,
                                       const char* recmatFile) const
 {
-  if (imat > A.size()) return false;
+  if (imat >= A.size()) return false;
 
   const SparseMatrix* Amat = dynamic_cast<const SparseMatrix*>(A[imat]._A);
   const double*       Rvec = A[imat]._b ? A[imat]._b->getRef() : nullptr;
@@ -403,7 +403,7 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
   Vector    R2(neq2); // External (retained) DOFs
   size_t ieq, ip2, ieq1 = 0, ieq2 = 0;
   for (ieq = ip2 = 0; ieq < neq0; ieq++)
-    if (static_cast<int>(ieq)+1 < meqn2[ip2])
+    if (ip2 == meqn2.size() || static_cast<int>(ieq)+1 < meqn2[ip2])
       R1(++ieq1) = Rvec[ieq];
     else
     {
@@ -556,9 +556,10 @@ bool AlgEqSystem::recoverInternals (const Matrix& Rmat, const IntVec& extNodes,
 
   // Construct the full vector
   Vector x(neq0);
-  int ieq, ip2, ieq1 = 0, ieq2 = 0;
+  int ieq, ieq1 = 0, ieq2 = 0;
+  size_t ip2;
   for (ieq = ip2 = 0; ieq < neq0; ieq++)
-    if (ieq+1 < meqn2[ip2])
+    if (ip2 == neq2 || ieq+1 < meqn2[ip2])
       x[ieq] = x1(++ieq1);
     else
     {
-- 
2.43.0


From b3f8bbc690287d43ee216c328fd7e3178fdb895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 038/121] fix: GlbNorm::assemble() with empty norm groups or
 surplus element norms

An empty group of global norms swallowed the next element norm, and
surplus element norms made it access beyond the last group.
---
 src/ASM/GlbNorm.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/GlbNorm.C b/src/ASM/GlbNorm.C
index b566870..9340746 100644
--- a/src/ASM/GlbNorm.C
+++ b/src/ASM/GlbNorm.C
@@ -47,9 +47,9 @@ bool GlbNorm::assemble (const LocalIntegral* elmObj, int elmId)
   size_t i, j, k;
   for (i = j = k = 0; i < elVals.size(); i++)
   {
-    if (j >= myVals[k].size())
+    while (k < myVals.size() && j >= myVals[k].size())
       k++, j = 0;
-    if (k < myVals.size() && j < myVals[k].size())
+    if (k < myVals.size())
       myVals[k][j++] += elVals[i];
     this->applyFinalOp(elVals[i]);
   }
-- 
2.43.0


From a2b16d9c59fcdd05f1bda8df9e8b049d48cfebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 039/121] fix: GlbForceVec with node lists containing a node
 more than once

The force matrix had one column per unique node, but was indexed by the
position in the node list, and the first occurrence had no force.
---
 src/ASM/GlbForceVec.C | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ASM/GlbForceVec.C b/src/ASM/GlbForceVec.C
index 8814b3b..4baef21 100644
--- a/src/ASM/GlbForceVec.C
+++ b/src/ASM/GlbForceVec.C
@@ -32,7 +32,7 @@ bool GlbForceVec::initNodeMap (const std::vector<int>& globalNodes, size_t nfc)
     else
       illegal++;
 
-  F.resize(nfc,nodeMap.size());
+  F.resize(nfc,globalNodes.size());
   if (illegal == 0) return true;
 
   std::cerr <<" *** GlbForceVec::initNodeMap: "<< illegal
@@ -120,8 +120,8 @@ Vec3 GlbForceVec::getTotalForce () const
 
 int GlbForceVec::getForce (size_t indx, Vec3& force) const
 {
-  if (indx < F.cols() && indx < nodeNum.size())
-    force = Vec3(F.getColumn(indx+1));
+  if (indx < nodeNum.size())
+    force = this->getForce(nodeNum[indx]);
   else
     return 0;
 
-- 
2.43.0


From 93049282b1f879321d47935a9050e9057f07fd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 040/121] fix: prescribed values in the recovered solution of a
 condensed system

The recovery matrix accounts for the loads from the prescribed values,
but these values were zero in the recovered solution vector itself.
---
 src/ASM/AlgEqSystem.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index 99c5645..9132e43 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -555,7 +555,7 @@ bool AlgEqSystem::recoverInternals (const Matrix& Rmat, const IntVec& extNodes,
   }
 
   // Construct the full vector
-  Vector x(neq0);
+  StdVector x(neq0);
   int ieq, ieq1 = 0, ieq2 = 0;
   size_t ip2;
   for (ieq = ip2 = 0; ieq < neq0; ieq++)
@@ -568,5 +568,5 @@ bool AlgEqSystem::recoverInternals (const Matrix& Rmat, const IntVec& extNodes,
     }
 
   // Expand to DOF-order
-  return sam.expandVector(x,xFull);
+  return sam.expandSolution(x,xFull);
 }
-- 
2.43.0


From a1a22cc6d677f4427b003be8d595164c008d537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 041/121] fix: adding sparse matrices when the sparsity pattern
 is locked

SparseMatrix::add() refused to add a matrix to an editable matrix with
locked pattern, even when the patterns are identical, and
AlgEqSystem::add() silently ignored that.
---
 src/LinAlg/SparseMatrix.C | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 9991605..c266bb2 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -530,6 +530,16 @@ bool SparseMatrix::add (const SystemMatrix& B, Real alpha)
     for (const ValueMap::value_type& val : Bptr->elem)
       elem[val.first] += alpha*val.second;
 
+  else if (editable && Bptr->editable)
+  {
+    // The sparsity pattern is locked, and must therefore contain that of B
+    for (const ValueMap::value_type& val : Bptr->elem)
+      if (elem.find(val.first) == elem.end())
+        return false;
+
+    for (const ValueMap::value_type& val : Bptr->elem)
+      elem[val.first] += alpha*val.second;
+  }
   else if (!editable && !Bptr->editable)
   {
     // For non-editable matrices the sparsity patterns must match
-- 
2.43.0


From b450a38fb50b73eee38e931775d4ffa02afc035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 042/121] fix: resetting the time when no time step sequence is
 given

---
 src/SIM/TimeStep.C | 14 ++++++++++++++
 src/SIM/TimeStep.h |  5 +++++
 2 files changed, 19 insertions(+)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index d116476..e6fcfeb 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -56,6 +56,7 @@ TimeStep& TimeStep::operator= (const TimeStep& ts)
   time = ts.time;
   if (this == &ts) return *this;
 
+  history = ts.history;
   mySteps = ts.mySteps;
   stepIt = mySteps.begin() + std::distance(ts.mySteps.begin(),
                                            TimeSteps::const_iterator(ts.stepIt));
@@ -207,6 +208,13 @@ bool TimeStep::hasReached (double t) const
 bool TimeStep::reset (int istep)
 {
   if (mySteps.empty()) {
+    if (istep < step && istep < static_cast<int>(history.size())) {
+      // Recover the state after the given step
+      time.t   = history[istep][0];
+      time.dt  = history[istep][1];
+      time.CFL = history[istep][2];
+      time.dtn = istep > 0 ? history[istep-1][1] : 0.0;
+    }
     step = istep;
     return true;
   }
@@ -227,6 +235,12 @@ bool TimeStep::reset (int istep)
 
 bool TimeStep::increment ()
 {
+  if (mySteps.empty() && step >= 0) {
+    // Record the current state, in case of a later reset to it
+    history.resize(step+1,{time.t,time.dt,time.CFL});
+    history.back() = {time.t,time.dt,time.CFL};
+  }
+
   time.dtn = time.dt;
 
   if (maxCFL > 0.0 && time.CFL > 1.0e-12) {
diff --git a/src/SIM/TimeStep.h b/src/SIM/TimeStep.h
index e10d5ca..26d49c4 100644
--- a/src/SIM/TimeStep.h
+++ b/src/SIM/TimeStep.h
@@ -15,6 +15,7 @@
 #define TIME_STEP_H_
 
 #include "TimeDomain.h"
+#include <array>
 #include <iostream>
 #include <vector>
 #include <map>
@@ -93,6 +94,10 @@ private:
   TimeSteps           mySteps; //!< Time step definitions
   TimeSteps::iterator stepIt;  //!< Running iterator over the time steps
 
+  //! \brief Time, step size and CFL number after each step so far.
+  //! \details Used by reset() when no time step definitions are given.
+  std::vector< std::array<double,3> > history;
+
   size_t lstep; //!< Local step counter, i.e., within current \a *stepIt
 };
 
-- 
2.43.0


From c7ee4fbc9b7698254ee4b13a8290e9eb943c4d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 043/121] fix: no update of the convergence acceleration when
 the residual is unchanged

---
 Apps/Utils/SIMCoupledSI.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Apps/Utils/SIMCoupledSI.h b/Apps/Utils/SIMCoupledSI.h
index 4181616..7157df8 100644
--- a/Apps/Utils/SIMCoupledSI.h
+++ b/Apps/Utils/SIMCoupledSI.h
@@ -94,7 +94,9 @@ public:
           if (aitken) {
             Vector r1 = this->getAitkenResidual();
             r1 -= prevRes;
-            omega *= -prevRes.dot(r1) / r1.dot(r1);
+            double dr2 = r1.dot(r1);
+            if (dr2 > 0.0) // otherwise the residual did not change
+              omega *= -prevRes.dot(r1) / dr2;
             if (fabs(omega) < 1e-6) {
               std::cerr <<"\n  ** Relaxation weight "<< omega <<" too small,"
                         <<" resetting to default "<< omega0 << std::endl;
-- 
2.43.0


From 2ab8c650c41eeb41a66c4381a34399f62394b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 044/121] fix: return value from restart is one-based, as
 documented

---
 Apps/Utils/SIMSolver.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Apps/Utils/SIMSolver.h b/Apps/Utils/SIMSolver.h
index dbe203c..2c38fff 100644
--- a/Apps/Utils/SIMSolver.h
+++ b/Apps/Utils/SIMSolver.h
@@ -291,8 +291,10 @@ public:
       IFEM::cout << std::endl;
     }
 
-    if (restartStep < 0)
-      std::cerr <<" *** SIMSolver: Failed to read restart data."<< std::endl;
+    if (restartStep >= 0)
+      return restartStep+1;
+
+    std::cerr <<" *** SIMSolver: Failed to read restart data."<< std::endl;
     return restartStep;
   }
 
-- 
2.43.0


From 34b203461d22118322c9c202ea8fd14a51bbe676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 045/121] fix: uninitialized data pointers of exporter fields

---
 src/Utility/DataExporter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/DataExporter.h b/src/Utility/DataExporter.h
index a243b75..ada054e 100644
--- a/src/Utility/DataExporter.h
+++ b/src/Utility/DataExporter.h
@@ -69,7 +69,7 @@ public:
                              //! \details A negative value indicates that we
                              //! want to use the description as name for the
                              //! primary vector, not the name of the Integrand.
-    const void* data;        //!< Pointer to the primary data (e.g. a SIM class)
+    const void* data = nullptr; //!< Pointer to the primary data (e.g. a SIM class)
     std::vector<const void*> data2; //!< Pointers to the secondary data (e.g. a vector)
     std::string prefix;      //!< Field name prefix
     bool enabled;            //!< Whether or not field is enabled
-- 
2.43.0


From 73d94fcb80db33e607c09cc67e6cfcc7dc77d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 046/121] fix: overwrite of restart data, and empty data sets
 leaving the file open

---
 src/Utility/HDF5Restart.C | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Utility/HDF5Restart.C b/src/Utility/HDF5Restart.C
index d41a9d0..8471b81 100644
--- a/src/Utility/HDF5Restart.C
+++ b/src/Utility/HDF5Restart.C
@@ -113,10 +113,11 @@ bool HDF5Restart::writeData (const SerializeData& data)
         group = H5Gopen2(m_file,str.str().c_str(),H5P_DEFAULT);
       else
         group = H5Gcreate2(m_file,str.str().c_str(),0,H5P_DEFAULT,H5P_DEFAULT);
-      if (!H5Lexists(group, it.first.c_str(), 0)) {
-        int len = pid == p ? it.second.size() : 0;
-        writeGroup(group, it.first, len, it.second.data(), H5T_NATIVE_CHAR);
-      }
+      // Overwrite the existing data if restarting from the same file
+      if (H5Lexists(group, it.first.c_str(), H5P_DEFAULT) > 0)
+        H5Ldelete(group, it.first.c_str(), H5P_DEFAULT);
+      int len = pid == p ? it.second.size() : 0;
+      writeGroup(group, it.first, len, it.second.data(), H5T_NATIVE_CHAR);
       H5Gclose(group);
     }
 
@@ -146,7 +147,10 @@ static herr_t read_restart_data (hid_t group_id, const char* name, void* data)
   hid_t setId = H5Dopen2(group_id,name,H5P_DEFAULT);
   if (setId < 0) return setId; // Result set not found
   hsize_t siz = H5Dget_storage_size(setId);
-  if (siz < 1) return 0; // Empty result set
+  if (siz < 1) {
+    H5Dclose(setId);
+    return 0; // Empty result set
+  }
   char* cdata = new char[siz];
   H5Dread(setId,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,cdata);
   H5Dclose(setId);
-- 
2.43.0


From 76bab073f71302d76d4c985fc19595a520027935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 047/121] fix: second step of second order BDF with varying
 step size

---
 src/Utility/BDF.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/BDF.C b/src/Utility/BDF.C
index 64aefd5..698b5ea 100644
--- a/src/Utility/BDF.C
+++ b/src/Utility/BDF.C
@@ -49,7 +49,7 @@ bool TimeIntegration::BDF::advanceStep (double dt, double dtn)
   if (coefs1.size() < 2)
     return false; // stationary problem
 
-  if (++step > 2 && degree == 1 && coefs.size() == 3 && dt > 0.0 && dtn > 0.0)
+  if (++step > 1 && degree == 1 && coefs.size() == 3 && dt > 0.0 && dtn > 0.0)
   {
     double tau = dt/dtn;
     double taup1 = tau + 1.0;
-- 
2.43.0


From 9022555fe0d6a75ede8ba69f67ae2506867eb554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 048/121] fix: linear Runge-Kutta schemes lost the mass matrix
 after a cut-back or restart

---
 Apps/Utils/SIMExplicitRK.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Apps/Utils/SIMExplicitRK.h b/Apps/Utils/SIMExplicitRK.h
index dcace82..a150398 100644
--- a/Apps/Utils/SIMExplicitRK.h
+++ b/Apps/Utils/SIMExplicitRK.h
@@ -122,7 +122,7 @@ public:
         return false;
 
       if (!solver.assembleSystem(time, Vectors(1, tmp),
-                                 !linear || (tp.step == 1 && i == 0)))
+                                 !linear || assemble))
         return false;
 
       // solve Mk = Au + f
-- 
2.43.0


From 40bb5aaa4ad0d0150d7f03983b4f2ee58e558889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 049/121] fix: failure in error estimate of embedded
 Runge-Kutta schemes was ignored

---
 Apps/Utils/SIMExplicitRKE.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Apps/Utils/SIMExplicitRKE.h b/Apps/Utils/SIMExplicitRKE.h
index 54e98a3..e1e656a 100644
--- a/Apps/Utils/SIMExplicitRKE.h
+++ b/Apps/Utils/SIMExplicitRKE.h
@@ -93,7 +93,8 @@ public:
       // construct the error estimate
       for (size_t i=0;i<stages.size();++i)
         error.add(stages[i], tp.time.dt*bs[i]);
-      this->solver.applyDirichlet(error);
+      if (!this->solver.applyDirichlet(error))
+        return false;
       error -= this->solver.getSolution();
 
       const size_t nf = this->solver.getNoFields(1);
-- 
2.43.0


From e889f0132da5945fbaef50090e48047c4b5d7427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 050/121] fix: restart of Adams-Bashforth schemes used loads
 that do not exist

---
 Apps/Utils/SIMExplicitLMM.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Apps/Utils/SIMExplicitLMM.h b/Apps/Utils/SIMExplicitLMM.h
index 93e1852..5cb8c08 100644
--- a/Apps/Utils/SIMExplicitLMM.h
+++ b/Apps/Utils/SIMExplicitLMM.h
@@ -83,7 +83,7 @@ public:
       return false;
 
     if (!solver.assembleSystem(time, Vectors(1, solver.getSolution(1)),
-                               !linear || (tp.step == 1)))
+                               !linear || assemble))
       return false;
 
     loads[0].reset(solver.getRHSvector(0, true));
@@ -96,7 +96,9 @@ public:
        {251.0/720.0, -1274.0/720.0, 2616.0/720.0, -2774.0/720.0, 1901.0/720.0}
     };
 
-    const int c_order = hasICs ? order-1 : std::min(order-1, tp.step-1);
+    int c_order = hasICs ? order-1 : std::min(order-1, tp.step-1);
+    while (c_order > 0 && !loads[c_order])
+      --c_order; // no load history, start up again (in case of restart)
     const std::vector<double>& AB_coef = AB_coefs[c_order];
 
     SystemVector* rhs = solver.getRHSvector(0, false);
@@ -108,8 +110,10 @@ public:
     if (!solver.solveSystem(solver.getSolution()))
       return false;
 
-    if (linear)
+    if (linear) {
       solver.setMode(SIM::RHS_ONLY);
+      assemble = false;
+    }
 
     solver.getSolution() += solver.getSolution(1);
 
@@ -206,6 +210,7 @@ protected:
   const std::string fieldName; //!< Name of primary solution fields (for ICs)
   bool hasICs = false; //!< If true, start with full order
   bool linear = false; //!< If true, mass matrix is constant
+  bool assemble = true; //!< If true, assemble mass matrix
 };
 
 }
-- 
2.43.0


From b407574eca17e60c910109ed0e7128b12fe1893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 051/121] fix: start, restart and failure of Adams-Moulton
 schemes

---
 Apps/Utils/SIMImplicitLMM.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Apps/Utils/SIMImplicitLMM.h b/Apps/Utils/SIMImplicitLMM.h
index ef27d74..69f07fc 100644
--- a/Apps/Utils/SIMImplicitLMM.h
+++ b/Apps/Utils/SIMImplicitLMM.h
@@ -74,7 +74,9 @@ public:
        {1.0/24.0, -5.0/24, 19.0/24.0, 9.0/24.0},
        {-19.0/720.0, 106.0/720.0, -264.0/720.0, 646.0/720.0, 251.0/720.0}};
 
-    const int c_order = hasICs ? order-1 : std::min(order-1, tp.step-1);
+    int c_order = hasICs ? order-1 : std::min(order-1, tp.step-1);
+    while (c_order > 0 && !loads[c_order])
+      --c_order; // no load history, start up again (in case of restart)
     nSim.setCoefs(AM_coefs[c_order]);
 
     nSim.initSol(2);
@@ -106,8 +108,8 @@ public:
         if (std::string fName = fieldName + std::to_string(j);
             solver.hasIC(fName)) {
           TimeDomain time(tp.time);
-          time.t = tp.time.t - j*tp.time.dt;
-          if (!solver.assembleSystem(time, Vectors(1, solver.getSolution(j-1))))
+          time.t = tp.time.t - (j-1)*tp.time.dt;
+          if (!solver.assembleSystem(time, Vectors(1, solver.getSolution(j-2))))
             return false;
 
           loads[j-2] = solver.getRHSvector(0, true);
@@ -119,6 +121,7 @@ public:
     delete loads.back();
     for (int j = order-2; j >= 0; --j)
       loads[j+1] = loads[j];
+    loads[0] = nullptr;
 
     return solver.advanceStep(tp);
   }
-- 
2.43.0


From 79c0b03eb39eb85a9655b6756f25915003641cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 052/121] fix: polynomial function of the expression language

The argument itself was also used as the coefficient of the leading term.
---
 3rdparty/expreval/func.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/3rdparty/expreval/func.cpp b/3rdparty/expreval/func.cpp
index aba34ca..9739725 100644
--- a/3rdparty/expreval/func.cpp
+++ b/3rdparty/expreval/func.cpp
@@ -1558,9 +1558,9 @@ namespace
 
             errno = 0;
 
-            for (const auto& node : this->m_nodes)
+            for (size_t pos = 1; pos < this->m_nodes.size(); pos++)
             {
-                total += node->Evaluate() * pow(x, curpow);
+                total += this->m_nodes[pos]->Evaluate() * pow(x, curpow);
                 curpow -= 1.0;
             }
 
-- 
2.43.0


From a555faec620d49029a4e59cb7098b1c89f698966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 053/121] fix: underflow in exp() reported as an error in
 enclosing functions

---
 3rdparty/expreval/func.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/3rdparty/expreval/func.cpp b/3rdparty/expreval/func.cpp
index 9739725..4c871d0 100644
--- a/3rdparty/expreval/func.cpp
+++ b/3rdparty/expreval/func.cpp
@@ -776,6 +776,7 @@ namespace
 
             if (errno && x > Value(0.0)) // Fixed: No exception on underflow
                 throw(MathException(this->GetName()));
+            errno = 0; // also not in functions having this one as argument
 
             return result;
         }
-- 
2.43.0


From b7e213f9eabc8e5cfde87d56cf4b6bfc8aaffd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 054/121] fix: refuse malformed expressions

A token that is not a number was accepted as one with undefined value,
assignment to something not an identifier was accepted, and the syntax error
was reported for a token past the end of the expression.
---
 3rdparty/expreval/node.cpp   | 5 +++--
 3rdparty/expreval/parser.cpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/3rdparty/expreval/node.cpp b/3rdparty/expreval/node.cpp
index 07e9efc..7bcee32 100644
--- a/3rdparty/expreval/node.cpp
+++ b/3rdparty/expreval/node.cpp
@@ -429,7 +429,8 @@ void AssignNode<Value>::Parse(Parser<Value> &parser,
                               typename Parser<Value>::size_type v1)
 {
     // Check some basic syntax
-    if(v1 != start + 1 || v1 >= end)
+    if(v1 != start + 1 || v1 >= end ||
+       parser[start].GetType() != Token::TypeIdentifier)
     {
         SyntaxException e;
         
@@ -911,7 +912,7 @@ void ValueNode<Value>::Parse(Parser<Value> &parser,
                              typename Parser<Value>::size_type v1)
 {
     // Check basic syntax
-    if(start != end)
+    if(start != end || parser[start].GetType() != Token::TypeValue)
     {
         SyntaxException e;
         
diff --git a/3rdparty/expreval/parser.cpp b/3rdparty/expreval/parser.cpp
index fa28a48..32ac869 100644
--- a/3rdparty/expreval/parser.cpp
+++ b/3rdparty/expreval/parser.cpp
@@ -514,8 +514,8 @@ Node<Value> *Parser<Value>::ParseRegion(Parser::size_type start, Parser::size_ty
         // Unknown, syntax
         SyntaxException e;
         
-        e.SetStart(m_tokens[pos].GetStart());
-        e.SetEnd(m_tokens[pos].GetEnd());
+        e.SetStart(m_tokens[start].GetStart());
+        e.SetEnd(m_tokens[end].GetEnd());
         
         throw(e);
     }
-- 
2.43.0


From e3a8a895e89795957f93213551b56f90849e0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 055/121] fix: undefined derivatives by automatic
 differentiation

The exception was not caught, as it is for the function value and for scalar
functions, and ended the program.
---
 src/Utility/ExprFunctions.C | 64 ++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/src/Utility/ExprFunctions.C b/src/Utility/ExprFunctions.C
index 2dcf923..d99a2df 100644
--- a/src/Utility/ExprFunctions.C
+++ b/src/Utility/ExprFunctions.C
@@ -475,8 +475,15 @@ Real EvalFuncSpatial<autodiff::var>::deriv (const Vec3& X, int dir) const
   *arg[i].t = Xt ? Xt->t : Real(0);
 
   // Evaluate spatial derivative using auto-diff
-  return derivativesx(expr[i]->Evaluate(),
-                      autodiff::wrt(arg[i].get(dir)))[0].expr->val;
+  try {
+    return derivativesx(expr[i]->Evaluate(),
+                        autodiff::wrt(arg[i].get(dir)))[0].expr->val;
+  }
+  catch (ExprEval::Exception& e) {
+    ExprException(e,"evaluating expression");
+  }
+
+  return Real(0);
 }
 
 
@@ -511,9 +518,16 @@ Real EvalFuncSpatial<autodiff::var>::dderiv (const Vec3& X, int d1, int d2) cons
   *arg[i].z = X.z;
   *arg[i].t = Xt ? Xt->t : Real(0);
 
-  return derivativesx(derivativesx(expr[i]->Evaluate(),
-                                   autodiff::wrt(arg[i].get(d1)))[0],
-                                   autodiff::wrt(arg[i].get(d2)))[0].expr->val;
+  try {
+    return derivativesx(derivativesx(expr[i]->Evaluate(),
+                                     autodiff::wrt(arg[i].get(d1)))[0],
+                                     autodiff::wrt(arg[i].get(d2)))[0].expr->val;
+  }
+  catch (ExprEval::Exception& e) {
+    ExprException(e,"evaluating expression");
+  }
+
+  return Real(0);
 }
 
 
@@ -534,10 +548,17 @@ Vec3 EvalFuncSpatial<autodiff::var>::gradient (const Vec3& X) const
   *arg[i].z = X.z;
   *arg[i].t = Xt ? Xt->t : Real(0);
 
-  const auto dx = derivativesx(expr[i]->Evaluate(),
-                               autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
+  try {
+    const auto dx = derivativesx(expr[i]->Evaluate(),
+                                 autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
+
+    return Vec3(dx[0].expr->val, dx[1].expr->val, dx[2].expr->val);
+  }
+  catch (ExprEval::Exception& e) {
+    ExprException(e,"evaluating expression");
+  }
 
-  return Vec3(dx[0].expr->val, dx[1].expr->val, dx[2].expr->val);
+  return Vec3();
 }
 
 
@@ -558,20 +579,27 @@ SymmTensor EvalFuncSpatial<autodiff::var>::hessian (const Vec3& X) const
   *arg[i].z = X.z;
   *arg[i].t = Xt ? Xt->t : Real(0);
 
-  const auto dx =
-    derivativesx(expr[i]->Evaluate(), autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
+  try {
+    const auto dx =
+      derivativesx(expr[i]->Evaluate(), autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
+
+    const auto [uxx, uxy, uxz] =
+      derivativesx(dx[0], autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
 
-  const auto [uxx, uxy, uxz] =
-    derivativesx(dx[0], autodiff::wrt(*arg[i].x, *arg[i].y, *arg[i].z));
+    const auto [uyy, uyz] =
+      derivativesx(dx[1], autodiff::wrt(*arg[i].y, *arg[i].z));
 
-  const auto [uyy, uyz] =
-    derivativesx(dx[1], autodiff::wrt(*arg[i].y, *arg[i].z));
+    const auto [uzz] =
+      derivativesx(dx[2], autodiff::wrt(*arg[i].z));
 
-  const auto [uzz] =
-    derivativesx(dx[2], autodiff::wrt(*arg[i].z));
+    return SymmTensor({uxx.expr->val, uyy.expr->val, uzz.expr->val,
+                       uxy.expr->val, uyz.expr->val, uxz.expr->val});
+  }
+  catch (ExprEval::Exception& e) {
+    ExprException(e,"evaluating expression");
+  }
 
-  return SymmTensor({uxx.expr->val, uyy.expr->val, uzz.expr->val,
-                     uxy.expr->val, uyz.expr->val, uxz.expr->val});
+  return SymmTensor(3);
 }
 
 
-- 
2.43.0


From 041957625d84a033a47f5ecc613c17add8a944ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 056/121] fix: derivatives of multi-component functions with
 variables

The variables were added twice, without delimiter when not given with one.
---
 src/Utility/ExprFunctions.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/ExprFunctions.C b/src/Utility/ExprFunctions.C
index d99a2df..5ebc0ba 100644
--- a/src/Utility/ExprFunctions.C
+++ b/src/Utility/ExprFunctions.C
@@ -646,7 +646,7 @@ void EvalFunctions<Scalar>::addDerivative (const std::string& functions,
 {
   std::vector<std::string> components = splitComps(functions,variables);
   for (size_t i = 0; i < p.size() && i < components.size(); i++)
-    p[i]->addDerivative(components[i],variables,d1,d2);
+    p[i]->addDerivative(components[i],"",d1,d2);
 }
 
 
-- 
2.43.0


From cca87c82cd6a806ffe85663b80601041b9fc0cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:56 +0000
Subject: [PATCH 057/121] fix: derivatives of the polynomial function in zero

---
 3rdparty/expreval/func.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/3rdparty/expreval/func.cpp b/3rdparty/expreval/func.cpp
index 4c871d0..aa7b0f4 100644
--- a/3rdparty/expreval/func.cpp
+++ b/3rdparty/expreval/func.cpp
@@ -1550,23 +1550,13 @@ namespace
         Value DoEvaluate() override
         {
             Value total = 0.0;
-            double curpow;
-
-            curpow = (double)(this->m_nodes.size() - 2);
 
             // Value of x
             Value x = this->m_nodes[0]->Evaluate();
 
-            errno = 0;
-
+            // Horner's scheme, such that also the derivatives exist for x=0
             for (size_t pos = 1; pos < this->m_nodes.size(); pos++)
-            {
-                total += this->m_nodes[pos]->Evaluate() * pow(x, curpow);
-                curpow -= 1.0;
-            }
-
-            if(errno)
-                throw(MathException(this->GetName()));
+                total = total * x + this->m_nodes[pos]->Evaluate();
 
             return total;
         }
-- 
2.43.0


From 2595ba6a8a6d5f63e9949f09547bfc35e8e6be75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:56 +0000
Subject: [PATCH 058/121] fix: undefined base of logn() not detected

The error flag was reset when the other argument was evaluated afterwards.
---
 3rdparty/expreval/func.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/3rdparty/expreval/func.cpp b/3rdparty/expreval/func.cpp
index aa7b0f4..3ae556e 100644
--- a/3rdparty/expreval/func.cpp
+++ b/3rdparty/expreval/func.cpp
@@ -810,16 +810,19 @@ namespace
 
         Value DoEvaluate() override
         {
+            Value x = this->m_nodes[0]->Evaluate();
+            Value y = this->m_nodes[1]->Evaluate();
+
             errno = 0;
 
             // Check for division by zero
-            Value tmp = log(this->m_nodes[1]->Evaluate());
+            Value tmp = log(y);
 
             if(tmp == 0.0)
                 throw(MathException(this->GetName()));
 
             // Calculate result
-            Value result = log(this->m_nodes[0]->Evaluate()) / tmp;
+            Value result = log(x) / tmp;
 
             if(errno)
                 throw(MathException(this->GetName()));
-- 
2.43.0


From 80770d2b98d26909df74d0cc6f5167bf46e4ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:59 +0000
Subject: [PATCH 059/121] fix: step and dirac functions are not
 time-independent

---
 src/Utility/Functions.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utility/Functions.h b/src/Utility/Functions.h
index 4cd22ca..49b51d5 100644
--- a/src/Utility/Functions.h
+++ b/src/Utility/Functions.h
@@ -156,6 +156,8 @@ public:
 
   //! \brief Returns whether the function is identically zero or not.
   bool isZero() const override { return amp == Real(0); }
+  //! \brief Returns whether the function is time-independent or not.
+  bool isConstant() const override { return this->isZero(); }
 
 protected:
   //! \brief Evaluates the function at \a x.
@@ -178,6 +180,8 @@ public:
 
   //! \brief Returns whether the function is identically zero or not.
   bool isZero() const override { return amp == Real(0); }
+  //! \brief Returns whether the function is time-independent or not.
+  bool isConstant() const override { return this->isZero(); }
 
 protected:
   //! \brief Evaluates the function at \a x.
-- 
2.43.0


From 5ef8962ff13a98c0ab668b427d2a30bb9327ab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:59 +0000
Subject: [PATCH 060/121] fix: the time derivative of traction and pressure
 fields was never used

---
 src/Utility/TractionField.C | 4 ++--
 src/Utility/TractionField.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Utility/TractionField.C b/src/Utility/TractionField.C
index 1987db1..ccd4e1c 100644
--- a/src/Utility/TractionField.C
+++ b/src/Utility/TractionField.C
@@ -41,7 +41,7 @@ Vec3 TractionField::evaluate (const Vec3& x, const Vec3& n) const
 }
 
 
-Vec3 TractionField::deriv (const Vec3& x, const Vec3& n) const
+Vec3 TractionField::timeDerivative (const Vec3& x, const Vec3& n) const
 {
   if (sigma) // symmetric tensor field
     return sigma->deriv(x,4) * n;
@@ -90,7 +90,7 @@ Vec3 PressureField::evaluate (const Vec3& x, const Vec3& n) const
 }
 
 
-Vec3 PressureField::deriv (const Vec3& x, const Vec3& n) const
+Vec3 PressureField::timeDerivative (const Vec3& x, const Vec3& n) const
 {
   if (!pressure) // zero pressure field
     return Vec3();
diff --git a/src/Utility/TractionField.h b/src/Utility/TractionField.h
index 87f041d..cce6a4c 100644
--- a/src/Utility/TractionField.h
+++ b/src/Utility/TractionField.h
@@ -50,7 +50,7 @@ public:
   //! \brief Returns the time-derivative of the function.
   //! \param[in] x Global coordinates of evaluation point
   //! \param[in] n Outward-directed unit normal vector at evaluation point
-  virtual Vec3 deriv(const Vec3& x, const Vec3& n) const;
+  Vec3 timeDerivative(const Vec3& x, const Vec3& n) const override;
 
 protected:
   //! \brief Evaluates the traction field function at the specified point.
@@ -103,7 +103,7 @@ public:
   //! \brief Returns the time-derivative of the function.
   //! \param[in] x Global coordinates of evaluation point
   //! \param[in] n Outward-directed unit normal vector at evaluation point
-  virtual Vec3 deriv(const Vec3& x, const Vec3& n) const;
+  Vec3 timeDerivative(const Vec3& x, const Vec3& n) const override;
 
 protected:
   //! \brief Evaluates the traction field function at the specified point.
-- 
2.43.0


From 6e0edcba46727136d173e4a0430f6bb6ca1f2a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:57 +0000
Subject: [PATCH 061/121] fix: force direction vector was scaled as if being an
 angle

---
 src/Utility/TractionField.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utility/TractionField.C b/src/Utility/TractionField.C
index ccd4e1c..755921a 100644
--- a/src/Utility/TractionField.C
+++ b/src/Utility/TractionField.C
@@ -139,11 +139,12 @@ Vec3 ForceDirField::evaluate (const Vec3& x, const Vec3&) const
   Tensor Trot(3,true);
   if (fdir)
   {
-    Fdir = (*fdir)(time)*(M_PI/Real(180));
+    Fdir = (*fdir)(time);
     if (dirVec) // fdir gives the force direction
       Trot = Tensor(Tlg[2],Fdir,true);
     else // fdir gives rotation angles w.r.t. the local axes
     {
+      Fdir *= M_PI/Real(180);
       Trot = Tensor(Fdir.x,Fdir.y,Fdir.z);
       Fdir = Trot[1];
     }
-- 
2.43.0


From 0b323f1ee2daa8520fdb2404175c441ace540cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:57 +0000
Subject: [PATCH 062/121] fix: product of space and time functions with time-
 or patch-dependent space function

---
 src/Utility/Functions.C | 17 +++++++++--------
 src/Utility/Functions.h | 15 ++++++++++++---
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index 4b681df..2e44d1d 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -424,22 +424,23 @@ Real SpaceTimeFunc::evaluate (const Vec3& X) const
 Real SpaceTimeFunc::deriv (const Vec3& X, int dir) const
 {
   const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
+  const Real   t = Xt ? Xt->t : Real(0);
   if (dir < 4)
-    return sfunc->deriv(X,dir) * (*tfunc)(Xt ? Xt->t : Real(0));
+    return sfunc->deriv(X,dir) * (*tfunc)(t);
   else
-    return (*sfunc)(X) * tfunc->deriv(Xt ? Xt->t : Real(0));
+    return (*sfunc)(X) * tfunc->deriv(t) + sfunc->deriv(X,4) * (*tfunc)(t);
 }
 
 
 Real SpaceTimeFunc::dderiv (const Vec3& X, int dir1, int dir2) const
 {
   const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
+  const Real   t = Xt ? Xt->t : Real(0);
   if (dir1 < 4 && dir2 < 4)
-    return sfunc->dderiv(X,dir1,dir2) * (*tfunc)(Xt ? Xt->t : Real(0));
-  else if (dir1 < 4)
-    return sfunc->deriv(X,dir1) * tfunc->deriv(Xt ? Xt->t : Real(0));
-  else if (dir2 < 4)
-    return sfunc->deriv(X,dir2) * tfunc->deriv(Xt ? Xt->t : Real(0));
+    return sfunc->dderiv(X,dir1,dir2) * (*tfunc)(t);
+  else if (dir1 < 4 || dir2 < 4)
+    return sfunc->deriv(X,std::min(dir1,dir2)) * tfunc->deriv(t)
+      + sfunc->dderiv(X,dir1,dir2) * (*tfunc)(t);
   else
     return Real(0);
 }
@@ -718,7 +719,7 @@ const RealFunc* utl::parseRealFunc (char* cline, Real A, bool print)
     quadratic = 3;
 
   Real C = A;
-  const RealFunc* f = nullptr;
+  RealFunc* f = nullptr;
   if (linear+quadratic > 0)
     cline = strtok(nullptr," "); // get first function parameter
 
diff --git a/src/Utility/Functions.h b/src/Utility/Functions.h
index 49b51d5..b898ead 100644
--- a/src/Utility/Functions.h
+++ b/src/Utility/Functions.h
@@ -275,19 +275,28 @@ protected:
 
 class SpaceTimeFunc : public RealFunc
 {
-  const RealFunc*   sfunc; //!< The space-dependent term
+  RealFunc*         sfunc; //!< The space-dependent term
   const ScalarFunc* tfunc; //!< The time-dependent term
 
 public:
   //! \brief Constructor initializing the function terms.
-  SpaceTimeFunc(const RealFunc* s, const ScalarFunc* t) : sfunc(s), tfunc(t) {}
+  SpaceTimeFunc(RealFunc* s, const ScalarFunc* t) : sfunc(s), tfunc(t) {}
   //! \brief The destructor frees the space and time functions.
   virtual ~SpaceTimeFunc() { delete sfunc; delete tfunc; }
 
   //! \brief Returns whether the function is identically zero or not.
   bool isZero() const override { return sfunc->isZero() || tfunc->isZero(); }
   //! \brief Returns whether the function is time-independent or not.
-  bool isConstant() const override { return tfunc->isConstant(); }
+  bool isConstant() const override
+  {
+    return this->isZero() || (sfunc->isConstant() && tfunc->isConstant());
+  }
+
+  //! \brief Sets the active patch.
+  bool initPatch(size_t idx) override { return sfunc->initPatch(idx); }
+
+  //! \brief Checks if a specified point is within the function domain.
+  bool inDomain(const Vec3& X) const override { return sfunc->inDomain(X); }
 
   //! \brief Returns first-derivative of the function.
   Real deriv(const Vec3& X, int dir) const override;
-- 
2.43.0


From 93f6f3e6f7cb5849371ea2d020bb5c1e400a60a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:57 +0000
Subject: [PATCH 063/121] fix: out-of-bounds access for the time derivative of
 Chebyshev functions

---
 src/Utility/Chebyshev.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utility/Chebyshev.C b/src/Utility/Chebyshev.C
index ea03879..19fb0f9 100644
--- a/src/Utility/Chebyshev.C
+++ b/src/Utility/Chebyshev.C
@@ -138,7 +138,7 @@ Real ChebyshevFunc::evaluateTP (const Vec3& X,
 
 Real ChebyshevFunc::deriv (const Vec3& X, int c) const
 {
-  if (n[c-1] == 1)
+  if (c > 3 || n[c-1] == 1)
     return 0.0;
 
   const Func der{Chebyshev::evalDer1, 2.0 / (domain[c-1][1]-domain[c-1][0])};
@@ -152,7 +152,7 @@ Real ChebyshevFunc::deriv (const Vec3& X, int c) const
 
 Real ChebyshevFunc::dderiv (const Vec3& X, int c1, int c2) const
 {
-  if (n[c1-1] == 1 || n[c2-1] == 1)
+  if (c1 > 3 || c2 > 3 || n[c1-1] == 1 || n[c2-1] == 1)
     return 0.0;
 
   const Func eval{Chebyshev::evalPol1, 1.0};
-- 
2.43.0


From b934fb0bd64aa5b89cd86da911b25ccd3337260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:57 +0000
Subject: [PATCH 064/121] fix: one-component vector-valued Chebyshev functions

---
 src/Utility/Chebyshev.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/Chebyshev.C b/src/Utility/Chebyshev.C
index 19fb0f9..87d4d73 100644
--- a/src/Utility/Chebyshev.C
+++ b/src/Utility/Chebyshev.C
@@ -177,7 +177,7 @@ ChebyshevVecFunc::ChebyshevVecFunc (const std::vector<std::string>& input,
 {
   for (size_t i = 0; i < input.size() && i < 3; i++)
     f[i] = std::make_unique<ChebyshevFunc>(input[i], file);
-  if (f.front()->getSize()[2] == 1)
+  if (ncmp > 2 && f.front()->getSize()[2] == 1)
     ncmp = 2;
 }
 
-- 
2.43.0


From 3dd4c4cc7a776f8ef752c4a65c174dd2767831c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:57 +0000
Subject: [PATCH 065/121] fix: scaling factor of field and Chebyshev functions
 was ignored

---
 src/Utility/Functions.C | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index 2e44d1d..2fd1a37 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -725,7 +725,8 @@ const RealFunc* utl::parseRealFunc (char* cline, Real A, bool print)
 
   if (linear > 0 && cline)
   {
-    C = Real(1);
+    if (linear < 9)
+      C = Real(1);
     if (print) {
       IFEM::cout <<"("<< A <<"*";
       if (linear < 4)
@@ -868,7 +869,12 @@ const RealFunc* utl::parseRealFunc (char* cline, Real A, bool print)
   }
 
   // Check for time variation
-  if (!cline) return f; // constant in time
+  if (!cline) // constant in time
+  {
+    if (linear > 8 && f && C != Real(1))
+      return new SpaceTimeFunc(f,new ConstantFunc(C));
+    return f;
+  }
 
   if (print)
     IFEM::cout <<" * ";
-- 
2.43.0


From df857ee6d3a874884499254e0d0e0d2694e2c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:57 +0000
Subject: [PATCH 066/121] fix: time derivative of the rotation functions

---
 src/Utility/Functions.C | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index 2fd1a37..b5bc25f 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -573,7 +573,7 @@ Real LinearRotZFunc::evaluate (const Vec3& X) const
 
 Real LinearRotZFunc::deriv (const Vec3& X, int dir) const
 {
-  if (dir > 2) return Real(0);
+  if (dir == 3) return Real(0);
 
   // Always return zero if the argument has no time component
   const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
@@ -583,8 +583,12 @@ Real LinearRotZFunc::deriv (const Vec3& X, int dir) const
     return rX ?  cos(A*Xt->t) - Real(1) : sin(A*Xt->t);
   else if (dir == 2)
     return rX ? -sin(A*Xt->t) : cos(A*Xt->t) - Real(1);
-  else
-    return Real(0);
+
+  Real x = X.x - x0;
+  Real y = X.y - y0;
+  Real c = A*cos(A*Xt->t);
+  Real s = A*sin(A*Xt->t);
+  return rX ? -x*s-y*c : x*c-y*s;
 }
 
 
-- 
2.43.0


From ea5c31b78ab66bc388bf233fa103e7487166c1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 067/121] fix: undefined values from blank lines in tabulated
 functions

---
 src/Utility/Functions.C | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index b5bc25f..ec333eb 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -178,7 +178,8 @@ LinearFunc::LinearFunc (const char* file, int c, Real s) : scale(s)
     if (temp[0] == '#') continue;
     std::stringstream str(temp);
     Real x, v;
-    str >> x >> v;
+    if (!(str >> x >> v))
+      continue; // no values on this line
     if (c < 2)
       std::swap(x,v);
     else for (int i = 2; i < c; i++)
@@ -298,7 +299,8 @@ LinVecFunc::LinVecFunc (const char* file, int c)
     std::stringstream str(temp);
     Real x;
     Vec3 v;
-    str >> x;
+    if (!(str >> x))
+      continue; // no values on this line
     for (int i = 2; i < c; i++) str >> v.x;
     str >> v;
     if (fvals.empty() || fvals.back().first <= x)
-- 
2.43.0


From 534176ce027afb2673f3d020869e2e7e90ca28d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 068/121] fix: scaling factor of Interpolate1D functions was
 ignored

---
 src/Utility/Functions.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index ec333eb..dba9c69 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -731,7 +731,7 @@ const RealFunc* utl::parseRealFunc (char* cline, Real A, bool print)
 
   if (linear > 0 && cline)
   {
-    if (linear < 9)
+    if (linear < 8)
       C = Real(1);
     if (print) {
       IFEM::cout <<"("<< A <<"*";
@@ -877,7 +877,7 @@ const RealFunc* utl::parseRealFunc (char* cline, Real A, bool print)
   // Check for time variation
   if (!cline) // constant in time
   {
-    if (linear > 8 && f && C != Real(1))
+    if (linear > 7 && f && C != Real(1))
       return new SpaceTimeFunc(f,new ConstantFunc(C));
     return f;
   }
-- 
2.43.0


From 04df43b2d4edd605dcb306caf7e8e7241f700bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 069/121] fix: copy and assignment of tensors with different
 storage layout

---
 src/Utility/Tensor.C | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index 7861337..3d6ce6d 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -184,8 +184,13 @@ Tensor::Tensor (Real a1, Real a2, Real a3) : n(3)
 
 Tensor::Tensor (const Tensor& T, bool transpose) : n(T.n)
 {
-  v.resize(n*n);
-  std::copy(T.v.begin(),T.v.end(),v.begin());
+  v.resize(n*n,Real(0));
+  if (T.symmetric())
+    for (t_ind i = 1; i <= n; i++)
+      for (t_ind j = 1; j <= n; j++)
+        THIS(i,j) = T(i,j);
+  else
+    std::copy(T.v.begin(),T.v.end(),v.begin());
 
   if (transpose)
     this->transpose();
@@ -245,11 +250,12 @@ Vec3 Tensor::operator[] (t_ind i) const
 
 Tensor& Tensor::operator= (const Tensor& T)
 {
-  if (v.size() == T.v.size())
+  if (v.size() == T.v.size() && this->symmetric() == T.symmetric())
     std::copy(T.v.begin(),T.v.end(),v.begin());
   else
   {
     // Handle different dimensions and/or symmetry
+    const bool has33 = T.n > 2 || (T.v.size() == 4 && T.symmetric());
     t_ind ndim = T.n;
     if (n > ndim)
       this->zero();
@@ -259,13 +265,10 @@ Tensor& Tensor::operator= (const Tensor& T)
       for (t_ind j = (this->symmetric() ? i : 1); j <= ndim; j++)
         THIS(i,j) = T(i,j);
 
-    if (T.v.size() >= 4 && T.symmetric())
-    {
-      if (v.size() == 4 && this->symmetric())
-        v[2] = T(3,3);
-      else if (v.size() == 9)
-        v[8] = T(3,3);
-    }
+    if (v.size() == 4 && this->symmetric())
+      v[2] = has33 ? T(3,3) : Real(0);
+    else if (n > 2 && has33)
+      THIS(3,3) = T(3,3);
   }
 
   return *this;
-- 
2.43.0


From c1cd82354f7d8c1b69f5f9df09944fbc2c79aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 070/121] fix: out-of-bounds access when assigning a scalar to
 a symmetric tensor

---
 src/Utility/Tensor.C | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index 3d6ce6d..a564898 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -295,10 +295,13 @@ Tensor& Tensor::operator= (Real val)
 {
   this->zero();
 
-  t_ind i, j;
-  for (i = j = 0; i < n; i++, j += n+1)
+  t_ind i, j, inc = this->symmetric() ? 1 : n+1;
+  for (i = j = 0; i < n; i++, j += inc)
     v[j] = val;
 
+  if (inc == 1 && v.size() == 4)
+    v[2] = val;
+
   return *this;
 }
 
-- 
2.43.0


From 19b394c4bdc975b6f879b703c50d8eba75c1a2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 071/121] fix: buffer overflow and wrong storage order for
 plane strain tensors

---
 src/Utility/Tensor.C | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index a564898..9b0500c 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -813,10 +813,11 @@ SymmTensor::SymmTensor (const t_ind nsd, bool with33) : Tensor(0)
 
 bool SymmTensor::redim (const t_ind nsd, bool with33)
 {
-  if (n == nsd) return false;
+  const size_t nval = nsd == 2 && with33 ? 4 : nsd*(nsd+1)/2;
+  if (n == nsd && v.size() == nval) return false;
 
   const_cast<t_ind&>(n) = nsd;
-  v.resize(nsd == 2 && with33 ? 4 : n*(n+1)/2, Real(0));
+  v.resize(nval, Real(0));
   return true;
 }
 
-- 
2.43.0


From 2ba3e7b2e6efb8bb41b8e0d36316e9055cf52fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 072/121] fix: outer product of plane strain tensors

---
 src/Utility/Tensor.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index 9b0500c..214366b 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -1076,7 +1076,9 @@ SymmTensor& SymmTensor::outerProd (const Vec3& u)
   case 2:
     v[0] = u.x*u.x;
     v[1] = u.y*u.y;
-    v[2] = u.x*u.y;
+    if (v.size() == 4)
+      v[2] = u.z*u.z;
+    v.back() = u.x*u.y;
     break;
 
   case 3:
-- 
2.43.0


From aed530951cb8b0f3ca77a46135b4f23ebf937c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 073/121] fix: principal values of hydrostatic tensors

---
 src/Utility/Tensor.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index 214366b..ee3cda2 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -1190,7 +1190,7 @@ bool SymmTensor::principal (Vec3& p, bool sorted) const
   Real b2 = (s1*s1 + s2*s2 + s3*s3)/Real(2) + c1 + c2 + c3;
   if (b2 <= tol*b1*b1)
   {
-    p = s1;
+    p = b1;
     return true;
   }
 
-- 
2.43.0


From dbcf856f9d9d7008a54c56150455b52b850b43b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 074/121] fix: rotation angle of two-dimensional rotation
 tensors

---
 src/Utility/Tensor.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index ee3cda2..21d242f 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -617,7 +617,7 @@ Vec3 Tensor::rotVec () const
   Vec3 rot;
   if (n < 2) return rot;
 
-  double R = 0.5*this->trace() - 0.5;
+  double R = 0.5*this->trace() - (n > 2 ? 0.5 : 0.0);
   double theta = R < 1.0 ? acos(R) : 0.0;
 
   // Test if 1.0 = (1.0-theta) in the computer
-- 
2.43.0


From 889180e5dbf578c842889835750c92ccc783f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 075/121] fix: storage size of symmetric fourth-order tensors

---
 src/Utility/Tensor4.C | 22 +++++++++++++++++-----
 src/Utility/Tensor4.h |  4 ++--
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/Utility/Tensor4.C b/src/Utility/Tensor4.C
index dd98f2f..eb4b675 100644
--- a/src/Utility/Tensor4.C
+++ b/src/Utility/Tensor4.C
@@ -81,7 +81,7 @@ Tensor4& Tensor4::operator= (Real val)
   this->zero();
 
   for (t_ind i = 1; i <= n; i++)
-    v[this->index(i,i,i,i)] = val;
+    (*this)(i,i,i,i) = val;
 
   return *this;
 }
@@ -90,7 +90,7 @@ Tensor4& Tensor4::operator= (Real val)
 Tensor4& Tensor4::operator+= (Real val)
 {
   for (t_ind i = 1; i <= n; i++)
-    v[this->index(i,i,i,i)] += val;
+    (*this)(i,i,i,i) += val;
 
   return *this;
 }
@@ -98,6 +98,9 @@ Tensor4& Tensor4::operator+= (Real val)
 
 SymmTensor4::SymmTensor4 (t_ind nd, bool makeJ) : Tensor4(nd,Real(0))
 {
+  this->redim(nd);
+  v.resize(m*m);
+
   if (makeJ) // Define the "identity" tensor, J
     for (t_ind i = 0; i < n; i++)
       for (t_ind j = 0; j < n; j++)
@@ -109,19 +112,28 @@ SymmTensor4::SymmTensor4 (t_ind nd, bool makeJ) : Tensor4(nd,Real(0))
 }
 
 
-SymmTensor4::SymmTensor4 (const std::vector<Real>& x, t_ind nd) : Tensor4(x,nd)
+SymmTensor4::SymmTensor4 (const std::vector<Real>& x, t_ind nd)
+  : Tensor4(nd,Real(0))
 {
+  this->redim(nd);
+
+  v = x;
+  if (v.size() < (size_t)m*m)
+    std::cerr <<" *** Invalid fourth-order tensor,"
+              <<" matrix represention too small, size="<< v.size() << std::endl;
+  else if (v.size() > (size_t)m*m)
+    v.resize(m*m);
 }
 
 
 std::ostream& SymmTensor4::print (std::ostream& os) const
 {
-  utl::matrix<Real> A(m,m);
+  utl::matrix<Real> A(n*n,n*n);
   for (t_ind l = 1; l <= n; l++)
     for (t_ind k = 1; k <= n; k++)
       for (t_ind j = 1; j <= n; j++)
         for (t_ind i = 1; i <= n; i++)
-          A(i+n*(j-1),k+l*(n-1)) = v[this->index(i,j)*m+this->index(k,l)];
+          A(i+n*(j-1),k+n*(l-1)) = v[this->index(i,j)*m+this->index(k,l)];
 
   return os << A;;
 }
diff --git a/src/Utility/Tensor4.h b/src/Utility/Tensor4.h
index 44e2f38..e048ddc 100644
--- a/src/Utility/Tensor4.h
+++ b/src/Utility/Tensor4.h
@@ -64,9 +64,9 @@ public:
   const Real* ptr() const { return &v.front(); }
 
   //! \brief Index-1 based component reference.
-  const Real& operator()(t_ind i, t_ind j, t_ind d, t_ind l) const;
+  virtual const Real& operator()(t_ind i, t_ind j, t_ind d, t_ind l) const;
   //! \brief Index-1 based component access.
-  Real& operator()(t_ind i, t_ind j, t_ind k, t_ind l);
+  virtual Real& operator()(t_ind i, t_ind j, t_ind k, t_ind l);
 
   //! \brief Assignment operator.
   Tensor4& operator=(const Tensor4& T);
-- 
2.43.0


From 2d8e30fdc275bba434d96d6518f5049948ca9224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:49 +0000
Subject: [PATCH 076/121] fix: eigenvectors of symmetric three-dimensional
 tensors

---
 src/Utility/Tensor.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index 21d242f..59d7d70 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -1255,7 +1255,7 @@ bool SymmTensor::principal (Vec3& p, Tensor& pdir) const
     // Perform sweeps for rotations
 
     Vec3 z;
-    for (int i = 1; i < 3; i++)
+    for (int i = 1; i <= 3; i++)
     {
       int j = i%3 + 1;
       int k = j%3 + 1;
-- 
2.43.0


From 0b474f398bae52397b726488aa7748a406873e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:52 +0000
Subject: [PATCH 077/121] fix: precision of the 10-point Gauss rule

---
 src/Utility/GaussQuadrature.C | 40 +++++++++++++++++------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/Utility/GaussQuadrature.C b/src/Utility/GaussQuadrature.C
index 3e746f3..1ef7126 100644
--- a/src/Utility/GaussQuadrature.C
+++ b/src/Utility/GaussQuadrature.C
@@ -171,28 +171,28 @@ static double G9[2][9] = {{
 //! \brief 10-point rule.
 static double G10[2][10] = {{
   // coord
- -0.97390653,
- -0.86506337,
- -0.67940957,
- -0.43339539,
- -0.14887434,
-  0.14887434,
-  0.43339539,
-  0.67940957,
-  0.86506337,
-  0.97390653
+ -0.9739065285171717,
+ -0.8650633666889845,
+ -0.6794095682990244,
+ -0.4333953941292472,
+ -0.1488743389816312,
+  0.1488743389816312,
+  0.4333953941292472,
+  0.6794095682990244,
+  0.8650633666889845,
+  0.9739065285171717
   // weight
 },{
-  0.06667134,
-  0.14945135,
-  0.21908636,
-  0.26926672,
-  0.29552422,
-  0.29552422,
-  0.26926672,
-  0.21908636,
-  0.14945135,
-  0.06667134
+  0.0666713443086881,
+  0.1494513491505806,
+  0.2190863625159820,
+  0.2692667193099963,
+  0.2955242247147529,
+  0.2955242247147529,
+  0.2692667193099963,
+  0.2190863625159820,
+  0.1494513491505806,
+  0.0666713443086881
 }};
 
 
-- 
2.43.0


From d33b785f1f2b5130c493a99ec5a15003dd2d05b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:52 +0000
Subject: [PATCH 078/121] fix: coordinates of the 3-point triangle rule

---
 src/Utility/TriangleQuadrature.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/TriangleQuadrature.C b/src/Utility/TriangleQuadrature.C
index d175404..7a82d0c 100644
--- a/src/Utility/TriangleQuadrature.C
+++ b/src/Utility/TriangleQuadrature.C
@@ -23,7 +23,7 @@ static const double W1[1] = { 1.0 };
 //! \brief 3-point rule coordinates.
 static const double T3[6] = {
   0.5, 0.5,
-  0.5, 0.5,
+  0.5, 0.0,
   0.0, 0.5
 };
 //! \brief 3-point rule weights.
-- 
2.43.0


From 04723a6131055d620a4c721e78582bd5de472f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:52 +0000
Subject: [PATCH 079/121] fix: Gauss-Legendre points and weights for two points

---
 src/Utility/Legendre.C | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/Utility/Legendre.C b/src/Utility/Legendre.C
index 29d5855..e70aeec 100644
--- a/src/Utility/Legendre.C
+++ b/src/Utility/Legendre.C
@@ -25,15 +25,12 @@ bool Legendre::GL (RealArray& weights, RealArray& points, int n)
   A(1,2) = Real(1);
 
   int i;
-  if (n > 2)
+  for (i = 2; i < n; i++)
   {
-    for (i = 2; i < n; i++)
-    {
-      A(i,i-1) = Real(i-1)/Real(2*i-1);
-      A(i,i+1) = Real(i)  /Real(2*i-1);
-    }
-    A(n,n-1) = Real(n-1)/Real(2*n-1);
+    A(i,i-1) = Real(i-1)/Real(2*i-1);
+    A(i,i+1) = Real(i)  /Real(2*i-1);
   }
+  A(n,n-1) = Real(n-1)/Real(2*n-1);
 
   RealArray eig_complex(n), evalpoints(n);
   if (!A.solveEigNon(evalpoints,eig_complex)) return false;
-- 
2.43.0


From 097e9ccd5ec2d7e16a30d1f070aa96754eadfd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:52 +0000
Subject: [PATCH 080/121] fix: gradient of the Jacobian determinant in one
 dimension

---
 src/Utility/CoordinateMapping.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Utility/CoordinateMapping.C b/src/Utility/CoordinateMapping.C
index a79f36a..5a38c4b 100644
--- a/src/Utility/CoordinateMapping.C
+++ b/src/Utility/CoordinateMapping.C
@@ -333,7 +333,9 @@ void utl::detJacGradient (const matrix<Real>& J, const matrix<Real>& Ji,
 
   std::vector<Real> dDetdu(dim,Real(0));
 
-  if (dim == 2)
+  if (dim == 1)
+    dDetdu[0] = H(1,1,1);
+  else if (dim == 2)
   {
     dDetdu[0] =   H(1,1,1)*J(2,2) + J(1,1)*H(2,2,1)
                 - H(1,2,1)*J(2,1) - J(1,2)*H(2,1,1);
-- 
2.43.0


From 4ea970fe7c38e0213a059a5439f303597f3b8a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:00 +0000
Subject: [PATCH 081/121] fix: writing of vector fields to the HDF5 file

---
 src/Utility/HDF5Writer.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index fa495fa..c21cd5f 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -199,7 +199,7 @@ void HDF5Writer::writeVector(int level, const DataEntry& entry)
   if (entry.second.field == DataExporter::VECTOR) {
     Vector* dvec = (Vector*)entry.second.data;
     int len = rank == 0 ? dvec->size() : 0;
-    this->writeArray(level,entry.first,1,len,dvec->ptr(),H5T_NATIVE_DOUBLE);
+    this->writeArray(group,entry.first,1,len,dvec->ptr(),H5T_NATIVE_DOUBLE);
   }
   else if (entry.second.field == DataExporter::INTVECTOR) {
     std::vector<int>* ivec = (std::vector<int>*)entry.second.data;
-- 
2.43.0


From ad79fa146e49dd37402c97064980c208c2f83e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:00 +0000
Subject: [PATCH 082/121] fix: overwrite of existing time levels in the HDF5
 file

---
 src/Utility/HDF5Writer.C | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index c21cd5f..884b69e 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -160,13 +160,13 @@ void HDF5Writer::writeArray(hid_t group, const std::string& name, int patch,
 #endif
   hid_t group1 = patch > -1 ? this->getGroup(name,group) : -1;
   hid_t space = H5Screate_simple(1,&siz,nullptr);
-  hid_t set;
-  if (patch > -1)
-    set = H5Dcreate2(group1, std::to_string(patch).c_str(), type, space,
-                     H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
-  else
-    set = H5Dcreate2(group, name.c_str(), type, space,
-                     H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
+  hid_t parent = patch > -1 ? group1 : group;
+  std::string setName = patch > -1 ? std::to_string(patch) : name;
+  // Overwrite the existing data if appending to a file with this time level
+  if (checkGroupExistence(parent, setName.c_str()))
+    H5Ldelete(parent, setName.c_str(), H5P_DEFAULT);
+  hid_t set = H5Dcreate2(parent, setName.c_str(), type, space,
+                         H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
   if (len > 0) {
     hid_t file_space = H5Dget_space(set);
     siz = len;
-- 
2.43.0


From 7d82de5405602dc4b0e75965dbce8cc661a8552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:00 +0000
Subject: [PATCH 083/121] fix: disabled element and nodal force fields were
 still written

---
 src/Utility/HDF5Writer.C | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index 884b69e..5695d5c 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -538,6 +538,9 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
 void HDF5Writer::writeKnotspan (int level, const DataEntry& entry,
                                 const std::string& prefix)
 {
+  if (!entry.second.enabled)
+    return;
+
   const SIMbase* sim = static_cast<const SIMbase*>(entry.second.data);
   const Vector* sol = static_cast<const Vector*>(entry.second.data2.front());
   if (!sim || !sol) return;
@@ -698,6 +701,9 @@ bool HDF5Writer::writeTimeInfo (int level, double time)
 
 void HDF5Writer::writeNodalForces (int level, const DataEntry& entry)
 {
+  if (!entry.second.enabled)
+    return;
+
 #ifdef HAS_HDF5
   std::string str = std::to_string(level) + "/nodal";
   this->addGroup(str);
-- 
2.43.0


From bcce8fa983ac1059ab880d8d8b0b7d664f825ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:00 +0000
Subject: [PATCH 084/121] fix: failing data dumps left the file open and lost
 the next level

---
 src/Utility/DataExporter.C | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Utility/DataExporter.C b/src/Utility/DataExporter.C
index c42747a..47f4de8 100644
--- a/src/Utility/DataExporter.C
+++ b/src/Utility/DataExporter.C
@@ -18,6 +18,7 @@
 #include "ProcessAdm.h"
 #include "TimeStep.h"
 #include "tinyxml2.h"
+#include <algorithm>
 
 
 DataWriter::DataWriter (const std::string& name,
@@ -94,15 +95,23 @@ bool DataExporter::setFieldValue (const std::string& name,
 
 bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
 {
+  bool haveData = std::all_of(m_entry.begin(), m_entry.end(),
+                              [](const std::pair<const std::string,FileEntry>& it)
+                              { return it.second.data != nullptr; });
   if (tp) {
     if (tp->step > 0 && tp->step < std::max(0,m_last_step) + m_ndump)
       return true; // write only every m_ndump step
 
+    if (!haveData)
+      return false;
+
     if (m_last_step < 0)
       geoUpd = true; // always write geometry basis on first time level
 
     m_last_step = tp->step;
   }
+  else if (!haveData)
+    return false;
   else if (m_level < 0)
   {
     geoUpd = true; // always write geometry basis on first time level
@@ -124,8 +133,6 @@ bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
   for (DataWriter* writer : m_writers) {
     writer->openFile(m_level);
     for (const std::pair<const std::string,DataExporter::FileEntry>& it : m_entry) {
-      if (!it.second.data)
-        return false;
       switch (it.second.field) {
         case INTVECTOR:
         case VECTOR:
-- 
2.43.0


From 10f74d40207e8d8a3080a1f9e4839f5e8204052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:00 +0000
Subject: [PATCH 085/121] fix: patch-wise projected solutions in the HDF5 file

---
 src/Utility/HDF5Writer.C | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index 5695d5c..f2508ba 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -296,7 +296,7 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
   // Lambda function for extracting projected solution for a patch.
   size_t projOfs = 0;
   auto&& extractProjection=[sim,&projOfs](ASMbase* pch, const Vector& glbVec,
-                                          Matrix& field, bool lastProj = false)
+                                          Matrix& field)
   {
     size_t ncmp = sim->getProblem()->getNoFields(2);
     if (ncmp == 0)
@@ -308,7 +308,6 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
       pchVec.resize(ncmp * pch->getNoProjectionNodes());
       size_t projEnd = projOfs + pchVec.size();
       std::copy(glbVec.begin()+projOfs, glbVec.begin()+projEnd, pchVec.begin());
-      if (lastProj) projOfs = projEnd;
     }
     else
       sim->extractPatchSolution(glbVec,pchVec,pch,ncmp,1);
@@ -317,6 +316,13 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
     field.fill(pchVec.ptr());
   };
 
+  // Lambda function advancing to the next patch in the projected solutions.
+  auto&& advanceProjection=[sim,&projOfs](const ASMbase* pch)
+  {
+    if (sim->fieldProjections())
+      projOfs += sim->getProblem()->getNoFields(2)*pch->getNoProjectionNodes();
+  };
+
   static std::vector<size_t> old_count;
   if ((results & DataExporter::ELEMENT_MASK) && old_count.empty())
     old_count.resize(sim->getNoPatches(),0);
@@ -390,13 +396,14 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
           if (!proj->at(p).empty())
           {
             Matrix field;
-            extractProjection(pch, proj->at(p), field, p+1 == proj->size());
+            extractProjection(pch, proj->at(p), field);
             for (size_t j = 0; j < field.rows(); j++)
               if (!prob->suppressOutput(j,ASM::PROJECTED))
                 this->writeArray(gid, prob->getField2Name(j,it->second.c_str()),
                                  idx, field.cols(), field.getRow(j+1).ptr(),
                                  H5T_NATIVE_DOUBLE);
           }
+        advanceProjection(pch);
       }
       else if ((results & DataExporter::SECONDARY) && !sol->empty()) {
         Matrix field;
@@ -406,6 +413,7 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
           rClass = ASM::PROJECTED;
           // The projected solution has been registered as a separate field
           extractProjection(pch, *sol, field);
+          advanceProjection(pch);
           if (sim->fieldProjections())
             gid = group.back();
         }
-- 
2.43.0


From 214fd91a1786c48d2c25bb7c7ba18e2081858c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:00 +0000
Subject: [PATCH 086/121] fix: element masks of several models or files

---
 src/Utility/HDF5Writer.C | 4 ++--
 src/Utility/HDF5Writer.h | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index f2508ba..3a6b475 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -323,8 +323,8 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
       projOfs += sim->getProblem()->getNoFields(2)*pch->getNoProjectionNodes();
   };
 
-  static std::vector<size_t> old_count;
-  if ((results & DataExporter::ELEMENT_MASK) && old_count.empty())
+  std::vector<size_t>& old_count = m_activeElms[entry.first];
+  if (results & DataExporter::ELEMENT_MASK)
     old_count.resize(sim->getNoPatches(),0);
 
   const IntegrandBase* prob = sim->getProblem();
diff --git a/src/Utility/HDF5Writer.h b/src/Utility/HDF5Writer.h
index 1507c44..ce3f064 100644
--- a/src/Utility/HDF5Writer.h
+++ b/src/Utility/HDF5Writer.h
@@ -16,6 +16,8 @@
 
 #include "DataExporter.h"
 #include "HDF5Base.h"
+#include <map>
+#include <vector>
 
 class SIMbase;
 
@@ -130,6 +132,9 @@ protected:
 
 private:
   unsigned int m_flag; //!< The file flags to open HDF5 file with
+
+  //! Number of active elements in each patch when last written, for each field
+  std::map<std::string,std::vector<size_t>> m_activeElms;
 #endif
 };
 
-- 
2.43.0


From fdafea333975c7d252af7c827de913ad8b5d6966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:00 +0000
Subject: [PATCH 087/121] fix: projected solutions without the solution itself
 in the HDF5 file

---
 src/Utility/HDF5Writer.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index 3a6b475..566e544 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -287,7 +287,7 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
     this->addGroup(basis);
     if (eNorm || (results & DataExporter::ELEMENT_MASK))
       egroup.push_back(this->getGroup(basis + "/knotspan"));
-    if (exportSol && !sol->empty())
+    if ((exportSol && !sol->empty()) || (proj && !sim->fieldProjections()))
       group.push_back(this->getGroup(basis + "/fields"));
   }
   if (proj && sim->fieldProjections())
-- 
2.43.0


From 345a23caf6172ab46fad422928b22931d7d2e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:00 +0000
Subject: [PATCH 088/121] fix: reading of missing, empty and converted data
 sets in the HDF5 file

---
 src/Utility/HDF5Reader.C | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/Utility/HDF5Reader.C b/src/Utility/HDF5Reader.C
index 9d3b634..94ab739 100644
--- a/src/Utility/HDF5Reader.C
+++ b/src/Utility/HDF5Reader.C
@@ -43,14 +43,16 @@ static bool hdf5Read(hid_t file, hid_t type,
                      const std::string& path, std::vector<T>& vec)
 {
   hid_t set = H5Dopen2(file,path.c_str(),H5P_DEFAULT);
-  hsize_t size = H5Dget_storage_size(set) / sizeof(T);
-  if (size != 0) {
+  if (set < 0) return false; // no such data set
+  hid_t space = H5Dget_space(set);
+  hssize_t size = H5Sget_simple_extent_npoints(space);
+  H5Sclose(space);
+  if (size > 0) {
     vec.resize(size);
-    H5Dread(set,type,H5S_ALL,H5S_ALL,H5P_DEFAULT,&vec[0]);
-    H5Dclose(set);
-    return true;
+    H5Dread(set,type,H5S_ALL,H5S_ALL,H5P_DEFAULT,vec.data());
   }
-  return false;
+  H5Dclose(set);
+  return size > 0;
 }
 #endif
 
@@ -109,10 +111,12 @@ bool HDF5Reader::readString (const std::string& name, std::string& out)
     return false;
 
   hid_t set = H5Dopen2(m_file,name.c_str(),H5P_DEFAULT);
+  if (set < 0) return false; // no such data set
   hid_t space = H5Dget_space(set);
   hsize_t siz = H5Sget_simple_extent_npoints(space);
   out.resize(siz);
   H5Dread(set,H5T_NATIVE_CHAR,H5S_ALL,H5S_ALL,H5P_DEFAULT,&out[0]);
+  H5Sclose(space);
   H5Dclose(set);
   return true;
 #else
@@ -129,17 +133,21 @@ bool HDF5Reader::read3DArray (const std::string& name, Matrix3D& out)
     return false;
 
   hid_t set = H5Dopen2(m_file,name.c_str(),H5P_DEFAULT);
+  if (set < 0) return false; // no such data set
   hid_t space = H5Dget_space(set);
   hsize_t dims = H5Sget_simple_extent_ndims(space);
 
   if (dims != 3) {
     std::cerr << "HDF5Reader: Wrong dimension for field " << name << std::endl;
+    H5Sclose(space);
+    H5Dclose(set);
     return false;
   }
 
   std::array<hsize_t, 3> ndim;
 
   H5Sget_simple_extent_dims(space, ndim.data(), nullptr);
+  H5Sclose(space);
 
   out.resize(ndim[0],ndim[1],ndim[2]);
 
-- 
2.43.0


From 4c066d83e24e68165a3c33e220e6139eabfda7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:57 +0000
Subject: [PATCH 089/121] fix: projected solutions on a separate basis after
 the first time level

---
 src/Utility/HDF5Writer.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index 566e544..36df9e3 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -290,8 +290,10 @@ void HDF5Writer::writeSIM (int level, double time, const DataEntry& entry,
     if ((exportSol && !sol->empty()) || (proj && !sim->fieldProjections()))
       group.push_back(this->getGroup(basis + "/fields"));
   }
-  if (proj && sim->fieldProjections())
+  if (proj && sim->fieldProjections()) {
+    this->addGroup(str + "-proj");
     group.push_back(this->getGroup(str + "-proj/fields"));
+  }
 
   // Lambda function for extracting projected solution for a patch.
   size_t projOfs = 0;
-- 
2.43.0


From 984bd514abe7d1ff4f0a13ac6f87570f493e9981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:57 +0000
Subject: [PATCH 090/121] fix: last time level of an existing HDF5 file

---
 src/Utility/HDF5Writer.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utility/HDF5Writer.C b/src/Utility/HDF5Writer.C
index 36df9e3..92eb399 100644
--- a/src/Utility/HDF5Writer.C
+++ b/src/Utility/HDF5Writer.C
@@ -65,8 +65,8 @@ int HDF5Writer::getLastTimeLevel ()
 #endif
 
   if (hid_t fid = H5Fopen(m_name.c_str(),m_flag,acc_tpl); fid >= 0) {
-    for (bool ok = true; ok; result++)
-      ok = checkGroupExistence(fid, ("/" + std::to_string(result)).c_str());
+    while (checkGroupExistence(fid, ("/" + std::to_string(result)).c_str()))
+      result++;
     H5Fclose(fid);
   }
   else
-- 
2.43.0


From d39c5748a996a8a19b98ff40d11651074314b515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:18 +0000
Subject: [PATCH 091/121] fix: projected solutions of each patch in the norm
 integration

When the patches have separate projection bases, SIMbase::solutionNorms()
advanced the offset into the projected solutions for each projection (and each
time a patch is visited) instead of once per patch. The second projection, and
patches with several element groups, were then read beyond the end. Inactive
patches are also accounted for, since they are left out by SIMbase::project().
---
 src/SIM/SIMbase.C | 74 +++++++++++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index a1ca49c..81aefd6 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -1845,10 +1845,55 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
 
   size_t nCmp = 0;
 
+  // Lambda function for extracting the projected solutions for a given patch
+  auto&& extractProjections = [this,time,&ssol,&nCmp](NormBase* norm,
+                                                      const ASMbase* pch)
+  {
+    // With separate projection bases, the projected solutions of the patches
+    // are stored successively, see SIMbase::project()
+    const bool sepPrj = this->fieldProjections();
+    const bool active = !pch->inActive(time.t);
+    size_t nfld = myProblem->getNoFields(2);
+    size_t nval = pch->getNoProjectionNodes()*nfld;
+    size_t ofs = 0;
+    if (sepPrj && active)
+      for (const ASMbase* p : myModel)
+        if (p == pch)
+          break;
+        else if (!p->empty() && !p->inActive(time.t))
+          ofs += p->getNoProjectionNodes()*nfld;
+
+    for (size_t k = 0; k < ssol.size(); k++)
+      if (sepPrj)
+      {
+        Fields* field = nullptr;
+        if (active && ofs+nval <= ssol[k].size())
+        {
+          Vector c(nval);
+          std::copy(ssol[k].begin()+ofs,ssol[k].begin()+ofs+nval,c.begin());
+          field = pch->getProjectedFields(c,nfld);
+        }
+        norm->setProjectedFields(field,k);
+      }
+      else if (ssol[k].empty())
+        norm->getProjection(k).clear();
+      else if (nCmp != pch->getNoFields(1) && pch->getNoFields(2) > 0)
+      {
+        // Mixed problem using first basis for projection,
+        // need a separate MADOF array with nCmp dofs per node
+        const IntVec& madof = this->getMADOF(1,nCmp);
+        pch->extractNodalVec(ssol[k],norm->getProjection(k),
+                             madof.data(),madof.size());
+      }
+      else
+        pch->extractNodeVec(ssol[k],norm->getProjection(k),nCmp,1);
+  };
+
   // Lambda function for assembling the interior norm terms for a given patch
-  auto&& assembleNorms = [this,time,psol,ssol,&nCmp](NormBase* norm,
-                                                     GlbNorm& integral,
-                                                     ASMbase* pch, int pidx)
+  auto&& assembleNorms = [this,time,psol,&extractProjections](NormBase* norm,
+                                                              GlbNorm& integral,
+                                                              ASMbase* pch,
+                                                              int pidx)
   {
     if (!integral.haveContributions(pidx,myProps))
       return true;
@@ -1891,28 +1936,7 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
       }
     }
 
-    size_t nfld = myProblem->getNoFields(2);
-    size_t nval = pch->getNoProjectionNodes()*nfld;
-    for (size_t k = 0; k < ssol.size(); k++)
-      if (ssol[k].empty())
-        norm->getProjection(k).clear();
-      else if (this->fieldProjections())
-      {
-        Vector c(nval);
-        std::copy(ssol[k].begin()+nCmp,ssol[k].begin()+nCmp+nval,c.begin());
-        norm->setProjectedFields(pch->getProjectedFields(c,nfld),k);
-        nCmp += nval;
-      }
-      else if (nCmp != pch->getNoFields(1) && pch->getNoFields(2) > 0)
-      {
-        // Mixed problem using first basis for projection,
-        // need a separate MADOF array with nCmp dofs per node
-        const IntVec& madof = this->getMADOF(1,nCmp);
-        pch->extractNodalVec(ssol[k],norm->getProjection(k),
-                             madof.data(),madof.size());
-      }
-      else
-        pch->extractNodeVec(ssol[k],norm->getProjection(k),nCmp,1);
+    extractProjections(norm,pch);
 
     norm->initForPatch(pch);
 
-- 
2.43.0


From d29a331608b6435667cfbdf71f10d6a1de8a2c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:18 +0000
Subject: [PATCH 092/121] fix: projections and element groups in boundary norm
 terms

The boundary integration in SIMbase::solutionNorms() used the projected
solutions of the last patch of the interior integration for all patches, and
only the elements of the last element group were included.
---
 src/SIM/SIMbase.C | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 81aefd6..4960d23 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -2054,6 +2054,7 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
       if (!myModel[lp]->empty())
         ok = assembleNorms(norm,globalNorm,myModel[lp],1+lp);
 
+  norm->activateElmGroup();
   if (norm->hasBoundaryTerms())
     for (p = myProps.begin(); p != myProps.end() && ok; ++p)
       if (p->pcode == Property::NEUMANN)
@@ -2065,7 +2066,10 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
           if (this->initNeumann(p->pindx))
           {
             if (p->patch != lp)
+            {
               ok = this->extractPatchSolution(psol,p->patch-1);
+              extractProjections(norm,pch);
+            }
             norm->initForPatch(pch);
             if (mySol)
               mySol->initPatch(pch->idx);
@@ -2079,7 +2083,10 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
           if (this->initNeumann(p->pindx))
           {
             if (p->patch != lp)
+            {
               ok = this->extractPatchSolution(psol,p->patch-1);
+              extractProjections(norm,pch);
+            }
             norm->initForPatch(pch);
             if (mySol)
               mySol->initPatch(pch->idx);
-- 
2.43.0


From cc988a5e69947319724d6891cc279b669fdd9858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:18 +0000
Subject: [PATCH 093/121] fix: stale norm groups in SIMbase::solutionNorms()

A norm group without contributions kept its previous size when the gNorm array
is reused, such that the norms of the subsequent groups were shifted into it.
---
 src/SIM/SIMbase.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 4960d23..567a8c8 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -2010,6 +2010,8 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
       if (i > 0 && proj_idx != opt.project.end())
         ++proj_idx;
     }
+    else
+      gNorm[i].clear();
 
   GlbNorm globalNorm(gNorm,norm->getFinalOperation());
   LintegralVec elementNorms;
-- 
2.43.0


From 4268294bf888ec1739eff17b5150005e4b09fb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:13 +0000
Subject: [PATCH 094/121] fix: selection of elements at the adaptive refinement
 threshold

The first element (or basis function) was left out if its error equals the
limit, e.g., with the threshold type "maximum" and 100 percent. If no errors
reached the limit, or more than 100 percent was to be refined, elements outside
of the error array were accessed.
---
 src/SIM/AdaptiveSetup.C | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/SIM/AdaptiveSetup.C b/src/SIM/AdaptiveSetup.C
index f9bf431..88c3fa8 100644
--- a/src/SIM/AdaptiveSetup.C
+++ b/src/SIM/AdaptiveSetup.C
@@ -391,8 +391,18 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
   if (threshold == NONE || threshold == SYMMETRIZED)
     refineSize = ceil(error.size()*prm.options[0]/100.0);
   else
-    refineSize = std::upper_bound(error.begin(), error.end(), DblIdx(info.limit,0),
-                                  std::greater_equal<DblIdx>()) - error.begin();
+    refineSize = std::find_if(error.begin(), error.end(),
+                              [limit=info.limit](const DblIdx& e)
+                              { return e.first < limit; }) - error.begin();
+
+  if (refineSize < 1)
+  {
+    IFEM::cout <<"\n   * Stopping the adaptive cycles as no element errors are"
+               <<" above the refinement threshold."<< std::endl;
+    return 0; // Nothing to refine
+  }
+  else if (refineSize > error.size())
+    refineSize = error.size(); // Refine everything
 
   if (threshold == SYMMETRIZED)
   {
-- 
2.43.0


From 84b964653899d45f1a0124242d74287b2a6740cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:13 +0000
Subject: [PATCH 095/121] fix: fractional refinement percentages in adaptive
 simulations

The refinement percentage was truncated to an integer before the refinement
threshold was computed from it, e.g., 0.5 resulted in no refinement at all.
---
 src/SIM/AdaptiveSetup.C | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/SIM/AdaptiveSetup.C b/src/SIM/AdaptiveSetup.C
index 88c3fa8..3f5a347 100644
--- a/src/SIM/AdaptiveSetup.C
+++ b/src/SIM/AdaptiveSetup.C
@@ -296,8 +296,10 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
     return 0; // Condition number limit reached
   }
 
+  const double percentage = betaFunc ? (*betaFunc)(iStep-1) : beta;
+
   prm.options.reserve(8);
-  prm.options.push_back(betaFunc ? (*betaFunc)(iStep-1) : beta);
+  prm.options.push_back(percentage);
   prm.options.push_back(knot_mult);
   prm.options.push_back(scheme);
   prm.options.push_back(linIndep);
@@ -386,10 +388,10 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
   // The variable prm.elements will contain one of the following:
   // - list of elements to be refined (if fullspan or minspan)
   // - list of basis functions to be refined (if structured mesh)
-  const ErrorInfo info = errorLimits(error, prm.options[0], threshold);
+  const ErrorInfo info = errorLimits(error, percentage, threshold);
 
   if (threshold == NONE || threshold == SYMMETRIZED)
-    refineSize = ceil(error.size()*prm.options[0]/100.0);
+    refineSize = ceil(error.size()*percentage/100.0);
   else
     refineSize = std::find_if(error.begin(), error.end(),
                               [limit=info.limit](const DblIdx& e)
@@ -436,22 +438,22 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
 
   switch (threshold) {
   case NONE:
-    IFEM::cout << prm.options[0] <<"% of all "<< str;
+    IFEM::cout << percentage <<"% of all "<< str;
     break;
   case SYMMETRIZED:
     IFEM::cout << 100.0*refineSize/error.size() <<"% of all "<< str;
     break;
   case MAXIMUM:
-    IFEM::cout << prm.options[0] <<"% of max error ("<< info.limit <<")";
+    IFEM::cout << percentage <<"% of max error ("<< info.limit <<")";
     break;
   case AVERAGE:
-    IFEM::cout << prm.options[0] <<"% of average error ("<< info.limit <<")";
+    IFEM::cout << percentage <<"% of average error ("<< info.limit <<")";
     break;
   case MINIMUM:
-    IFEM::cout << prm.options[0] <<"% of min error ("<< info.limit <<")";
+    IFEM::cout << percentage <<"% of min error ("<< info.limit <<")";
     break;
   case DORFEL:
-    IFEM::cout << prm.options[0] <<"% of total error ("<< info.limit <<")";
+    IFEM::cout << percentage <<"% of total error ("<< info.limit <<")";
     break;
   default:
     break;
-- 
2.43.0


From 4200c657e8004f08626dcad957cbc4490934870b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:37 +0000
Subject: [PATCH 096/121] fix: scaling of eigenvectors in
 Mode::orthonormalize()

The vector has to be divided by the square root of its squared norm.
---
 src/SIM/SIMbase.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 567a8c8..16c0c84 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -2283,6 +2283,7 @@ bool Mode::orthonormalize (const SystemMatrix& mat)
     IFEM::cout <<" is already orthonormal."<< std::endl;
   else
   {
+    scale = sqrt(scale);
     eqnVec /= scale;
     eigVec /= scale;
     IFEM::cout <<": scale = "<< 1.0/scale << std::endl;
-- 
2.43.0


From b91e0d672a919878c20bf16f1e813553fdb6b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:37 +0000
Subject: [PATCH 097/121] fix: frequency of mode lists and negative amplitudes
 in EigenModeSIM

The given frequency was only applied to the last mode of the list,
and modes with a negative amplitude were ignored.
---
 src/SIM/EigenModeSIM.C | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SIM/EigenModeSIM.C b/src/SIM/EigenModeSIM.C
index 9043d7f..a9e40b7 100644
--- a/src/SIM/EigenModeSIM.C
+++ b/src/SIM/EigenModeSIM.C
@@ -70,7 +70,7 @@ bool EigenModeSIM::parse (const tinyxml2::XMLElement* elem)
       {
         amplitude[mode-1] = scale;
         if (freq > epsZ)
-          omega[imode-1] = 2.0*M_PI*freq;
+          omega[mode-1] = 2.0*M_PI*freq;
       }
     }
   }
@@ -92,7 +92,7 @@ void EigenModeSIM::printProblem (bool stopInputTimer) const
   bool multiModes = false;
   IFEM::cout <<"Eigenmode combination: u(x,t) =";
   for (size_t i = 0; i < amplitude.size(); i++)
-    if (amplitude[i] > epsZ)
+    if (fabs(amplitude[i]) > epsZ)
     {
       IFEM::cout << (multiModes ? "\n                              + ":" ");
       if (fabs(amplitude[i]-1.0) > epsZ)
@@ -167,7 +167,7 @@ SIM::ConvStatus EigenModeSIM::solveStep (TimeStep& param, SIM::SolutionMode,
 
   solution.front().fill(0.0);
   for (size_t i = 0; i < amplitude.size() && i < modes.size(); i++)
-    if (amplitude[i] > epsZ)
+    if (fabs(amplitude[i]) > epsZ)
       solution.front().add(modes[i].eigVec,amplitude[i]*sin(modes[i].eigVal*t));
 
   return this->solutionNorms(param.time,zero_tolerance,outPrec) ?
-- 
2.43.0


From 37a11c6027d8c8ae31e188b1c7f6c8d5da136c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:37 +0000
Subject: [PATCH 098/121] fix: Cayley mode with shift in eig::solve()

Successful addition of the shifted matrix was treated as failure.
---
 src/Eig/EigSolver.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Eig/EigSolver.C b/src/Eig/EigSolver.C
index 183e9a5..f87ba0e 100644
--- a/src/Eig/EigSolver.C
+++ b/src/Eig/EigSolver.C
@@ -182,7 +182,7 @@ bool eig::solve (SystemMatrix* A, SystemMatrix* B,
     break;
   case 6:
     AM = K->copy();
-    if (shift != 0.0 && AM->add(*M,-shift))
+    if (shift != 0.0 && !AM->add(*M,-shift))
       ierr = 123;
     else
       eig_drv6_(n,nev,ncv,shift,eigVal.ptr(),eigVec.ptr(),work,ierr);
-- 
2.43.0


From 033227e7207ad3e1ae7efd23b09b48fd5ef8e94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 099/121] fix: modal damping without Rayleigh damping, and
 after restart

The damping of the modes was ignored unless Rayleigh damping was given too,
and it was not saved together with the modes.
---
 src/SIM/SIMmodal.C | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SIM/SIMmodal.C b/src/SIM/SIMmodal.C
index dc2f1bf..f204333 100644
--- a/src/SIM/SIMmodal.C
+++ b/src/SIM/SIMmodal.C
@@ -183,8 +183,11 @@ bool SIMmodal::assembleModalSystem (const TimeDomain& time, const Vectors& mSol,
     // the "elements" now being the eigenmodes
     if (beta > 0.0)
     {
+      bool haveDamping = alpha1 > 0.0 || alpha2 > 0.0;
+      for (const Mode& m : myModes)
+        haveDamping |= m.damping > 0.0;
       myElmMat = new NewmarkMats(0.0,0.0,beta,gamma);
-      myElmMat->resize(alpha1 > 0.0 || alpha2 > 0.0 ? 4 : 3, 1);
+      myElmMat->resize(haveDamping ? 4 : 3, 1);
     }
     else // quasi-static simulation
     {
@@ -266,6 +269,7 @@ bool SIMmodal::saveModes (std::map<std::string,std::string>& data) const
     {
       archive(mode.eigNo);
       archive(mode.eigVal);
+      archive(mode.damping);
       archive(mode.eigVec);
     }
   }
@@ -292,6 +296,7 @@ bool SIMmodal::restoreModes (const std::map<std::string,std::string>& data)
     {
       archive(mode.eigNo);
       archive(mode.eigVal);
+      archive(mode.damping);
       archive(mode.eigVec);
     }
     return true;
-- 
2.43.0


From bd796c09d0979c12214291d005f30b38664bacbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:57 +0000
Subject: [PATCH 100/121] fix: report eigenvalues that did not converge

The eigenvalue solution was reported as successful also when fewer (or no)
eigenvalues than requested had converged, leaving zeroes in the result.
---
 src/Eig/eig_drv1.f | 1 +
 src/Eig/eig_drv2.f | 1 +
 src/Eig/eig_drv3.f | 1 +
 src/Eig/eig_drv4.f | 1 +
 src/Eig/eig_drv5.f | 1 +
 src/Eig/eig_drv6.f | 1 +
 6 files changed, 6 insertions(+)

diff --git a/src/Eig/eig_drv1.f b/src/Eig/eig_drv1.f
index 814db04..9ed119f 100644
--- a/src/Eig/eig_drv1.f
+++ b/src/Eig/eig_drv1.f
@@ -270,6 +270,7 @@ c
       end if
 c
       nconv = iparam(5)
+      if (nconv .lt. nev) ierr = 1
       do 30 j = 1, nconv
 c
 c        %---------------------------%
diff --git a/src/Eig/eig_drv2.f b/src/Eig/eig_drv2.f
index cc0d114..15de9bf 100644
--- a/src/Eig/eig_drv2.f
+++ b/src/Eig/eig_drv2.f
@@ -280,6 +280,7 @@ c
       end if
 c
       nconv = iparam(5)
+      if (nconv .lt. nev) ierr = 1
       do 30 j = 1, nconv
 c
 c        %---------------------------%
diff --git a/src/Eig/eig_drv3.f b/src/Eig/eig_drv3.f
index ecb3b98..7c4b595 100644
--- a/src/Eig/eig_drv3.f
+++ b/src/Eig/eig_drv3.f
@@ -300,6 +300,7 @@ c
       end if
 c
       nconv = iparam(5)
+      if (nconv .lt. nev) ierr = 1
       do 30 j = 1, nconv
 c
 c        %---------------------------%
diff --git a/src/Eig/eig_drv4.f b/src/Eig/eig_drv4.f
index 6d2a6a8..48f8426 100644
--- a/src/Eig/eig_drv4.f
+++ b/src/Eig/eig_drv4.f
@@ -329,6 +329,7 @@ c
       end if
 c
       nconv = iparam(5)
+      if (nconv .lt. nev) ierr = 1
       do 30 j = 1, nconv
 c
 c        %---------------------------%
diff --git a/src/Eig/eig_drv5.f b/src/Eig/eig_drv5.f
index 636f06c..b5dfe71 100644
--- a/src/Eig/eig_drv5.f
+++ b/src/Eig/eig_drv5.f
@@ -336,6 +336,7 @@ c
       end if
 c
       nconv = iparam(5)
+      if (nconv .lt. nev) ierr = 1
       do 30 j = 1, nconv
 c
 c        %---------------------------%
diff --git a/src/Eig/eig_drv6.f b/src/Eig/eig_drv6.f
index 58e5400..58978b5 100644
--- a/src/Eig/eig_drv6.f
+++ b/src/Eig/eig_drv6.f
@@ -339,6 +339,7 @@ c
       end if
 c
       nconv = iparam(5)
+      if (nconv .lt. nev) ierr = 1
       do 30 j = 1, nconv
 c
 c        %---------------------------%
-- 
2.43.0


From 391b89db5c9ebb7b3dc2b86a73cdc64891061be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:05 +0000
Subject: [PATCH 101/121] fix: type of a topology set inherited from the
 previous set

---
 src/SIM/SIMinput.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index 0a2c6a1..d6fddb6 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -228,12 +228,13 @@ bool SIMinput::parseGeometryTag (const tinyxml2::XMLElement* elem)
 
   else if (!strcasecmp(elem->Value(),"topologysets"))
   {
-    std::string name, type;
+    std::string name;
     const tinyxml2::XMLElement* set = elem->FirstChildElement("set");
     for (; set; set = set->NextSiblingElement("set"))
       if (utl::getAttribute(set,"name",name))
       {
         int idim = 3;
+        std::string type;
         utl::getAttribute(set,"type",type,true);
         bool nodes0 = type == "nodes0";
         if (type == "volume")
-- 
2.43.0


From 0269f8b14d8a4e03b911c57cb1194af7a27a9e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:05 +0000
Subject: [PATCH 102/121] fix: open-ended patch ranges in distributed models

---
 src/SIM/SIMinput.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index d6fddb6..bd82dce 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -1041,10 +1041,10 @@ bool SIMinput::parsePatchList (const tinyxml2::XMLElement* elem,
   if (utl::getAttribute(elem,"patch",lowpatch))
     uppatch = lowpatch;
   if (utl::getAttribute(elem,"lowerpatch",lowpatch))
-    uppatch = myModel.size();
+    uppatch = nGlPatches;
   utl::getAttribute(elem,"upperpatch",uppatch);
 
-  if (lowpatch < 1 || uppatch > nGlPatches)
+  if (lowpatch < 1 || uppatch > nGlPatches || uppatch < lowpatch)
   {
     std::cerr <<" *** SIMinput::parsePatchList: Invalid patch indices, lower="
               << lowpatch <<" upper="<< uppatch <<"."<< std::endl;
-- 
2.43.0


From 32905a5ccec8748652fe1c8ac8fd507737018fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:05 +0000
Subject: [PATCH 103/121] fix: topology sets of patches in distributed models

---
 src/SIM/SIMinput.C | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index bd82dce..d346c6f 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -1021,9 +1021,18 @@ bool SIMinput::parseTopologySet (const tinyxml2::XMLElement* elem,
     patches.clear();
     for (const TopItem& top : tit->second)
       if (top.idim == (short int)this->getNoParamDim())
-        patches.push_back(top.patch);
+      {
+        // The topology items refer to the patches on this process,
+        // but the global patch numbers should be returned here
+        if (nProc == 1 || top.patch < 1 || top.patch > myPatches.size())
+          patches.push_back(top.patch);
+        else
+          patches.push_back(myPatches[top.patch-1]);
+      }
     if (!patches.empty())
       return true;
+    else if (nProc > 1 && tit->second.empty())
+      return true; // all patches in this set are on other processes
 
     std::cerr <<" *** SIMinput::parseTopologySet: Invalid topology set \""
               << setName <<"\" (no patches in this set)."<< std::endl;
-- 
2.43.0


From f4826b4b86da2449b893bbb370566537d7baf42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:05 +0000
Subject: [PATCH 104/121] fix: tangent direction for local axes on several
 faces

---
 src/SIM/SIMinput.C | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index d346c6f..e8b69bc 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -1448,6 +1448,14 @@ bool SIMinput::createPropertySet (const std::string& setName, int pc)
 size_t SIMinput::setPropertyType (int code, Property::Type ptype,
                                   int pindex, char basis)
 {
+  // Extract the flag for the first local tangent direction ['x','z'], if any
+  char t1 = 0;
+  if (ptype >= Property::DIRICHLET && pindex < -10)
+  {
+    t1 = 'w' - pindex/10;
+    pindex %= 10;
+  }
+
   size_t nDefined = 0;
   for (PropertyVec::iterator p = myProps.begin(); p != myProps.end(); ++p)
     if (abs(p->pindx) == abs(code) && p->pcode == Property::UNDEFINED)
@@ -1480,12 +1488,8 @@ size_t SIMinput::setPropertyType (int code, Property::Type ptype,
               abs(p->ldim)+1 == pch->getNoParamDim())
           {
             p->lindx *= -1; // flag the use of local axis directions
-            if (abs(p->ldim) == 2 && pindex < -10)
-            {
-              // Flag first local tangent direction ['x','z']
-              p->ldim = (p->ldim/2)*('w'-pindex/10);
-              pindex %= 10;
-            }
+            if (abs(p->ldim) == 2 && t1 > 0)
+              p->ldim = (p->ldim/2)*t1; // Flag first local tangent direction
             if (pindex == LOCAL_PROJECTED)
               p->lindx -= 10; // enable projection of the local axes definitions
             preserveNOrder = true; // because extra nodes might be added
-- 
2.43.0


From fb3891a8490c7b48ddc8e00a50cc10f425ff332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:05 +0000
Subject: [PATCH 105/121] fix: tangent direction for local axes on open faces

---
 src/SIM/SIM3D.C | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/SIM/SIM3D.C b/src/SIM/SIM3D.C
index 632c50b..8771c63 100644
--- a/src/SIM/SIM3D.C
+++ b/src/SIM/SIM3D.C
@@ -647,22 +647,22 @@ bool SIM3D::addConstraint (int patch, int lndx, int ldim, int dirs, int code,
         case  5: pch->constrainFace(-3,open,dirs,code,basis); break;
         case  6: pch->constrainFace( 3,open,dirs,code,basis); break;
         case -1:
-          ngnod += pch->constrainFaceLocal(-1,open,dirs,code,project,ldim);
+          ngnod += pch->constrainFaceLocal(-1,open,dirs,code,project,abs(ldim));
           break;
         case -2:
-          ngnod += pch->constrainFaceLocal( 1,open,dirs,code,project,ldim);
+          ngnod += pch->constrainFaceLocal( 1,open,dirs,code,project,abs(ldim));
           break;
         case -3:
-          ngnod += pch->constrainFaceLocal(-2,open,dirs,code,project,ldim);
+          ngnod += pch->constrainFaceLocal(-2,open,dirs,code,project,abs(ldim));
           break;
         case -4:
-          ngnod += pch->constrainFaceLocal( 2,open,dirs,code,project,ldim);
+          ngnod += pch->constrainFaceLocal( 2,open,dirs,code,project,abs(ldim));
           break;
         case -5:
-          ngnod += pch->constrainFaceLocal(-3,open,dirs,code,project,ldim);
+          ngnod += pch->constrainFaceLocal(-3,open,dirs,code,project,abs(ldim));
           break;
         case -6:
-          ngnod += pch->constrainFaceLocal( 3,open,dirs,code,project,ldim);
+          ngnod += pch->constrainFaceLocal( 3,open,dirs,code,project,abs(ldim));
           break;
         default:
           return error("face index",lndx,true);
-- 
2.43.0


From 737785b91bc415860f6fe851743a43186d6b87b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:05 +0000
Subject: [PATCH 106/121] fix: order of boundary conditions on faces with local
 axes

---
 src/SIM/SIMbase.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 16c0c84..9c50faf 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -309,7 +309,8 @@ bool SIMbase::preprocessC (const IntVec& ignored, bool fixDup, double time0)
   int code, dofs, ierr = 0, iwar = 0;
   for (unsigned char dim = 0; nprop < myProps.size(); dim++)
     for (const Property& p : myProps)
-      if (abs(p.ldim)%4 == dim)
+      // Notice that |ldim| in ['x','z'] means a face with local axes
+      if ((abs(p.ldim) > 'w' ? 2 : abs(p.ldim)%4) == dim)
       {
         nprop++;
         code = p.pindx;
-- 
2.43.0


From 400c450fa8c77282ce958b12df59e9e93994e107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:05 +0000
Subject: [PATCH 107/121] fix: duplicated and missing nodes in
 SIMbase::getBoundaryNodes()

---
 src/SIM/SIMbase.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 9c50faf..bdac73e 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -1132,7 +1132,7 @@ void SIMbase::getBoundaryNodes (int pcode, IntVec& glbNodes, Vec3Vec* XYZ) const
       else if (abs(prop.ldim) == pch->getNoParamDim())
         // The boundary and the patch are of same dimension
         for (size_t node = 1; node <= pch->getNoNodes(); node++)
-          glbNodes.push_back(pch->getNodeID(node));
+          nodes.push_back(pch->getNodeID(node));
       else if (prop.ldim == 4)
       {
         // The boundary nodes are stored explicitly
-- 
2.43.0


From 669918fe5106416983eef48202229e744fce6c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:50 +0000
Subject: [PATCH 108/121] fix: traction expressions without white-space

---
 src/Utility/Functions.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index dba9c69..b902455 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -1086,7 +1086,7 @@ TractionFunc* utl::parseTracFunc (const std::string& func,
   RealFunc* f = nullptr;
   if (!func.empty())
   {
-    if (type == "linear")
+    if (type == "linear" || type == "expression" || type == "chebyshev")
       f = parseRealFunc(func,type);
     else if (type == "constant" ||
              func.find_first_of("\t ") == std::string::npos)
-- 
2.43.0


From 441535a951c2d35fb0171451dc8eb260ba45d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:50 +0000
Subject: [PATCH 109/121] fix: Neumann order on open boundaries

---
 src/SIM/SIMinput.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index e8b69bc..8fca2e3 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -492,7 +492,7 @@ bool SIMinput::parseBCTag (const tinyxml2::XMLElement* elem)
       for (; i < myProps.size(); i++)
         // But not for edge boundaries in 3D
         if (ASMbase* pch = this->getPatch(myProps[i].patch); pch)
-          if (myProps[i].ldim+1 == pch->getNoParamDim())
+          if (abs(myProps[i].ldim)+1 == pch->getNoParamDim())
             myProps[i].lindx += 10*(order-1);
     }
 
-- 
2.43.0


From b8117039718f5315d7c616a2489ed58540cafdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:37 +0000
Subject: [PATCH 110/121] fix: property codes of topology sets without local
 items

---
 src/SIM/SIMinput.C | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/SIM/SIMinput.C b/src/SIM/SIMinput.C
index 8fca2e3..077740c 100644
--- a/src/SIM/SIMinput.C
+++ b/src/SIM/SIMinput.C
@@ -1396,14 +1396,19 @@ int SIMinput::getUniquePropertyCode (const std::string& setName, int code)
 
   int cinc = code < 0 ? -1000000 : 1000000;
   if (code == 0) code = cinc;
-  PropertyVec::const_iterator pit = myProps.begin();
-  for (int trial = 0; pit != myProps.end(); trial++)
+  // Notice that a code may be used without any properties referring to it,
+  // if its topology set has no items on this process in a parallel simulation
+  auto&& isUsed = [this](int code)
   {
-    if (trial > 0) code += cinc;
-    pit = std::find_if(myProps.begin(),myProps.end(),
+    return myScalars.find(code) != myScalars.end() ||
+           myVectors.find(code) != myVectors.end() ||
+           myTracs.find(code) != myTracs.end() ||
+           std::any_of(myProps.begin(),myProps.end(),
                        [code](const Property& p)
-                       { return abs(p.pindx) == abs(code); });
-  }
+                       { return abs(p.pindx) == code; });
+  };
+  while (isUsed(abs(code)))
+    code += cinc;
 
   return this->createPropertySet(setName,code) ? code : 0;
 }
-- 
2.43.0


From 72dbfa6017d24fd31c8233578757db8d7e94ca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:30 +0000
Subject: [PATCH 111/121] fix: lists of integers with trailing white-space

---
 src/Utility/Utilities.C | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index 2400498..478ed0b 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -15,6 +15,7 @@
 #include "Vec3.h"
 #include "tinyxml2.h"
 #include <algorithm>
+#include <cctype>
 #include <cstdlib>
 #include <cstring>
 
@@ -25,8 +26,12 @@ bool utl::parseIntegers (std::vector<int>& values, const char* argv)
 
   size_t old = values.size();
   char* endp = const_cast<char*>(argv);
-  while (strlen(endp) > 0)
+  while (true)
   {
+    while (isspace(*endp)) ++endp;
+    if (*endp == '\0')
+      break;
+
     char* oldp = endp;
     values.push_back(strtol(endp,&endp,10));
     if (!endp)
@@ -49,7 +54,8 @@ bool utl::parseIntegers (std::vector<int>& values, const char* argv)
   }
 
   // A trailing comma should imply 0 as the last value
-  if (strlen(argv) > 0 && *(endp-1) == ',')
+  while (endp > argv && isspace(*(endp-1))) --endp;
+  if (endp > argv && *(endp-1) == ',')
     values.push_back(0);
 
   return values.size() > old;
-- 
2.43.0


From 2f69a9880d1e2135424dd68e425a8cb324c704bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:30 +0000
Subject: [PATCH 112/121] fix: centred geometric grading of an interval not
 starting at zero

---
 src/Utility/Utilities.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index 478ed0b..f74dd5f 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -145,6 +145,7 @@ bool utl::parseKnots (std::vector<Real>& xi)
     double D = (xi2-xi1) * (centred ? 0.5 : 1.0);
     D *= (alpha == 1.0 ? 1.0/double(ru+1) : (1.0-alpha)/(1.0-pow(alpha,ru+1)));
     if (xi1 > 0.0) xi.push_back(xi1);
+    size_t n = xi.size() + ru;
     for (int i = 0; i < ru; i++)
     {
       x += D;
@@ -155,7 +156,7 @@ bool utl::parseKnots (std::vector<Real>& xi)
     {
       xi.push_back(0.5*(xi1+xi2));
       for (int i = 1; i <= ru; i++)
-        xi.push_back(xi2 - xi[ru-i] + xi1);
+        xi.push_back(xi2 - xi[n-i] + xi1);
     }
     if (xi2 < 1.0) xi.push_back(xi2);
   }
-- 
2.43.0


From c8e695fd1e56f4d502d6dbfa7a026c9707b730e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:30 +0000
Subject: [PATCH 113/121] fix: 5th order mesh grading of a part of the
 parameter interval

---
 src/Utility/Utilities.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index f74dd5f..8914222 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -117,8 +117,8 @@ bool utl::parseKnots (std::vector<Real>& xi)
     double C = ( 32.0*X1 + 18.0*X2 - 50.0)*dy;
     double E = ( -8.0*X1 -  7.0*X2 + 15.0)*dy;
     double F = X2*dy;
-    dy /= (1+nX);
-    double y = y0 + dy;
+    dy = 1.0 / (1+nX);
+    double y = dy;
     if (y0 > 0.0) xi.push_back(y0);
     for (int i = 0; i < nX; i++, y += dy)
       xi.push_back(((((A*y+B)*y+C)*y+E)*y+F)*y+y0);
-- 
2.43.0


From 8b8ba5b442305d97c40af8edfb579e3b63971817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:30 +0000
Subject: [PATCH 114/121] fix: long lines and an unterminated last line in
 utl::readLine()

---
 src/Utility/Utilities.C | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index 8914222..e9a7289 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -174,18 +174,16 @@ bool utl::parseKnots (std::vector<Real>& xi)
 
 char* utl::readLine (std::istream& is)
 {
-  static char buf[1024];
-  for (size_t n = 0; is.good(); n = strlen(buf))
-  {
-    for (size_t i = 0; i < n; i++)
+  static std::string buf;
+  while (std::getline(is,buf))
+    for (size_t i = 0; i < buf.size(); i++)
       if (!isspace(buf[i]))
+      {
         if (buf[i] == '#')
           break; // comment line - skip
         else
-          return buf+i; // first non-blank character
-
-    is.getline(buf,sizeof(buf));
-  }
+          return &buf[i]; // first non-blank character
+      }
 
   return 0;
 }
-- 
2.43.0


From 60c48b690a088fd37eed0edc5b893768ca9febaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:30 +0000
Subject: [PATCH 115/121] fix: long and indented comment lines in
 utl::ignoreComments()

---
 src/Utility/Utilities.C | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index e9a7289..3cb9255 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -18,6 +18,7 @@
 #include <cctype>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 
 
 bool utl::parseIntegers (std::vector<int>& values, const char* argv)
@@ -193,12 +194,13 @@ bool utl::ignoreComments (std::istream& is)
 {
   int c = ' ';
   while (isspace(c))
-    c = is.get();
-
-  while (c == '#')
   {
-    is.ignore(256,'\n');
     c = is.get();
+    if (c == '#')
+    {
+      is.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
+      c = ' ';
+    }
   }
   is.putback(c);
 
-- 
2.43.0


From 7885d5204fafdda2ce09a5934efab1749e8d44f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:30 +0000
Subject: [PATCH 116/121] fix: empty vector attributes

---
 src/Utility/Utilities.C | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index 3cb9255..b763eea 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -291,12 +291,13 @@ int utl::getAttribute (const tinyxml2::XMLElement* xml, const char* att,
 
   std::string value(xml->Attribute(att));
   char* cval = const_cast<char*>(value.c_str());
-  val.x = atof(strtok(cval," "));
+  cval = strtok(cval," ");
+  val.x = cval ? atof(cval) : Real(0);
 
   for (int i = 1; i < 3; i++)
     if (i >= ncomp && ncomp > 0)
       val[i] = Real(0);
-    else if ((cval = strtok(nullptr," ")))
+    else if (cval && (cval = strtok(nullptr," ")))
       val[i] = atof(cval);
     else
       val[i] = ncomp > 0 ? val[i-1] : Real(0);
-- 
2.43.0


From b090db99c7f453aa4775bab582baeb60161c4ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:30 +0000
Subject: [PATCH 117/121] fix: rounding of zero

---
 src/Utility/Utilities.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index b763eea..d998c6c 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -578,6 +578,8 @@ void utl::interleave (const std::vector<Real>& v1, const std::vector<Real>& v2,
 
 Real utl::round (Real value, int pr)
 {
+  if (value == Real(0)) return value;
+
   Real aval = std::fabs(value);
   int expon = static_cast<int>(std::log10(aval)) - (aval < Real(1) ? pr : pr-1);
   Real dnom = std::pow(Real(10),Real(expon));
-- 
2.43.0


From 73c2d6771a7de50ee49e30385554dbafd7c892a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:30 +0000
Subject: [PATCH 118/121] fix: missing include files were silently ignored

---
 src/SIM/XMLInputBase.C | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/SIM/XMLInputBase.C b/src/SIM/XMLInputBase.C
index 4c0f791..d1d95f4 100644
--- a/src/SIM/XMLInputBase.C
+++ b/src/SIM/XMLInputBase.C
@@ -49,13 +49,15 @@ struct IncludeInjector : public tinyxml2::XMLVisitor
                   const tinyxml2::XMLAttribute* attribute) override
   {
     if (std::string(elem.Value()) == "include") {
+      include_found = include_processed = true;
+      const char* fileName = elem.GetText() ? elem.GetText() : "";
       tinyxml2::XMLDocument inc_doc(true, tinyxml2::COLLAPSE_WHITESPACE);
-        if (inc_doc.LoadFile(elem.GetText()) != tinyxml2::XML_SUCCESS) {
-          std::cerr << "** Error parsing include file " << elem.GetText() << std::endl;
-          return false;
+      if (inc_doc.LoadFile(fileName) != tinyxml2::XML_SUCCESS || !inc_doc.RootElement()) {
+        std::cerr <<" *** Error parsing include file \""<< fileName <<"\"."<< std::endl;
+        include_failed = true;
+        return false;
       }
       currElem->InsertEndChild(inc_doc.RootElement()->DeepClone(&new_doc));
-      include_found = include_processed = true;
     } else {
       tinyxml2::XMLElement* e = new_doc.NewElement(elem.Name());
       if (elem.GetText())
@@ -86,6 +88,7 @@ struct IncludeInjector : public tinyxml2::XMLVisitor
   tinyxml2::XMLDocument new_doc; //!< New document
   tinyxml2::XMLElement* currElem = nullptr; //!< Current root element
   bool include_found = false; //!< True if an include tag was found
+  bool include_failed = false; //!< True if an include file could not be read
 
 private:
   bool include_processed = false; //!< True if an include tag was processed
@@ -113,7 +116,9 @@ XMLInputBase::loadFile (tinyxml2::XMLDocument& doc,
     for (size_t i = 0; i < 10; ++i) { // Maximum 10 levels of include files
       IncludeInjector v;
       doc.RootElement()->Accept(&v);
-      if (v.include_found)
+      if (v.include_failed)
+        return nullptr;
+      else if (v.include_found)
         v.new_doc.DeepCopy(&doc);
       else
         break;
-- 
2.43.0


From cdaba4ff08f98b64007c99f664dc156f3c62fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:30 +0000
Subject: [PATCH 119/121] fix: result file names with relative paths and
 without extension

---
 src/SIM/SIMoptions.C | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/SIM/SIMoptions.C b/src/SIM/SIMoptions.C
index 38938ff..e8077f8 100644
--- a/src/SIM/SIMoptions.C
+++ b/src/SIM/SIMoptions.C
@@ -32,6 +32,15 @@
 namespace eig { extern bool verbose; }
 
 
+//! \brief Removes the file extension, if any, from a file name.
+static void removeExtension (std::string& fileName)
+{
+  size_t dot = fileName.find_last_of("./");
+  if (dot != std::string::npos && fileName[dot] == '.')
+    fileName.erase(dot);
+}
+
+
 SIMoptions::SIMoptions ()
 {
   discretization = ASM::Spline;
@@ -163,11 +172,8 @@ bool SIMoptions::parseOutputTag (const tinyxml2::XMLElement* elem)
       else if (!strcasecmp(elem->FirstChild()->Value(),"binary"))
         format = 1;
     }
-    if (utl::getAttribute(elem,"file",vtf)) {
-      size_t pos = vtf.find_last_of('.');
-      if (pos < vtf.size())
-        vtf.erase(pos);
-    }
+    if (utl::getAttribute(elem,"file",vtf))
+      removeExtension(vtf);
     if (utl::getAttribute(elem,"nviz",nViz[0]))
       nViz[2] = nViz[1] = nViz[0];
     utl::getAttribute(elem,"nu",nViz[0]);
@@ -187,9 +193,7 @@ bool SIMoptions::parseOutputTag (const tinyxml2::XMLElement* elem)
   else if (!strcasecmp(elem->Value(),"hdf5")) {
     if (elem->FirstChild()) {
       hdf5 = elem->FirstChild()->Value();
-      size_t pos = hdf5.find_last_of('.');
-      if (pos < hdf5.size())
-        hdf5.erase(pos);
+      removeExtension(hdf5);
     }
     else // use the default output file name
       hdf5 = "(default)";
@@ -283,7 +287,7 @@ bool SIMoptions::dumpHDF5 (const char* defaultName)
 
   if (hdf5 == "(default)") {
     hdf5 = defaultName;
-    hdf5.erase(hdf5.find_last_of("."));
+    removeExtension(hdf5);
   }
 
   return true;
@@ -342,20 +346,20 @@ bool SIMoptions::parseOldOptions (int argc, char** argv, int& i)
   else if (!strcmp(argv[i],"-hdf5"))
   {
     if (i < argc-1 && argv[i+1][0] != '-')
-      hdf5 = strtok(argv[++i],".");
+      removeExtension(hdf5 = argv[++i]);
     else // use the default output file name
       hdf5 = "(default)";
   }
   else if (!strcmp(argv[i],"-vtffile"))
   {
     if (i < argc-1 && argv[i+1][0] != '-')
-      vtf = strtok(argv[++i],".");
+      removeExtension(vtf = argv[++i]);
   }
   else if (!strcmp(argv[i],"-saveInc") && i < argc-1)
     dtSave = atof(argv[++i]);
   else if (!strcmp(argv[i],"-restart") && i < argc-1)
   {
-    restartFile = strtok(argv[++i],".");
+    removeExtension(restartFile = argv[++i]);
     if (i+1 < argc && argv[i+1][0] != '-')
       restartStep = atoi(argv[++i]);
   }
-- 
2.43.0


From 1cbf7e714a5111a95e0543bbc7574e529b62276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:30 +0000
Subject: [PATCH 120/121] fix: long and multiple messages to the control fifo

---
 src/Utility/ControlFIFO.C | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/Utility/ControlFIFO.C b/src/Utility/ControlFIFO.C
index 1beba48..ad00474 100644
--- a/src/Utility/ControlFIFO.C
+++ b/src/Utility/ControlFIFO.C
@@ -53,27 +53,29 @@ void ControlFIFO::poll ()
   if (fifo == -1)
     return;
 
-  char temp[2048];
-  temp[0] = '\0';
-  int len = read(fifo, temp, 2048);
-  if (len < 0)
-    return;
-
-  temp[len] = '\0';
-  if (!strlen(temp))
+  char buf[2048];
+  std::string temp;
+  for (int len; (len = read(fifo, buf, sizeof(buf))) > 0;)
+    temp.append(buf, len);
+  if (temp.empty())
     return;
 
   tinyxml2::XMLDocument doc;
-  doc.Parse(temp);
+  doc.Parse(temp.c_str());
   if (!doc.RootElement()) {
     std::cerr <<" *** Invalid control data received:\n"<< temp << std::endl;
     return;
   }
 
-  tinyxml2::XMLElement* elem = doc.RootElement()->FirstChildElement();
-  for (; elem; elem = elem->NextSiblingElement())
-    if (callbacks.find(elem->Value()) != callbacks.end())
-      callbacks[elem->Value()]->OnControl(elem);
+  // Several messages may have been received since the last poll
+  for (tinyxml2::XMLElement* root = doc.RootElement(); root;
+       root = root->NextSiblingElement())
+  {
+    tinyxml2::XMLElement* elem = root->FirstChildElement();
+    for (; elem; elem = elem->NextSiblingElement())
+      if (callbacks.find(elem->Value()) != callbacks.end())
+        callbacks[elem->Value()]->OnControl(elem);
+  }
 }
 
 
-- 
2.43.0


From d949765a48edcc6dcf518561a248dffbbbfc6ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:45 +0000
Subject: [PATCH 121/121] fix: integer ranges followed by a comma

---
 src/Utility/Utilities.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index d998c6c..f4f4563 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -44,6 +44,8 @@ bool utl::parseIntegers (std::vector<int>& values, const char* argv)
       int endVal = strtol(endp+1,&endp,10);
       while (values.back() < endVal)
         values.push_back(values.back()+1);
+      if (endp && *endp == ',')
+        ++endp;
     }
     else if (endp == oldp)
     {
-- 
2.43.0

