From 5099756dadfa5b8006d5c3eec8f5370e833acd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:48 +0000
Subject: [PATCH 01/67] fix: drop the old values when a sparse matrix gets a
 new SparsityInfo

---
 src/lib/math/SparseMatrix.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index 92dde44..b88970a 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -343,6 +343,13 @@ void BaseSparseMatrix::setSparsityInfo(std::shared_ptr<SparsityInfo> spar_info)
   // use already exist SparsityInfo instance. It can in compressed = false state or already
   // compressed = true state
   si = spar_info;
+
+  // values of the previous SparsityInfo have nothing to do with the new one
+  if (values) {
+    delete[] values;
+    values = nullptr;
+  }
+
   // if we add SparsityInfo with alreade fixed number of entries we are ready to allocate values
   if (si->compressed == true) 
     compress();
-- 
2.43.0


From 79bcb906037a0e57a5c31a45319b4319e802a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:04 +0000
Subject: [PATCH 02/67] fix: assigning a part of a dVec to the dVec itself read
 freed memory

---
 src/lib/math/Vec.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index 74eb812..92b1565 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -224,9 +224,17 @@ dVec& dVec::operator=(const dVec& op) {
   } else if (!op.isInit()) {
     clear();
   } else {
-      if (_size != op.size())
-        reinit(op.size());
-      memcpy(data, op.data, sizeof(double) * op.size());
+      if (_size != op.size()) {
+        // op can be a reference to a part of this vector: copy before the old memory is released
+        double* ptr = new double[op.size()];
+        memcpy(ptr, op.data, sizeof(double) * op.size());
+        clear();
+        data = ptr;
+        memory_owner = true;
+        _size = op.size();
+      } else {
+        memcpy(data, op.data, sizeof(double) * op.size());
+      }
   }
   return *this;
 }
-- 
2.43.0


From 5d968696a27cffb1cf4f2ef53dfe9ae48586a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:04 +0000
Subject: [PATCH 03/67] fix: a block matrix that shares sparsity with another
 one reported twice the number of rows

---
 src/lib/math/BlockSparseMatrix.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/math/BlockSparseMatrix.h b/src/lib/math/BlockSparseMatrix.h
index 5d8b2e6..aebbf9c 100644
--- a/src/lib/math/BlockSparseMatrix.h
+++ b/src/lib/math/BlockSparseMatrix.h
@@ -99,7 +99,6 @@ BlockSparseSymMatrix<nb>::BlockSparseSymMatrix(BlockSparseSymMatrix<nb>* ex) {
     for (uint16 j = i+1; j < nb; j++) {
       block(i+1, j+1)->setSparsityInfo(ex->block(i+1, j+1)->getSparsityInfo());
     }
-    total_rows += rows_in_block[i];
   }
 }
 
-- 
2.43.0


From 56b7b2704aaefc571683c065d54ba07b40a608e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:31 +0000
Subject: [PATCH 04/67] fix: the text form of a sparse matrix lost the last
 digit of values and left the stream in scientific notation

---
 src/lib/math/SparseMatrix.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index b88970a..ab245e9 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -186,7 +186,8 @@ void BaseSparseMatrix::writeCoordinateTextFormat(std::ostream& out) {
   assert(values);
   assert(si->compressed);
   // we need to return back old preferences after usage
-  auto old_precision = out.precision(15);
+  // 1 + 16 significant digits are needed to read exactly the same double value back
+  auto old_precision = out.precision(16);
   auto old_flags = out.setf(std::ios_base::scientific, std::ios_base::floatfield);
   // write header: nRows, nColumns, numberOfValues
   out << si->nRows << ' ' << si->nColumns << ' ' << si->numberOfValues << std::endl;
@@ -200,7 +201,7 @@ void BaseSparseMatrix::writeCoordinateTextFormat(std::ostream& out) {
   assert(total == si->numberOfValues);
   // return back old setup
   out.precision(old_precision);
-  out.setf(old_flags);
+  out.flags(old_flags);
 }
 
 
-- 
2.43.0


From d86e77700cadbb3a64983f57bcb857981551f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:31 +0000
Subject: [PATCH 05/67] fix: the text form of a vector kept 6 digits only, so a
 dumped system did not compare equal with itself

---
 src/lib/math/Vec.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index 92b1565..b369249 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -261,10 +261,17 @@ bool dVec::compare(const dVec& op2, double th) {
 
 
 void dVec::writeTextFormat(std::ostream& out) {
+  // we need to return back old preferences after usage
+  // 1 + 16 significant digits are needed to read exactly the same double value back
+  auto old_precision = out.precision(16);
+  auto old_flags = out.setf(std::ios_base::scientific, std::ios_base::floatfield);
   out << size() << std::endl;
   for (uint32 i = 0; i < size(); i++) {
     out << data[i] << std::endl;
   }
+  // return back old setup
+  out.precision(old_precision);
+  out.flags(old_flags);
 }
 
 
-- 
2.43.0


From ce71de64b1c9f99838a22fdf7d1794a822b5b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:01 +0000
Subject: [PATCH 06/67] fix: Element::assembleM added the element mass matrix
 to the global damping matrix

---
 src/lib/elements/element.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/element.h b/src/lib/elements/element.h
index 0401ff2..0bb3ceb 100755
--- a/src/lib/elements/element.h
+++ b/src/lib/elements/element.h
@@ -343,7 +343,7 @@ void Element::assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofTy
           if ((i==j) && (dj<di)) {
             continue;
           } else {
-            storage->addValueC(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Me_p);
+            storage->addValueM(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Me_p);
             Me_p++;
           }
         }
-- 
2.43.0


From 63cf234239ec03ce9f8e298015fe69b5f9756ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:08 +0000
Subject: [PATCH 07/67] fix: time stepping ignored the start time and began
 from zero

---
 src/lib/FESolver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 000fcaa..d069773 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -103,15 +103,19 @@ double TimeControl::getCurrentNormalizedTimeDelta() {
 
 
 void TimeControl::setEndTime(double _endTime) {
-  LOG_IF(currentTime > 0.0, ERROR) << "Trying to set end time = " << _endTime
+  LOG_IF(currentTime > startTime, ERROR) << "Trying to set end time = " << _endTime
       << " when solution is running (current time = " << currentTime << ")";
   endTime = _endTime;
 }
 
 
 void TimeControl::setStartTime(double _startTime) {
-  LOG_IF(currentTime > 0.0, ERROR) << "Trying to set start time = " << _startTime
+  LOG_IF(currentTime > startTime, ERROR) << "Trying to set start time = " << _startTime
       << " when solution is running (current time = " << currentTime << ")";
+  // time stepping, if it isn't running yet, begins from the start time
+  if (currentTime == startTime) {
+    currentTime = _startTime;
+  }
   startTime = _startTime;
 }
 
-- 
2.43.0


From ea126af5380287eff24320c83d2aef08ffb9f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:08 +0000
Subject: [PATCH 08/67] fix: rounding errors of the accumulated time gave one
 load step more than requested

---
 src/lib/FESolver.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index d069773..1716103 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -39,16 +39,22 @@ bool TimeControl::nextStep(double delta) {
   if (currentTime >= endTime) {
     return false;    
   }
+  // currentTime is accumulated with rounding errors, they shouldn't lead to an additional step
+  const double eps = 1.0e-6 * delta;
+  double nextTime;
   // if delta bigger than endTime-currentTime
-  if (currentTime + delta >= endTime) {
+  if (currentTime + delta + eps >= endTime) {
     currentTimeDelta = endTime - currentTime;
-  } else if (currentTime + 2*delta >= endTime) {
+    nextTime = endTime;
+  } else if (currentTime + 2*delta + eps >= endTime) {
     currentTimeDelta = (endTime - currentTime)/2.0;
+    nextTime = currentTime + currentTimeDelta;
   } else {
     currentTimeDelta = delta;
+    nextTime = currentTime + currentTimeDelta;
   }
   DCHECK (currentTimeDelta > 0.0);
-  currentTime += currentTimeDelta;
+  currentTime = nextTime;
   currentEquilibriumStep = 0;
   LOG(INFO) << "***** Loadstep = " << getCurrentStep() << ", Time = "
       << getCurrentTime() << " of " << getEndTime();
-- 
2.43.0


From 5a6cfaf0b4747d4825b4d998b70fa0d6be221beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:08 +0000
Subject: [PATCH 09/67] fix: the last time step was stored again on every
 nextStep() after the end

---
 src/lib/FESolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 1716103..adea06c 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -35,6 +35,8 @@ bool TimeControl::nextStep(double delta) {
   if (currentEquilibriumStep > 0) {
     equilibriumSteps.push_back(currentEquilibriumStep);
     convergedTimeInstances.push_back(currentTime);
+    // this step is stored now, don't store it again
+    currentEquilibriumStep = 0;
   }
   if (currentTime >= endTime) {
     return false;    
-- 
2.43.0


From a1d6583eeac41b7a95445a7e199e0560b9e36d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:05 +0000
Subject: [PATCH 10/67] fix: a load step with moving constrained DoFs could be
 accepted without checking its balance

---
 src/lib/FESolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index adea06c..983089a 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -489,7 +489,9 @@ void NonlinearFESolver::solve() {
       //          need to compare currentCriteria with 1.0 
       // TODO: 2. Current convergence criteria is not good. We need to introduce equilibrium balance
       //          criteria too along with kinematic one. 
-      if (currentCriteria < convergenceCriteria) {
+      // NOTE: while constrained DoFs are moving the balance of the new state isn't examined yet
+      bool constrainedMoved = deltaUc.size() > 0 && calculateCriteria(deltaUc) >= convergenceCriteria;
+      if (currentCriteria < convergenceCriteria && !constrainedMoved) {
         converged = true;
         break;
       }
-- 
2.43.0


From a4ab1dcf3db0368bbf59536b688c37ffa12ddb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:55 +0000
Subject: [PATCH 11/67] fix: Newmark's velocity update mixed up the old and the
 new accelerations (visible for delta != 0.5)

---
 src/lib/FESolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 983089a..eddd814 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -631,7 +631,7 @@ void LinearTransientFESolver::solve() {
 
     // restore derivatives
     vecDDUnext = a0 * (vecUnext - vecU) - a2 * vecDU - a3 * vecDDU;
-    vecDUnext = vecDU + a6 * vecDDUnext + a7 * vecDDU;
+    vecDUnext = vecDU + a6 * vecDDU + a7 * vecDDUnext;
 
     vecU = vecUnext;
     vecDU = vecDUnext;
-- 
2.43.0


From 5f7cbb5e8ba1d9fa9d3818f23de687cd1f2c29a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:55 +0000
Subject: [PATCH 12/67] fix: the transient solver ignored non-zero values of
 constrained DoFs

---
 src/lib/FESolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index eddd814..5e29147 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -621,6 +621,9 @@ void LinearTransientFESolver::solve() {
       matBVprod(*(matM->block(2)), a0*vecUsl + a2*vecDUsl + a3*vecDDUsl, 1.0, rhs);
       matBVprod(*(matC->block(2)), a1*vecUsl + a4*vecDUsl + a5*vecDDUsl, 1.0, rhs);
 
+      // need to take into account elimination of constrained DoFs (they are constant in time):
+      matBTVprod(*(matK->block(1,2)), vecUc, -1.0, rhs);
+
       // copy constrained dofs values
       vecUnextc = vecUc;
       // solve equation system
-- 
2.43.0


From 47026a281985664e5528b80711a14de46bf7d122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:55 +0000
Subject: [PATCH 13/67] fix: rounding errors of the accumulated time could drop
 the last time step

---
 src/lib/FESolver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 5e29147..55bbe3d 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -557,7 +557,7 @@ void LinearTransientFESolver::solve() {
 
   double dt = (time1 - time0) / numberOfTimesteps;
   double curTime = time0 + dt;
-  uint16 curTimestep = 1;
+  uint32 curTimestep = 1;
   // initialize parameters of Newmark procedure
   a0 = 1.0 / (alpha * dt * dt);
   a1 = delta / (alpha * dt);
@@ -615,7 +615,8 @@ void LinearTransientFESolver::solve() {
   eqSolver->factorizeEquations(&matKmod);
 
   // timestepping
-  while (curTime <= time1) {
+  // NOTE: curTime is accumulated with rounding errors and can't be used to count timesteps
+  while (curTimestep <= numberOfTimesteps) {
     for (;;) {
       rhs = vecFsl + vecRsl;
       matBVprod(*(matM->block(2)), a0*vecUsl + a2*vecDUsl + a3*vecDDUsl, 1.0, rhs);
-- 
2.43.0


From a533e4f1b20c66b474772b1c2e84f582b13e76f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:47 +0000
Subject: [PATCH 14/67] fix: Mat::eigenvalues gave NaN for matrices with
 multiple eigenvalues

---
 src/lib/math/Mat.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index 617c824..11a20e0 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -316,9 +316,13 @@ Vec<dimM>  Mat<dimM,dimN>::eigenvalues()
 	// x*x*x + a * x * x + b * x  + c == 0
 	double p = b - a * a / 3;
 	double q = 2 * a * a * a / 27 - a * b / 3 + c;
-	double A = sqrt(- 4 * p / 3); 
+	// p is not positive for real roots (up to rounding errors), A == 0 means a triple root
+	double A = (p < 0.0) ? sqrt(- 4 * p / 3) : 0.0;
  
-	double c3phi = - 4 * q / (A * A * A);
+	double c3phi = (A > 0.0) ? - 4 * q / (A * A * A) : 1.0;
+	// rounding errors for multiple roots
+	if (c3phi > 1.0) c3phi = 1.0;
+	if (c3phi < -1.0) c3phi = -1.0;
  
 	double phi = acos(c3phi) / 3;  
  
-- 
2.43.0


From 707bb65f21e3789a189d5eef85cb8f2651213c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:47 +0000
Subject: [PATCH 15/67] fix: assigning a dMat to itself zeroed it

---
 src/lib/math/Mat.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index 11a20e0..f35cf47 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -504,6 +504,7 @@ public:
 	template <uint16 M> void cpVec(Vec<M> &vec, uint16 col=0);
 	dMat& operator= (const dMat &from)
 	{
+		if (this == &from) return *this;
 		resize(from.dimM, from.dimN);
 		memcpy(this->data, from.data, sizeof(double)*dimM*dimN);
 		return *this;
-- 
2.43.0


From 420eed56049ae69325a028ee04dde560b92fb154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:47 +0000
Subject: [PATCH 16/67] fix: dMat::toMat and toVec read past the dMat when the
 destination is bigger

---
 src/lib/math/Mat.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index f35cf47..bcafd04 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -539,8 +539,9 @@ Mat<M,N> dMat::toMat()
 {
 	assert(M >= dimM && N >= dimN); //Mat >= dMat
 	Mat<M,N> tmp;
-	for (uint16 i = 0; i < M; i++)
-		for (uint16 j = 0; j < N; j++)
+	tmp.zero();
+	for (uint16 i = 0; i < dimM; i++)
+		for (uint16 j = 0; j < dimN; j++)
 			tmp[i][j] = (*this)[i][j];
 	return tmp;
 }
@@ -550,7 +551,7 @@ Vec<M> dMat::toVec(uint16 col)
 {
 	assert(M >= dimM && dimN > col); //Vec >= dMat по M 
 	Vec<M> tmp;
-	for (uint16 i = 0; i < M; i++)
+	for (uint16 i = 0; i < dimM; i++)
 		tmp[i] = (*this)[i][col];
 	return tmp;
 }
-- 
2.43.0


From 1065033ac43d09f3c383904d1ce44d06fdf52b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:47 +0000
Subject: [PATCH 17/67] fix: operator<< for dMat wrote to std::cout instead of
 the given stream

---
 src/lib/math/Mat.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/math/Mat.cpp b/src/lib/math/Mat.cpp
index fdefd4d..031561f 100755
--- a/src/lib/math/Mat.cpp
+++ b/src/lib/math/Mat.cpp
@@ -50,10 +50,10 @@ Mat<3,3> Mat<3,3>::inv(double det) {
 std::ostream &operator<<(std::ostream &stream, dMat &obj) {
 	for (uint16 i = 0; i < obj.dimM; i++)
 	{
-		std::cout << "[";
+		stream << "[";
 		for (uint16 j = 0; j < obj.dimN; j++)
-			std::cout << obj[i][j] << " ";
-		std::cout << "]" << std::endl;
+			stream << obj[i][j] << " ";
+		stream << "]" << std::endl;
 	}
 	return stream;
 }
-- 
2.43.0


From 9c1b28e7f9ca120053830132674dd424843688d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:19 +0000
Subject: [PATCH 18/67] fix: destroying a PARDISO solver that was never used
 passed uninitialised memory to PARDISO

---
 src/lib/math/EquationSolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index d0e8e43..f37cb6f 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -135,7 +135,10 @@ bool GaussDenseEquationSolver::_solve(double* X, double* A,
 
 #ifdef NLA3D_USE_MKL
 PARDISO_equationSolver::~PARDISO_equationSolver () {
-  releasePARDISO();
+  // nothing was allocated if the solver has never been used
+  if (!firstRun) {
+    releasePARDISO();
+  }
 }
 
 void PARDISO_equationSolver::solveEquations (math::SparseSymMatrix* matrix, double* rhs, double* unknowns) {
-- 
2.43.0


From e9303a18e544352d0f7713986fa1fbca29ec80e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:19 +0000
Subject: [PATCH 19/67] fix: PARDISO solver kept the symbolic factorization of
 the previous matrix for a matrix with another pattern

---
 src/lib/math/EquationSolver.cpp | 11 ++++++++++-
 src/lib/math/EquationSolver.h   |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index f37cb6f..31b490a 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -169,8 +169,17 @@ void PARDISO_equationSolver::substituteEquations(math::SparseSymMatrix* matrix,
 
 void PARDISO_equationSolver::factorizeEquations(math::SparseSymMatrix* matrix) {
   TIMED_SCOPE(t, "factorizeEquations");
-  if (firstRun) {
+  // symbolic factorization is valid only for the sparsity pattern it was done for
+  const uint32* iofeir = matrix->getIofeirArray();
+  const uint32* columns = matrix->getColumnsArray();
+  std::vector<uint32> pattern(iofeir, iofeir + matrix->nRows() + 1);
+  pattern.insert(pattern.end(), columns, columns + matrix->nValues());
+  if (firstRun || pattern != analysedPattern) {
+    if (!firstRun) {
+      releasePARDISO();
+    }
     initializePARDISO(matrix);
+    analysedPattern.swap(pattern);
   }
   firstRun = false;
 
diff --git a/src/lib/math/EquationSolver.h b/src/lib/math/EquationSolver.h
index f0f3e89..5090257 100644
--- a/src/lib/math/EquationSolver.h
+++ b/src/lib/math/EquationSolver.h
@@ -70,6 +70,8 @@ protected:
 	int msglvl = 0; 
   
   bool firstRun = true;
+  // sparsity pattern (row offsets and columns) for which symbolic factorization was performed
+  std::vector<uint32> analysedPattern;
   // real symmetric undifinite defined matrix
 	int mtype = -2; 
 };
-- 
2.43.0


From 5d61d31adbc05f447c219d9812a16356427ccaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:13 +0000
Subject: [PATCH 20/67] fix: PARDISO solver lost accuracy on indefinite
 matrices with zeros on the diagonal (MPC rows)

---
 src/lib/math/EquationSolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index 31b490a..9c01783 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -225,6 +225,7 @@ void PARDISO_equationSolver::initializePARDISO (math::SparseSymMatrix* matrix) {
 	iparm[17]=-1; //output: number of nonzeros in the factor LU
 	iparm[18]=-1; //output: MFLOPS for LU factorization
 	iparm[19] = 0; //output: number of CG Iterations
+	iparm[20] = 1; //1x1 and 2x2 Bunch-Kaufman pivoting: indefinite matrices can have zeros on the diagonal
 
   LOG_IF(!isSymmetric, FATAL) << "For now PARDISO_equationSolver doesn't support non-symmetric matrices";
 	if (isPositive) {
-- 
2.43.0


From 857c77ad40a645292a90346fe067496fd5fe3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:11 +0000
Subject: [PATCH 21/67] fix: constraint equations with a number of terms other
 than two were read past the end of the row

---
 src/lib/FEReaders.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index a503562..9d7783f 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -561,7 +561,8 @@ bool readCdbFile(std::string filename, MeshData& md) {
         getLine(file, line);
         t.tokenize(line);
         uint16 place = 6;
-        for (int i = 0; i < std::max(n_terms, 2); i++) {
+        int n_row = std::min(n_terms, 2);
+        for (int i = 0; i < n_row; i++) {
           uint32 node = t.tokenInt(3 + 3 * i + 0);
           Dof::dofType dof = Dof::label2dofType(t.tokens[3 + 3 * i + 1]);
           double coef = t.tokenDouble(3 + 3 * i + 2);
-- 
2.43.0


From be67121c2539e7d80e87bc4ad5005f93feb07c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:49 +0000
Subject: [PATCH 22/67] fix: components with more than 65535 entries could not
 be read

---
 src/lib/FEReaders.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 9d7783f..a4e0e26 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -608,7 +608,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
         }
 
         uint16 in_row = 0;
-        uint16 all = 0;
+        size_t all = 0;
 
         // read all ranges and calculate overall number of entities in component list
         vector<int32> rangesVec;
-- 
2.43.0


From fa87f57ae35672c474fe3913b06403ed781bb948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:49 +0000
Subject: [PATCH 23/67] fix: compressNumbers left nodes that are numbered
 without gaps but out of order as they are

---
 src/lib/FEReaders.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index a4e0e26..ddeb3b9 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -33,8 +33,15 @@ void MeshData::clear() {
 
 
 void MeshData::compressNumbers() {
-  // numbers should start from 1
-  if (nodesNumbers.size() == *std::max_element(nodesNumbers.begin(), nodesNumbers.end())) { 
+  // numbers should start from 1 and go one after another
+  bool isCompressed = true;
+  for (size_t i = 0; i < nodesNumbers.size(); i++) {
+    if (nodesNumbers[i] != i + 1) {
+      isCompressed = false;
+      break;
+    }
+  }
+  if (isCompressed) {
     // nothing to do
     return;
   }
-- 
2.43.0


From fbddbf1b0b559b6745beb573b7f42bbdc6ee1b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:58 +0000
Subject: [PATCH 24/67] fix: reaction processor never noticed nodes with
 different constrained DoFs

---
 src/lib/ReactionProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/ReactionProcessor.cpp b/src/lib/ReactionProcessor.cpp
index 72ab1b7..e99b16f 100755
--- a/src/lib/ReactionProcessor.cpp
+++ b/src/lib/ReactionProcessor.cpp
@@ -41,7 +41,7 @@ void ReactionProcessor::pre() {
     uint32 n = 0;
     while (sameDofsConstrained && n < nodes.size()) {
       for (uint16 d = 0; d < dofs.size(); d++) {
-        if (!storage->isNodeDofUsed(nodes[n], dofs[d]) && !storage->getNodeDof(nodes[n], dofs[d])->isConstrained) {
+        if (!storage->isNodeDofUsed(nodes[n], dofs[d]) || !storage->getNodeDof(nodes[n], dofs[d])->isConstrained) {
           LOG(FATAL) << "Different dofs are constrained in the node set. Autochoosing of dofs is failed";
           sameDofsConstrained = false;
           break;
-- 
2.43.0


From e3272e875f1c892d2b15ed52c81e85affa7115a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:25 +0000
Subject: [PATCH 25/67] fix: VTK tensor fields started from uninitialised
 values

---
 src/lib/VtkProcessor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/VtkProcessor.cpp b/src/lib/VtkProcessor.cpp
index e50040e..e371939 100755
--- a/src/lib/VtkProcessor.cpp
+++ b/src/lib/VtkProcessor.cpp
@@ -263,7 +263,9 @@ void VtkProcessor::write_cell_data(std::ofstream &file) {
 
   // write Element tensor results (only if they are requested in cellScalarQueries)
   for(auto query : cellTensorQueries) {
-    dataTensor.assign(en, MatSym<3>());
+    MatSym<3> zeroTensor;
+    zeroTensor.zero();
+    dataTensor.assign(en, zeroTensor);
     for (uint32 i = 1; i <= storage->nElements(); i++) {
       // dataTensor[i-1].zero();
       storage->getElement(i).getTensor(&(dataTensor[i-1]), query);
-- 
2.43.0


From 1db33b04841c3f69fc69da5f841275ddd23c9d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:22 +0000
Subject: [PATCH 26/67] fix: product of a symmetric sparse matrix ignored
 vector entries smaller than 1e-20

---
 src/lib/math/SparseMatrix.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index ab245e9..904ab6c 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -510,18 +510,16 @@ void matBVprod(SparseSymMatrix &B, const dVec &V, const double coef, dVec &R) {
   assert(R.size() >= B.nRows());
   // TODO: Try to use BLAS routines and measure speedup
 
-	const double eps = 1e-20;
-
   for (uint32 i = 1; i <= B.nRows(); i++) {
     // walk on lower triangle
     for (uint32 j = 1; j <= i; j++)
-      if (fabs(V[j-1]) > eps)
+      if (V[j-1] != 0.0)
         R[i-1] += B.value(j, i) * V[j-1] * coef;
 
     // walk on upper triangle
     // TODO: could be done in more efficient way
     for (uint32 j = i + 1; j <= B.nRows(); j++)
-      if (fabs(V[j-1]) > eps)
+      if (V[j-1] != 0.0)
         R[i-1] += B.value(i, j) * V[j-1] * coef;
   }
 }
-- 
2.43.0


From f0c39807e7eafc39d8c96269c4124afa3a98c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 27/67] fix: INTER3::getTensor returned nothing for queries it
 doesn't know

---
 src/lib/elements/INTER3.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/elements/INTER3.cpp b/src/lib/elements/INTER3.cpp
index 35e985d..bdef06c 100644
--- a/src/lib/elements/INTER3.cpp
+++ b/src/lib/elements/INTER3.cpp
@@ -232,6 +232,7 @@ bool ElementINTER3::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16
     tensor->comp(0,2) += 0.;
     return true;
   }
+  return false;
 }
 
 
-- 
2.43.0


From f57d7434d75c4be06e95444e24cd69d0abb0bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 28/67] fix: INTER0 stiffness was NaN for normals parallel to
 (0,1,1)

---
 src/lib/elements/INTER0.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/INTER0.cpp b/src/lib/elements/INTER0.cpp
index 8884c3f..b06c6b1 100644
--- a/src/lib/elements/INTER0.cpp
+++ b/src/lib/elements/INTER0.cpp
@@ -23,7 +23,13 @@ void ElementINTER0::buildK() {
   K.setZero();
 
   //Произвольный линенйно независмый базис
-  math::Vec<3> s1(n[0],n[1]+1.,n[2]+1.);
+  // (the axis with the smallest component of n: it is never parallel to n)
+  math::Vec<3> s1(0., 0., 0.);
+  uint16 axis = 0;
+  for (uint16 i = 1; i < 3; i++) {
+    if (fabs(n[i]) < fabs(n[axis])) axis = i;
+  }
+  s1[axis] = 1.;
   //ортогонализаця базиса
   math::Vec<3> proj_s1_n = n*((s1[0]*n[0]+s1[1]*n[1]+s1[2]*n[2])/n.qlength());
   s1 = s1 - proj_s1_n;
-- 
2.43.0


From 9a1927e8feb6fc14274d85ae1837060c5d61b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 29/67] fix: TRIANGLE4 plane stress elasticity matrix
 multiplied by (1-my^2) instead of dividing

---
 src/lib/elements/TRIANGLE4.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/TRIANGLE4.cpp b/src/lib/elements/TRIANGLE4.cpp
index 41e2d7a..3792365 100644
--- a/src/lib/elements/TRIANGLE4.cpp
+++ b/src/lib/elements/TRIANGLE4.cpp
@@ -111,7 +111,7 @@ void ElementTRIANGLE4::makeC (math::MatSym<3> &C) {
     }
     //Plane stress state
     if (state == PlaneState::Stress){
-      const double A = E*(1.-my*my);
+      const double A = E/(1.-my*my);
       C.comp(0,0) = 1.*A;
       C.comp(0,1) = my*A; 
       C.comp(1,1) = 1.*A;
-- 
2.43.0


From 9e88da6cb41c7f92464c0743797c4a25a6c08b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 30/67] fix: TRIANGLE4 strains and stresses were accumulated
 over updates

---
 src/lib/elements/TRIANGLE4.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/elements/TRIANGLE4.cpp b/src/lib/elements/TRIANGLE4.cpp
index 3792365..ffc6ecc 100644
--- a/src/lib/elements/TRIANGLE4.cpp
+++ b/src/lib/elements/TRIANGLE4.cpp
@@ -68,8 +68,10 @@ void ElementTRIANGLE4::update () {
     U[i*2 + 1] = storage->getNodeDofSolution(getNodeNumber(i), Dof::UY);
   }
   // restore strains
+  strains.zero();
   math::matBVprod(matB, U, 1.0, strains);
   // restore stresses
+  stress.zero();
   math::matBVprod(matC, strains, 1.0, stress);
 }
 
-- 
2.43.0


From 31bb0beeae3fd1fa5ec69cdeb805c33dad885235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 31/67] fix: TETRA1 conductivity matrix had the opposite sign
 (heat loads cooled the body)

---
 src/lib/elements/TETRA1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/TETRA1.cpp b/src/lib/elements/TETRA1.cpp
index 3465078..4f99260 100644
--- a/src/lib/elements/TETRA1.cpp
+++ b/src/lib/elements/TETRA1.cpp
@@ -131,9 +131,9 @@ void ElementTETRA1::makeB(math::Mat<3,4> &B)
 }
 
 void ElementTETRA1::makeC (math::MatSym<3> &C) {
-  C.comp(0,0) = -k;
-  C.comp(1,1) = -k;
-  C.comp(2,2) = -k;
+  C.comp(0,0) = k;
+  C.comp(1,1) = k;
+  C.comp(2,2) = k;
 }
 
 bool ElementTETRA1::getScalar(double* scalar, scalarQuery query, uint16 gp, const double scale) {
-- 
2.43.0


From 7a38a56c941135aa8a52469e0dd4fedc7f24c945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 32/67] fix: TETRA1 reported the temperature gradient with the
 opposite sign

---
 src/lib/elements/TETRA1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/TETRA1.cpp b/src/lib/elements/TETRA1.cpp
index 4f99260..0729a04 100644
--- a/src/lib/elements/TETRA1.cpp
+++ b/src/lib/elements/TETRA1.cpp
@@ -150,7 +150,7 @@ bool  ElementTETRA1::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
       *vector += flux*scale;
       return true;
     case vectorQuery::GRADT:
-      *vector += flux*(scale/k);
+      *vector += flux*(-scale/k);
       return true;
   }  
   return false;
-- 
2.43.0


From 403d680364c3ea82a95708114389d8727a9e01b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 33/67] fix: result queries of TETRA0, INTER0 and INTER3
 ignored the scale factor

---
 src/lib/elements/INTER0.cpp |  6 +++---
 src/lib/elements/INTER3.cpp | 12 ++++++------
 src/lib/elements/TETRA0.cpp | 32 ++++++++++++++++----------------
 3 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/lib/elements/INTER0.cpp b/src/lib/elements/INTER0.cpp
index b06c6b1..2e712e1 100644
--- a/src/lib/elements/INTER0.cpp
+++ b/src/lib/elements/INTER0.cpp
@@ -77,9 +77,9 @@ bool  ElementINTER0::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
 
 bool ElementINTER0::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale){
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
+      tensor->comp(0,0) += strains[0]*scale;
+      tensor->comp(1,1) += strains[1]*scale;
+      tensor->comp(2,2) += strains[2]*scale;
       tensor->comp(0,1) += 0.;
       tensor->comp(1,2) += 0.;
       tensor->comp(0,2) += 0.;
diff --git a/src/lib/elements/INTER3.cpp b/src/lib/elements/INTER3.cpp
index bdef06c..4f84f62 100644
--- a/src/lib/elements/INTER3.cpp
+++ b/src/lib/elements/INTER3.cpp
@@ -215,18 +215,18 @@ bool  ElementINTER3::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
 
 bool ElementINTER3::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale){
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
+      tensor->comp(0,0) += strains[0]*scale;
+      tensor->comp(1,1) += strains[1]*scale;
+      tensor->comp(2,2) += strains[2]*scale;
       tensor->comp(0,1) += 0.;
       tensor->comp(1,2) += 0.;
       tensor->comp(0,2) += 0.;
       return true;
   }
   if (query == tensorQuery::E){
-    tensor->comp(0,0) += stress[0];
-    tensor->comp(1,1) += stress[1];
-    tensor->comp(2,2) += stress[2];
+    tensor->comp(0,0) += stress[0]*scale;
+    tensor->comp(1,1) += stress[1]*scale;
+    tensor->comp(2,2) += stress[2]*scale;
     tensor->comp(0,1) += 0.;
     tensor->comp(1,2) += 0.;
     tensor->comp(0,2) += 0.;
diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index b449d51..d76be34 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -200,7 +200,7 @@ void ElementTETRA0::makeC (math::MatSym<6> &C) {
 
 bool ElementTETRA0::getScalar(double* scalar, scalarQuery query, uint16 gp, const double scale) {
   if (query == scalarQuery::VOL){
-     *scalar += vol;
+     *scalar += vol*scale;
     return true;
   }
   return false;
@@ -208,27 +208,27 @@ bool ElementTETRA0::getScalar(double* scalar, scalarQuery query, uint16 gp, cons
 
 bool  ElementTETRA0::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale) {
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
-      tensor->comp(0,1) += strains[3];
-      tensor->comp(1,2) += strains[4];
-      tensor->comp(0,2) += strains[5];
+      tensor->comp(0,0) += strains[0]*scale;
+      tensor->comp(1,1) += strains[1]*scale;
+      tensor->comp(2,2) += strains[2]*scale;
+      tensor->comp(0,1) += strains[3]*scale;
+      tensor->comp(1,2) += strains[4]*scale;
+      tensor->comp(0,2) += strains[5]*scale;
       return true;
   }
   if (query == tensorQuery::E){
-    tensor->comp(0,0) += stress[0];
-    tensor->comp(1,1) += stress[1];
-    tensor->comp(2,2) += stress[2];
-    tensor->comp(0,1) += stress[3];
-    tensor->comp(1,2) += stress[4];
-    tensor->comp(0,2) += stress[5];
+    tensor->comp(0,0) += stress[0]*scale;
+    tensor->comp(1,1) += stress[1]*scale;
+    tensor->comp(2,2) += stress[2]*scale;
+    tensor->comp(0,1) += stress[3]*scale;
+    tensor->comp(1,2) += stress[4]*scale;
+    tensor->comp(0,2) += stress[5]*scale;
     return true;
   }
   if (query == tensorQuery::TSTRAIN){
-    tensor->comp(0,0) += alpha*T;
-    tensor->comp(1,1) += alpha*T;
-    tensor->comp(2,2) += alpha*T;
+    tensor->comp(0,0) += alpha*T*scale;
+    tensor->comp(1,1) += alpha*T*scale;
+    tensor->comp(2,2) += alpha*T*scale;
     tensor->comp(0,1) += 0.;
     tensor->comp(1,2) += 0.;
     tensor->comp(0,2) += 0.;
-- 
2.43.0


From 09a42e89162b2ed3873b348abce858ad56575b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 34/67] fix: PLANE41::getVector wrote past the result vector

---
 src/lib/elements/PLANE41.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/PLANE41.cpp b/src/lib/elements/PLANE41.cpp
index fe31d30..b482a4b 100755
--- a/src/lib/elements/PLANE41.cpp
+++ b/src/lib/elements/PLANE41.cpp
@@ -200,9 +200,9 @@ bool ElementPLANE41::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
       CVec[M_YY] = C[gp][1];
       CVec[M_XY] = C[gp][2];
       solidmech::IC_C(CVec.ptr(), IC);
-      vector[0] += IC[0] * scale;
-      vector[1] += IC[1] * scale;
-      vector[2] += IC[2] * scale;
+      (*vector)[0] += IC[0] * scale;
+      (*vector)[1] += IC[1] * scale;
+      (*vector)[2] += IC[2] * scale;
       return true;
   }
   return false;
-- 
2.43.0


From a7c9f80c61c914b955df30bd440e1b08c1a34729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:55 +0000
Subject: [PATCH 35/67] fix: PLANE41 Cauchy stress was F^T S F / J and ignored
 the scale factor

---
 src/lib/elements/PLANE41.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/PLANE41.cpp b/src/lib/elements/PLANE41.cpp
index b482a4b..a248e36 100755
--- a/src/lib/elements/PLANE41.cpp
+++ b/src/lib/elements/PLANE41.cpp
@@ -244,10 +244,11 @@ bool  ElementPLANE41::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
   switch (query) {
     case tensorQuery::COUCHY:
 
+      // matF^T
       matF.zero();
       matF.data[0][0] = 1+O[gp][0]; //11
-      matF.data[0][1] = O[gp][1];  //12
-      matF.data[1][0] = O[gp][2];  //21
+      matF.data[1][0] = O[gp][1];  //12
+      matF.data[0][1] = O[gp][2];  //21
       matF.data[1][1] = 1+O[gp][3];//22
       matF.data[2][2] = 1; //33
 
@@ -264,7 +265,7 @@ bool  ElementPLANE41::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
       mat = dynamic_cast<Mat_Hyper_Isotrop_General*>(storage->getMaterial());
       CHECK_NOTNULL(mat);
       mat->getS_UP(6, solidmech::defaultTensorComponents, CVec.ptr(), p_e, matS.data);
-      matBTDBprod(matF, matS, 1.0/J, *tensor); //Symmetric Couchy tensor
+      matBTDBprod(matF, matS, 1.0/J*scale, *tensor); //Symmetric Couchy tensor
       return true;
 
     case tensorQuery::PK2:
-- 
2.43.0


From 924091a35ec177fab26db38325469ad77ffa9837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:55 +0000
Subject: [PATCH 36/67] fix: SOLID81 stress results contained the hydrostatic
 pressure twice

---
 src/lib/elements/SOLID81.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/lib/elements/SOLID81.cpp b/src/lib/elements/SOLID81.cpp
index a3130f4..956d6e0 100644
--- a/src/lib/elements/SOLID81.cpp
+++ b/src/lib/elements/SOLID81.cpp
@@ -282,8 +282,6 @@ bool  ElementSOLID81::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
   Mat<3,3> matF;
   MatSym<3> matS;
   double J;
-  double cInv[6];
-  double pe;
 
   switch (query) {
     case tensorQuery::COUCHY:
@@ -301,25 +299,17 @@ bool  ElementSOLID81::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
 
       J = solidmech::J_C(C[gp].ptr());
 
-      //deviatoric part of S: Sd = S[gp]
-      //hydrostatic part of S: Sp = p * J * C^(-1)
-      solidmech::invC_C (C[gp].ptr(), J, cInv); 
-      pe = storage->getElementDofSolution(getElNum(), Dof::HYDRO_PRESSURE);
-      // TODO: it seems that S[gp] contains deviatoric + pressure already..
-      // we dont need to sum it again
+      // S[gp] contains deviatoric and hydrostatic parts already
       for (uint16 i = 0; i < 6; i++) {
-        matS.data[i] = S[gp][i] + pe * J * cInv[i];
+        matS.data[i] = S[gp][i];
       }
       matBTDBprod (matF, matS, 1.0/J*scale, *tensor); //Symmetric Couchy tensor
       return true;
 
     case tensorQuery::PK2:
-      // hydrostatic part of S: Sp = p * J * C^(-1)
-      J = solidmech::J_C(C[gp].ptr());
-      solidmech::invC_C (C[gp].ptr(), J, cInv); 
-      pe = storage->getElementDofSolution(getElNum(), Dof::HYDRO_PRESSURE);
+      // S[gp] contains deviatoric and hydrostatic parts already
       for (uint16 i = 0; i < 6; i++) {
-        tensor->data[i] += (S[gp][i] + pe * J * cInv[i]) * scale;
+        tensor->data[i] += S[gp][i] * scale;
       }
       return true;
 
-- 
2.43.0


From bfa99d98f038b4a5a05011908cf00831d6184c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:55 +0000
Subject: [PATCH 37/67] fix: SOLID81 deviatoric energy was taken from
 invariants with the volume change in them

---
 src/lib/elements/SOLID81.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/SOLID81.cpp b/src/lib/elements/SOLID81.cpp
index 956d6e0..8bcfc00 100644
--- a/src/lib/elements/SOLID81.cpp
+++ b/src/lib/elements/SOLID81.cpp
@@ -218,7 +218,9 @@ bool ElementSOLID81::getScalar(double* scalar, scalarQuery query, uint16 gp, con
     case scalarQuery::WU:
       getVector(&tmp, vectorQuery::IC, gp, 1.0);
       mat = CHECK_NOTNULL(dynamic_cast<Mat_Hyper_Isotrop_General*>(storage->getMaterial()));
-      *scalar += mat->W(tmp[0], tmp[1], tmp[2]) * scale;
+      // W is a function of the invariants of the isochoric part of the deformation
+      J = tmp[2];
+      *scalar += mat->W(tmp[0] * pow(J, -2.0/3.0), tmp[1] * pow(J, -4.0/3.0), 1.0) * scale;
       return true;
 
     case scalarQuery::WP:
-- 
2.43.0


From cbc34a1a7249c8563a15d895aeb9fa82edbfa90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:55 +0000
Subject: [PATCH 38/67] fix: name of the Mooney-Rivlin material

---
 src/lib/materials/materials_hyperelastic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/materials/materials_hyperelastic.h b/src/lib/materials/materials_hyperelastic.h
index 6b81b28..ee35e4b 100644
--- a/src/lib/materials/materials_hyperelastic.h
+++ b/src/lib/materials/materials_hyperelastic.h
@@ -95,7 +95,7 @@ class Mat_Comp_MooneyRivlin : public Mat_Hyper_Isotrop_General
 	
 	Mat_Comp_MooneyRivlin () {
 		register_mat_const(3,"C10","C01","K");
-    name = "Money-Rivlin";
+    name = "Mooney-Rivlin";
 	}
 	void W_first_derivatives (double I1, double I2, double I3, double *alpha);
 	void W_second_derivatives (double I1, double I2, double I3, double *alpha);
-- 
2.43.0


From a8139af093a0e3ae2432ed9239ee268ca47786c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:09 +0000
Subject: [PATCH 39/67] fix: TETRA0 stresses included the elastic response to
 the thermal strain (free expansion gave stresses)

---
 src/lib/elements/TETRA0.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index d76be34..8f46430 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -103,8 +103,13 @@ void ElementTETRA0::update () {
   strains.zero();
   math::matBVprod(matB, U, -1.0, strains);
   
+  // thermal strains don't produce stresses
+  const double tStrain = alpha*T;
+  math::Vec<6> mStrains = strains;
+  for (uint16 i = 0; i < 3; i++) mStrains[i] -= tStrain;
+
   stress.zero();
-  math::matBVprod(matC, strains, 1.0, stress);
+  math::matBVprod(matC, mStrains, 1.0, stress);
 }
 
 void ElementTETRA0::makeB(math::Mat<6,12> &B)
-- 
2.43.0


From 632170bbcb35d4263bb308f3ec6b60fa634099ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:26 +0000
Subject: [PATCH 40/67] fix: TETRA0::buildK added the thermal strains again
 each time it was called

---
 src/lib/elements/TETRA0.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index 8f46430..2ba6462 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -51,24 +51,26 @@ void ElementTETRA0::buildK() {
     math::Mat<12,6> matBTC;
     matBTC = matB.transpose()*matC.toMat();
 
+    // total initial strains (the given ones are kept, buildK can be called again)
+    math::Vec<6> initStrains = strains;
+
     //mechanical initial stress
     if (stress.qlength() != 0.){
-      strains.zero();
       math::Mat<6,6> matP;
       matP = matC.toMat().inv(matC.toMat().det());
-      strains = matP*stress;
+      initStrains = matP*stress;
     }
     
     //termal initial strains
     if (alpha != 0. && T != 0.){
       //temp node forces
       math::Vec<6> tStrains = {alpha*T,alpha*T,alpha*T,0.,0.,0.};
-      strains = strains + tStrains;
+      initStrains = initStrains + tStrains;
     }
 
 
     //mechanical initial strains
-    math::matBVprod(matBTC, strains, -vol, Fe);
+    math::matBVprod(matBTC, initStrains, -vol, Fe);
 
     assembleK(matKe, Fe, {Dof::UX, Dof::UY, Dof::UZ});
   }
-- 
2.43.0


From 21d89f54143ec8492beb82d109b1a5a549ecf0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:49 +0000
Subject: [PATCH 41/67] fix: a material was deleted through a base class
 without a virtual destructor

---
 src/lib/materials/material.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/materials/material.h b/src/lib/materials/material.h
index c8b0d00..058fe02 100755
--- a/src/lib/materials/material.h
+++ b/src/lib/materials/material.h
@@ -17,7 +17,7 @@ public:
 	Material () : MC(NULL), numC(0), code(0) { 
 	}
 	Material (uint16 num_c);
-	~Material()   // TODO: discover the virtual destructor
+	virtual ~Material()
 	{
 		if (MC) delete[] MC; 
 		MC = NULL;
-- 
2.43.0


From cf913fed1d2851ec90b3e63c956771bb69cb1a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:49 +0000
Subject: [PATCH 42/67] fix: MPC collections were deleted through a base class
 without a virtual destructor

---
 src/lib/Mpc.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/Mpc.h b/src/lib/Mpc.h
index 22c4a5b..89ecf61 100644
--- a/src/lib/Mpc.h
+++ b/src/lib/Mpc.h
@@ -39,6 +39,7 @@ class Mpc {
 
 class MpcCollection {
   public:
+    virtual ~MpcCollection() { }
     virtual void update() = 0;
     virtual void pre() = 0;
     void printEquations(std::ostream& out);
-- 
2.43.0


From b97693616b3d026af04fda339c91109ac3d1fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:49 +0000
Subject: [PATCH 43/67] fix: post-processors were deleted through a base class
 without a virtual destructor

---
 src/lib/PostProcessor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PostProcessor.h b/src/lib/PostProcessor.h
index 3ad5b30..0add1cc 100755
--- a/src/lib/PostProcessor.h
+++ b/src/lib/PostProcessor.h
@@ -15,7 +15,7 @@ class FESolver;
 class PostProcessor {
 public:
 	PostProcessor(FEStorage *st);
-	~PostProcessor() { };
+	virtual ~PostProcessor() { };
 	virtual void pre ()=0;
 	virtual void process (uint16 curLoadstep)=0;
 	virtual void post (uint16 curLoadstep)=0;
-- 
2.43.0


From ba73fd70cf818a7d9074c78b51c58303f339ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:35 +0000
Subject: [PATCH 44/67] fix: FEStorage::deleteMpcs left pointers to the deleted
 equations in the list

---
 src/lib/FEStorage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 2d123fa..4445412 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -274,6 +274,7 @@ void FEStorage::deleteMpcs() {
     delete *mpc;
     mpc++;
   }
+  mpcs.clear();
 }
 
 
-- 
2.43.0


From d2eca6e4437cbb47f231daff76c8d71a27390ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:35 +0000
Subject: [PATCH 45/67] fix: a second analysis kept the number of constrained
 DoFs and leaked the matrices of the first one

---
 src/lib/FEStorage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 4445412..664a9a5 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -342,6 +342,9 @@ void FEStorage::initDofs() {
 		LOG(FATAL) << "No any nodes or elements";
 	}
   
+  // drop solution data of the previous analysis (if any)
+  deleteSolutionData();
+
   nodeDofs.initDofTable(nNodes());
   elementDofs.initDofTable(nElements());
 
-- 
2.43.0


From 3a7305e46f91bd897f8a2cb633bf16da49208700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:08 +0000
Subject: [PATCH 46/67] fix: a second analysis took the equations of MPC
 collections twice

---
 src/lib/FEStorage.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 664a9a5..5a475db 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -275,6 +275,10 @@ void FEStorage::deleteMpcs() {
     mpc++;
   }
   mpcs.clear();
+  // the collections shouldn't refer to the deleted equations
+  for (auto& mpcCol : mpcCollections) {
+    mpcCol->collection.clear();
+  }
 }
 
 
@@ -353,8 +357,24 @@ void FEStorage::initDofs() {
   }
 
   for (size_t i = 0; i < mpcCollections.size(); i++) {
+    auto& collection = mpcCollections[i]->collection;
+    // equations of the collection which were registered in the previous analysis
+    std::set<Mpc*> oldMpcs(collection.begin(), collection.end());
+    std::set<Mpc*> registeredMpcs;
+    mpcs.remove_if([&] (Mpc* mpc) {
+      return oldMpcs.count(mpc) > 0 && registeredMpcs.insert(mpc).second;
+    });
+
     mpcCollections[i]->pre();
     mpcCollections[i]->registerMpcsInStorage();
+
+    // pre() could create new equations in place of the old ones
+    for (auto& mpc : collection) {
+      registeredMpcs.erase(mpc);
+    }
+    for (auto& mpc : registeredMpcs) {
+      delete mpc;
+    }
   }
 
   // Total number of dofs (only registered by elements)
-- 
2.43.0


From 1b8170deb2206cc9f9189ab088913104c790ab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:08 +0000
Subject: [PATCH 47/67] fix: PostProcessor::getStatus reported the active flag
 as the failed one

---
 src/lib/PostProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PostProcessor.cpp b/src/lib/PostProcessor.cpp
index 43c3477..80189f3 100755
--- a/src/lib/PostProcessor.cpp
+++ b/src/lib/PostProcessor.cpp
@@ -15,7 +15,7 @@ PostProcessor::PostProcessor(FEStorage *st) {
 
 std::string PostProcessor::getStatus () {
 	char buf[300];
-	sprintf_s(buf, 200, "PostProcessor No %d: %s\n\tActive - %s, Failed - %s",nPost_proc, name.c_str(),active?"true":"false",active?"true":"false");
+	sprintf_s(buf, 200, "PostProcessor No %d: %s\n\tActive - %s, Failed - %s",nPost_proc, name.c_str(),active?"true":"false",failed?"true":"false");
 	return std::string(buf);
 }
 
-- 
2.43.0


From 8d5f18a23e3a12d405192fea25f60d8780152540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:08 +0000
Subject: [PATCH 48/67] fix: Material::Ci returned a reference to a local
 variable for an unknown constant

---
 src/lib/materials/material.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/materials/material.cpp b/src/lib/materials/material.cpp
index bf31414..ae5e66b 100755
--- a/src/lib/materials/material.cpp
+++ b/src/lib/materials/material.cpp
@@ -34,7 +34,9 @@ double& Material::Ci (const std::string& nameConst) {
     }
   }
 	LOG(ERROR) << "Dan't find a material constant with name " << nameConst;
-  double dummy;
+  // a reference to a local variable can't be returned
+  static double dummy;
+  dummy = 0.0;
   return dummy;
 }
 
-- 
2.43.0


From a8b46641ffd6228b7756458e3b79a98fed24f02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:48 +0000
Subject: [PATCH 49/67] fix: a nonlinear solver did no load steps when solve()
 was called again

---
 src/lib/FESolver.cpp | 11 +++++++++++
 src/lib/FESolver.h   |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 55bbe3d..58d967b 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -128,6 +128,16 @@ void TimeControl::setStartTime(double _startTime) {
 }
 
 
+void TimeControl::restart() {
+  convergedTimeInstances.clear();
+  equilibriumSteps.clear();
+  currentEquilibriumStep = 0;
+  totalNumberOfEquilibriumSteps = 0;
+  currentTimeDelta = 0.0;
+  currentTime = startTime;
+}
+
+
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ //
 // FESolver
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ //
@@ -448,6 +458,7 @@ void NonlinearFESolver::solve() {
   }
 
   double currentCriteria = 0.0;
+  timeControl.restart();
   double timeDelta = (timeControl.getEndTime() - timeControl.getStartTime()) / numberOfLoadsteps;
 
   while (timeControl.nextStep(timeDelta)) {
diff --git a/src/lib/FESolver.h b/src/lib/FESolver.h
index 2f72603..d017466 100644
--- a/src/lib/FESolver.h
+++ b/src/lib/FESolver.h
@@ -44,6 +44,8 @@ public:
 
   void setEndTime (double _endTime);
   void setStartTime (double _startTime);
+  // come back to the start time and forget all passed steps
+  void restart ();
 protected:
   std::list<double> convergedTimeInstances;
   std::list<uint16> equilibriumSteps;
-- 
2.43.0


From ab1b866c87474b30735d8c88aa29a8523b637f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:26 +0000
Subject: [PATCH 50/67] fix: nla3d read material constants which were not given

---
 src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 8c4d1f2..473ed8d 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -171,9 +171,11 @@ int main (int argc, char* argv[]) {
   md.compressNumbers();
 
   Material* mat = CHECK_NOTNULL (MaterialFactory::createMaterial(options::materialName));
-  if (mat->getNumC() != options::materialConstants.size())
+  if (mat->getNumC() != options::materialConstants.size()) {
     LOG(ERROR) << "Material " << options::materialName << " needs exactly " << mat->getNumC()
       << " constants (" << options::materialConstants.size() << " were provided)";
+    exit(1);
+  }
   for (uint16 i = 0; i < mat->getNumC(); i++) {
     mat->Ci(i) = options::materialConstants[i];
   }
-- 
2.43.0


From 9fe843a996ca377e8ca5b9577a749f254ad29a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:26 +0000
Subject: [PATCH 51/67] fix: equal neighbour values of a reference curve were
 taken as one point

---
 src/main.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 473ed8d..d5e6fbe 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -345,19 +345,14 @@ std::vector<double> readRefCurveData (std::string fileRefCurve) {
   std::ifstream file(fileRefCurve.c_str());
   std::string dummy;
   double tmp;
-  double pre_tmp = -1.0;
   std::vector<double> res;
   file >> dummy >> dummy >> dummy;
   if (dummy.compare("force") != 0) {
     LOG(ERROR) << "readRefCurveData: Expecting third column to a force column";
     exit(1);
   }
-  while (!file.eof()) {
-    file >> dummy >> dummy >> tmp;
-    if (tmp != pre_tmp) {
-      res.push_back(tmp);
-      pre_tmp = tmp;
-    }
+  while (file >> dummy >> dummy >> tmp) {
+    res.push_back(tmp);
   }
   file.close();
   return res;
-- 
2.43.0


From d9aadc0d9c2f3f1aa13a6ff953d092a894a9f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:26 +0000
Subject: [PATCH 52/67] fix: nla3d took the number of the rigid body master
 node after renumbering

---
 src/main.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index d5e6fbe..e9d8477 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -168,6 +168,17 @@ int main (int argc, char* argv[]) {
   if (!readCdbFile (options::modelFilename, md)) {
     LOG(FATAL) << "Can't read FE info from " << options::modelFilename << "file. exiting..";
   }
+
+  // the master node is given by its number in the mesh file
+  if (options::rigidBodyMasterNode > 0) {
+    auto master = std::find(md.nodesNumbers.begin(), md.nodesNumbers.end(), options::rigidBodyMasterNode);
+    if (master == md.nodesNumbers.end()) {
+      LOG(ERROR) << "Rigid Body MPC: there is no node " << options::rigidBodyMasterNode;
+      exit(1);
+    }
+    options::rigidBodyMasterNode = static_cast<uint32> (master - md.nodesNumbers.begin()) + 1;
+  }
+
   md.compressNumbers();
 
   Material* mat = CHECK_NOTNULL (MaterialFactory::createMaterial(options::materialName));
-- 
2.43.0


From e46d6584356db6cd94f3d68008673e7bfce76f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:26 +0000
Subject: [PATCH 53/67] fix: nla3d reported wrong DoFs of a rigid body MPC

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index e9d8477..af3fac5 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -294,7 +294,7 @@ int main (int argc, char* argv[]) {
     std::vector<std::string> slaveDofLabels;
     slaveDofLabels.assign(mpc->dofs.size(), "");
     for (uint16 i = 0; i < mpc->dofs.size(); i++) {
-      slaveDofLabels[i] = Dof::dofTypeLabels[i];
+      slaveDofLabels[i] = Dof::dofTypeLabels[mpc->dofs[i]];
     }
 
     LOG(INFO) << "Rigid Body MPC collection: master node = " << mpc->masterNode << ", number of slaves = " <<  
-- 
2.43.0


From 4512bf8c804d1266f7617fedfb6434c3a9f54101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:12 +0000
Subject: [PATCH 54/67] fix: job name was cut at a dot in the name of a
 directory

---
 src/lib/sys.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lib/sys.cpp b/src/lib/sys.cpp
index c9afa35..b78d2b0 100755
--- a/src/lib/sys.cpp
+++ b/src/lib/sys.cpp
@@ -105,11 +105,13 @@ bool cmdOptionExists(char** begin, char** end, const std::string& option) {
 //TODO: this functions only truncate file extension. 
 //But it was intended to leave only a file name (delete path and extension)
 std::string getFileNameFromPath(const std::string filename) {
-    std::string::const_reverse_iterator pivot = 
-          std::find( filename.rbegin(), filename.rend(), '.' );
-    return pivot == filename.rend()
-        ? filename
-        : std::string( filename.begin(), pivot.base() - 1 );
+    // only a dot in the last component of the path starts the extension
+    std::string::size_type slash = filename.find_last_of("/\\");
+    std::string::size_type dot = filename.rfind('.');
+    if (dot == std::string::npos || (slash != std::string::npos && dot < slash)) {
+        return filename;
+    }
+    return filename.substr(0, dot);
 }
 
 } // namespace nla3d
-- 
2.43.0


From fab08a15c54ca0bb848db37b7125db9321926666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:25 +0000
Subject: [PATCH 55/67] fix: the constant of a constraint equation was added at
 each iteration of a nonlinear analysis

---
 src/lib/FESolver.cpp  |  1 +
 src/lib/FEStorage.cpp | 18 ++++++++++++++++++
 src/lib/FEStorage.h   |  5 +++++
 3 files changed, 24 insertions(+)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 58d967b..dbef78d 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -467,6 +467,7 @@ void NonlinearFESolver::solve() {
       timeControl.nextEquilibriumStep();
       vecR.zero();
       storage->assembleGlobalEqMatrices();
+      storage->setMpcIncrements(timeControl.getCurrentNormalizedTime());
       applyBoundaryConditions(timeControl.getCurrentNormalizedTime());
 
       deltaUc = vecUc - Ucprev;
diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 5a475db..8418ee7 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -78,6 +78,24 @@ void FEStorage::assembleGlobalEqMatrices() {
 }
 
 
+void FEStorage::setMpcIncrements(double time) {
+  std::set<Mpc*> collected;
+  for (auto& mpcCol : mpcCollections) {
+    collected.insert(mpcCol->collection.begin(), mpcCol->collection.end());
+  }
+  for (auto& mpc : mpcs) {
+    if (collected.count(mpc) > 0) {
+      continue;
+    }
+    double rhs = mpc->b * time;
+    for (auto& term : mpc->eq) {
+      rhs -= term.coef * getNodeDofSolution(term.node, term.node_dof);
+    }
+    vecF[mpc->eqNum - 1] = rhs;
+  }
+}
+
+
 void FEStorage::setConstrainedNodeDof(uint32 node, Dof::dofType dtype) {
   Dof* dof = nodeDofs.getDof(node, dtype);
   assert(dof);
diff --git a/src/lib/FEStorage.h b/src/lib/FEStorage.h
index 7aeea8d..1ab7b35 100755
--- a/src/lib/FEStorage.h
+++ b/src/lib/FEStorage.h
@@ -113,6 +113,11 @@ public:
   // Procedure of filling global equations system matrices and RHS vectors with actual values.
   // if isTransient() == bool then matC, matM are also assembled.
   void assembleGlobalEqMatrices();
+  // An incremental solver needs right parts of Mpc equations for increments of DoFs: the part of
+  // `Mpc::b` for the `time` (in range [0.0; 1.0]) minus the current left part. It should be called
+  // after assembleGlobalEqMatrices() and before DoFs are changed. Equations of MpcCollections are
+  // not touched: MpcCollection::update() already sets the right parts for increments.
+  void setMpcIncrements(double time);
 
   // getters to get numbers of different entities stored in FEStorage
 	uint32 nNodes();
-- 
2.43.0


From f0e2319ef8f85b83654a45f4898ab13e95e95db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:13 +0000
Subject: [PATCH 56/67] fix: Python: += on a member (like Node.pos) freed its
 memory

---
 python/nla3d.swg | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/python/nla3d.swg b/python/nla3d.swg
index 5cf1689..791d809 100644
--- a/python/nla3d.swg
+++ b/python/nla3d.swg
@@ -50,6 +50,12 @@ using namespace nla3d;
 %ignore nla3d::math::Vec::operator[](uint16 n) const;
 %ignore nla3d::math::Vec::operator=;
 
+// SWIG's own wrapper of += returns an owning object, which frees the memory of a member (like
+// Node::pos). The operators are extended below.
+%ignore nla3d::math::dVec::operator+=;
+%ignore nla3d::math::dVec::operator-=;
+%ignore nla3d::math::Vec::operator+=;
+
 %include "math/Vec.h"
 
 // Vec<dimM>
@@ -62,7 +68,14 @@ using namespace nla3d;
       for i in range(self.size()):
         _list.append(self[i])
       return str(_list)
+
+    def __iadd__(self, op):
+      self._iadd(op)
+      return self
   } 
+  void _iadd(const nla3d::math::Vec<N>& op) {
+    *$self += op;
+  }
   double __getitem__(uint16 _n ) {
     if (_n >= $self->size())
       throw std::range_error("Index out of range");
@@ -91,7 +104,21 @@ VEC_EXTEND(7)
       for i in range(self.size()):
         _list.append(self[i])
       return str(_list)
+
+    def __iadd__(self, op):
+      self._iadd(op)
+      return self
+
+    def __isub__(self, op):
+      self._isub(op)
+      return self
   } 
+  void _iadd(const nla3d::math::dVec& op) {
+    *$self += op;
+  }
+  void _isub(const nla3d::math::dVec& op) {
+    *$self -= op;
+  }
   double __getitem__(uint32 _n ) {
     if (_n >= $self->size())
       throw std::range_error("Index out of range");
@@ -107,6 +134,9 @@ VEC_EXTEND(7)
 // Mat.h
 %ignore nla3d::math::dMat_interface;
 %ignore nla3d::math::Mat::cross_cut;
+// SWIG's own wrapper of += returns an owning object (see Vec.h)
+%ignore nla3d::math::Mat::operator+=;
+%ignore nla3d::math::MatSym::operator+=;
 %include "math/Mat.h"
 
 %define MAT_EXTEND(M, N)
@@ -116,6 +146,10 @@ VEC_EXTEND(7)
     def __str__(self):
       return str(self.to_list())
 
+    def __iadd__(self, op):
+      self._iadd(op)
+      return self
+
     def __setitem__(self, pos, val):
       i, j = pos
       self._setitem(i, j, val)
@@ -141,6 +175,10 @@ VEC_EXTEND(7)
       return list
   } 
 
+  void _iadd(const nla3d::math::Mat<M, N>& op) {
+    *$self += op;
+  }
+
   double _getitem(uint16 i, uint16 j) {
     if (i >= $self->dM() || j >= $self->dN())
       throw std::range_error("Index out of range");
@@ -222,6 +260,10 @@ MAT_EXTEND(3,3)
         _list.append(__list)
       return str(_list)
 
+    def __iadd__(self, op):
+      self._iadd(op)
+      return self
+
     def __setitem__(self, pos, val):
       i, j = pos
       self._setitem(i, j, val)
@@ -231,6 +273,10 @@ MAT_EXTEND(3,3)
       return self._getitem(i, j)
   } 
 
+  void _iadd(const nla3d::math::MatSym<M>& op) {
+    *$self += op;
+  }
+
   double _getitem(uint16 i, uint16 j) {
     if (i >= $self->dM() || j >= $self->dN())
       throw std::range_error("Index out of range");
-- 
2.43.0


From daac196d4cff8836952dd5e84ef91ee5e8f477c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:13 +0000
Subject: [PATCH 57/67] fix: Python: variadic constructors and fill() read
 arguments which aren't passed

---
 python/nla3d.swg | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/python/nla3d.swg b/python/nla3d.swg
index 791d809..dd640dc 100644
--- a/python/nla3d.swg
+++ b/python/nla3d.swg
@@ -55,6 +55,8 @@ using namespace nla3d;
 %ignore nla3d::math::dVec::operator+=;
 %ignore nla3d::math::dVec::operator-=;
 %ignore nla3d::math::Vec::operator+=;
+// SWIG doesn't pass variadic arguments
+%ignore nla3d::math::Vec::Vec(double first, ...);
 
 %include "math/Vec.h"
 
@@ -134,6 +136,10 @@ VEC_EXTEND(7)
 // Mat.h
 %ignore nla3d::math::dMat_interface;
 %ignore nla3d::math::Mat::cross_cut;
+// SWIG doesn't pass variadic arguments
+%ignore nla3d::math::Mat::Mat(double first, ...);
+%ignore nla3d::math::dMat::dMat(uint16 dim_m, uint16 dim_n, double first, ...);
+%ignore nla3d::math::dMat::fill(double first, ...);
 // SWIG's own wrapper of += returns an owning object (see Vec.h)
 %ignore nla3d::math::Mat::operator+=;
 %ignore nla3d::math::MatSym::operator+=;
@@ -212,6 +218,11 @@ MAT_EXTEND(3,3)
       i, j = pos
       return self._getitem(i, j)
 
+    def fill(self, *values):
+      assert(len(values) == self.dM() * self.dN())
+      for i, val in enumerate(values):
+        self[i // self.dN(), i % self.dN()] = val
+
     @staticmethod
     def from_list(list):
       assert(len(list) > 0)
-- 
2.43.0


From 027e95471d9a58364f649a133f43e3aa472717ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:35 +0000
Subject: [PATCH 58/67] fix: Python: MPC collections were deleted twice

---
 python/nla3d.swg | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/nla3d.swg b/python/nla3d.swg
index dd640dc..bac67fa 100644
--- a/python/nla3d.swg
+++ b/python/nla3d.swg
@@ -306,6 +306,8 @@ MATSYM_EXTEND(3)
 
 %rename(_addNode) nla3d::FEStorage::addNode;
 %rename(_addElement) nla3d::FEStorage::addElement;
+%rename(_addMpc) nla3d::FEStorage::addMpc;
+%rename(_addMpcCollection) nla3d::FEStorage::addMpcCollection;
 %include "FEStorage.h"
 %extend nla3d::FEStorage {
   %pythoncode {
@@ -315,6 +317,12 @@ MATSYM_EXTEND(3)
     def addElement(self, el):
         el.thisown = 0 # pass ownership to nla3d::FEStorage
         return self._addElement(el)
+    def addMpc(self, mpc):
+        mpc.thisown = 0 # pass ownership to nla3d::FEStorage
+        return self._addMpc(mpc)
+    def addMpcCollection(self, mpcCol):
+        mpcCol.thisown = 0 # pass ownership to nla3d::FEStorage
+        return self._addMpcCollection(mpcCol)
   }
 
   nla3d::ElementTETRA0& getElementTETRA0(uint32 _en) {
-- 
2.43.0


From 5f044d9a74dc2a830da1bb099eb0e9787e007564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:14 +0000
Subject: [PATCH 59/67] fix: Python: Mat33.from_list changed the matrix before
 it refused a list of a wrong shape

---
 python/nla3d.swg | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/nla3d.swg b/python/nla3d.swg
index bac67fa..6aad4d0 100644
--- a/python/nla3d.swg
+++ b/python/nla3d.swg
@@ -166,8 +166,9 @@ VEC_EXTEND(7)
 
     def from_list(self, list):
       assert(len(list) == self.dM())
-      for i, ll in enumerate(list):
+      for ll in list:
         assert(len(ll) == self.dN())
+      for i, ll in enumerate(list):
         for j, val in enumerate(ll):
           self[i, j] = val
 
-- 
2.43.0


From 49f4e3742ac3574c20b31b3066b05da77b55da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:28 +0000
Subject: [PATCH 60/67] fix: models with more than 100 coupled DoFs (rigid body
 with 34 slave nodes) couldn't be solved

---
 src/lib/FEStorage.cpp | 48 ++++++++++++++++++++++++++++++++++++++++++-
 src/lib/FEStorage.h   |  2 ++
 2 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 8418ee7..f6d8e8d 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -512,7 +512,7 @@ void FEStorage::initSolutionData () {
   //  | Rc | =-| Fc | + | Kcc | * | Uc | + |KcsMPCc| * |    |
   //  |    |   |    |   |     |   |    |   |       |   | Ul |
 
-  matK = new BlockSparseSymMatrix<2>({nConstrainedDofs(), nUnknownDofs() + nMpc()});
+  matK = new BlockSparseSymMatrix<2>({nConstrainedDofs(), nUnknownDofs() + nMpc()}, maxEntriesInRow());
 
   if (transient) {
     // share sparsity info with K matrices
@@ -592,6 +592,52 @@ void FEStorage::initSolutionData () {
 }
 
 
+uint32 FEStorage::maxEntriesInRow() {
+  // a DoF can take part in many MPC equations (a master node of a rigid body, for example)
+  std::vector<uint32> nMpcTerms(nDofs(), 0);
+  for (auto& mpc : mpcs) {
+    for (auto& term : mpc->eq) {
+      nMpcTerms[getNodeDofEqNumber(term.node, term.node_dof) - 1]++;
+    }
+  }
+
+  uint32 res = 100;
+  for (uint32 nn = 1; nn <= nNodes(); nn++) {
+    uint32 nEntries = 0;
+    std::set<uint32> neighbors = {nn};
+    for (auto& en : topology[nn-1]) {
+      auto en_dofs = elementDofs.getEntityDofs(en);
+      nEntries += en_dofs.second - en_dofs.first;
+      for (uint16 enn = 0; enn < getElement(en).getNNodes(); enn++) {
+        neighbors.insert(getElement(en).getNodeNumber(enn));
+      }
+    }
+    for (auto& nn2 : neighbors) {
+      auto nn2_dofs = nodeDofs.getEntityDofs(nn2);
+      nEntries += nn2_dofs.second - nn2_dofs.first;
+    }
+
+    auto nn_dofs = nodeDofs.getEntityDofs(nn);
+    for (auto d = nn_dofs.first; d != nn_dofs.second; d++) {
+      res = std::max(res, nEntries + nMpcTerms[d->eqNumber - 1]);
+    }
+  }
+
+  // DoFs of an element are coupled with each other and with DoFs of its nodes
+  for (uint32 en = 1; en <= nElements(); en++) {
+    auto en_dofs = elementDofs.getEntityDofs(en);
+    uint32 nEntries = en_dofs.second - en_dofs.first;
+    for (uint16 enn = 0; enn < getElement(en).getNNodes(); enn++) {
+      auto nn_dofs = nodeDofs.getEntityDofs(getElement(en).getNodeNumber(enn));
+      nEntries += nn_dofs.second - nn_dofs.first;
+    }
+    res = std::max(res, nEntries);
+  }
+
+  return res;
+}
+
+
 void FEStorage::printDofInfo(std::ostream& out) {
   for (uint32 en = 1; en <= nElements(); en++) {
     auto en_dofs = elementDofs.getEntityDofs(en);
diff --git a/src/lib/FEStorage.h b/src/lib/FEStorage.h
index 1ab7b35..d202923 100755
--- a/src/lib/FEStorage.h
+++ b/src/lib/FEStorage.h
@@ -277,6 +277,8 @@ public:
 private:
   // fill `topology` data based on the current mesh (Element::nodes numbers)
   void learnTopology();
+  // upper bound of the number of entries in a row of matK/C/M
+  uint32 maxEntriesInRow();
 
   // these functions are used to train sparsity info for matK/C/M
   // provide info that entry (eqi, eqj) are not zero
-- 
2.43.0


From 95961495fb5a8b5a14489d28848d11ecd9c111b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:30 +0000
Subject: [PATCH 61/67] fix: dense products done by BLAS replaced the result
 instead of adding to it

---
 src/lib/math/Mat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index bcafd04..2af88e8 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -757,7 +757,7 @@ void matBTVprod(Mat<dimM,dimN> &B, Vec<dimM> &V, double coef, Vec<dimN> &R)
 		for (j=0;j<dimM;j++)
 			R[i] += Bp[j*dimN+i]*V[j]*coef;
 #else
-  cblas_dgemv(CblasRowMajor, CblasTrans, dimM, dimN, coef, B.ptr(), dimN, V.ptr(), 1, 0.0, R.ptr(), 1);
+  cblas_dgemv(CblasRowMajor, CblasTrans, dimM, dimN, coef, B.ptr(), dimN, V.ptr(), 1, 1.0, R.ptr(), 1);
 #endif
 }
 
@@ -770,7 +770,7 @@ void matBVprod(Mat<dimM,dimN> &B,Vec<dimN> &V, double coef, Vec<dimM> &R) {
 		for (j=0;j<dimN;j++)
 			R[i] += Bp[i*dimN+j]*V[j]*coef;
 #else
-  cblas_dgemv(CblasRowMajor, CblasNoTrans, dimM, dimN, coef, B.ptr(), dimN, V.ptr(), 1, 0.0, R.ptr(), 1);
+  cblas_dgemv(CblasRowMajor, CblasNoTrans, dimM, dimN, coef, B.ptr(), dimN, V.ptr(), 1, 1.0, R.ptr(), 1);
 #endif
 }
 
@@ -802,7 +802,7 @@ void matABprod(Mat<dimM1,dimN1> &A, Mat<dimN1,dimN2> &B, const double coef, Mat<
 		}
 	}
 #else
-  cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, dimM1, dimN2, dimN1, coef, A.ptr(), dimN1, B.ptr(), dimN2, 0.0, R.ptr(), dimN2);
+  cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, dimM1, dimN2, dimN1, coef, A.ptr(), dimN1, B.ptr(), dimN2, 1.0, R.ptr(), dimN2);
 #endif
 }
 
@@ -823,7 +823,7 @@ void matATBprod(Mat<dimM1,dimN1> &A, Mat<dimM1,dimN2> &B, const double coef, Mat
 		}
 	}
 #else
-  cblas_dgemm(CblasRowMajor, CblasTrans, CblasNoTrans, dimN1, dimN2, dimM1, coef, A.ptr(), dimN1, B.ptr(), dimN2, 0.0, R.ptr(), dimN2);
+  cblas_dgemm(CblasRowMajor, CblasTrans, CblasNoTrans, dimN1, dimN2, dimM1, coef, A.ptr(), dimN1, B.ptr(), dimN2, 1.0, R.ptr(), dimN2);
 #endif
 }
 
-- 
2.43.0


From fb6c61ef32fe59c9b7f38aa959e1365e9c297794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 62/67] fix: keep the reactions when their file can not be
 written and report nothing for an empty set of nodes

---
 src/lib/ReactionProcessor.cpp | 42 +++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/lib/ReactionProcessor.cpp b/src/lib/ReactionProcessor.cpp
index e99b16f..fa6cfff 100755
--- a/src/lib/ReactionProcessor.cpp
+++ b/src/lib/ReactionProcessor.cpp
@@ -17,6 +17,7 @@ ReactionProcessor::ReactionProcessor(FEStorage *st, std::string _filename) : Pos
 }
 
 void ReactionProcessor::pre() {
+  sumOfDofsReactions.clear();
 	if (nodes.size() == 0) {
     LOG(WARNING) << "Can't work. No nodes. Processor name = " << name;
     return;
@@ -68,18 +69,18 @@ void ReactionProcessor::pre() {
     std::ofstream file(filename.c_str(),std::ios::trunc);
     if (!file) {
       LOG(WARNING) << "Can't create a file with name " << filename;
-      return;
-    }
-    for (uint16 d = 0; d < dofs.size(); d++) {
-      file << "\t" << Dof::dofTypeLabels[dofs[d]];
-    }
-    file << std::endl;
-    file << "0";
-    for (uint16 d = 0; d < dofs.size(); d++) {
-      file << "\t" << 0.0;
+    } else {
+      for (uint16 d = 0; d < dofs.size(); d++) {
+        file << "\t" << Dof::dofTypeLabels[dofs[d]];
+      }
+      file << std::endl;
+      file << "0";
+      for (uint16 d = 0; d < dofs.size(); d++) {
+        file << "\t" << 0.0;
+      }
+      file << std::endl;
+      file.close();
     }
-    file << std::endl;
-    file.close();
   }
   sumOfDofsReactions.assign(dofs.size(), std::vector<double> ());
   for (uint16 d = 0; d < dofs.size(); d++) {
@@ -89,6 +90,9 @@ void ReactionProcessor::pre() {
 }
 
 void ReactionProcessor::process (uint16 curLoadstep) {
+  // pre() has already warned about it
+  if (nodes.size() == 0) return;
+
   std::vector<double> reactions;
   reactions.assign(dofs.size(), 0.0);
 
@@ -102,14 +106,14 @@ void ReactionProcessor::process (uint16 curLoadstep) {
     std::ofstream file(filename.c_str(),std::ios::app);
     if (!file) {
       LOG(WARNING) << "Can't open a file with name " << filename;
-      return;
-    }
-    file << curLoadstep;
-    for (uint16 d = 0; d < dofs.size(); d++) {
-      file << "\t" << reactions[d];
+    } else {
+      file << curLoadstep;
+      for (uint16 d = 0; d < dofs.size(); d++) {
+        file << "\t" << reactions[d];
+      }
+      file << std::endl;
+      file.close();
     }
-    file << std::endl;
-    file.close();
   }
   for (uint16 d = 0; d < dofs.size(); d++) {
     sumOfDofsReactions[d].push_back(reactions[d]);
@@ -123,7 +127,7 @@ void ReactionProcessor::post (uint16 curLoadstep) {
 
 std::vector<double> ReactionProcessor::getReactions (Dof::dofType dof) {
   for (uint16 d = 0; d < dofs.size(); d++) {
-    if (dofs[d] == dof) {
+    if (dofs[d] == dof && d < sumOfDofsReactions.size()) {
       return sumOfDofsReactions[d];
     }
   }
-- 
2.43.0


From 41a4c0f18c87743c18e58c1274b3f09402517204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 63/67] fix: matrices and vectors with a NaN are not equal to
 others

---
 src/lib/math/SparseMatrix.cpp | 2 +-
 src/lib/math/Vec.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index 904ab6c..696c0cb 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -252,7 +252,7 @@ bool BaseSparseMatrix::compare(const BaseSparseMatrix& op2, double th) {
 
   // fourth round. compare values with thresholds
   for (uint32 i = 0; i < op1.nValues(); i++) {
-    if (fabs(op1.values[i] - op2.values[i]) > th) {
+    if (op1.values[i] != op2.values[i] && !(fabs(op1.values[i] - op2.values[i]) <= th)) {
       return false;
     }
   }
diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index b369249..298e156 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -251,7 +251,7 @@ bool dVec::compare(const dVec& op2, double th) {
 
   // second round. compare values
   for (uint32 i = 0; i < op1.size(); i++) {
-    if (fabs(op1.data[i] - op2.data[i]) > th) {
+    if (op1.data[i] != op2.data[i] && !(fabs(op1.data[i] - op2.data[i]) <= th)) {
       return false;
     }
   }
-- 
2.43.0


From 81c206c30aac4aa0a2f9f142615ea5781998ff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 64/67] fix: a new constraint equation has zero as its
 right-hand side

---
 src/lib/Mpc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Mpc.h b/src/lib/Mpc.h
index 89ecf61..baad552 100644
--- a/src/lib/Mpc.h
+++ b/src/lib/Mpc.h
@@ -32,7 +32,7 @@ class Mpc {
   public:
     void print (std::ostream& out);
     std::list<MpcTerm> eq;
-    double b; // rhs of MPC eq.
+    double b = 0.0; // rhs of MPC eq.
     uint32 eqNum; // number of equation in global assembly
 };
 
-- 
2.43.0


From f7e7ab78b2069cfe1dcb7c78cb1b0b29cea213dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 65/67] fix: refuse matrices and vectors whose text is cut off

---
 src/lib/math/SparseMatrix.cpp | 2 ++
 src/lib/math/Vec.cpp          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index 696c0cb..a43f9bf 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -210,10 +210,12 @@ void BaseSparseMatrix::readCoordinateTextFormat(std::istream& in) {
   uint32 _nrows, _ncols, _nvalues;
   // read header: nRows, nColumns, numberOfValues
   in >> _nrows >> _ncols >> _nvalues;
+  CHECK(in) << "Can't read the size of the matrix from the stream";
   entries.reserve(_nvalues);
   for (uint32 i = 1; i <= _nvalues; i++) {
     SparseEntry entry;
     in >> entry.i >> entry.j >> entry.v;
+    CHECK(in) << "Can't read entry " << i << " of " << _nvalues << " from the stream";
     entries.push_back(entry);
   }
   reinit(_nrows, _ncols, entries);
diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index 298e156..44bf505 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -278,9 +278,11 @@ void dVec::writeTextFormat(std::ostream& out) {
 void dVec::readTextFormat(std::istream& in) {
   uint32 _len;
   in >> _len;
+  CHECK(in) << "Can't read the length of the vector from the stream";
   reinit(_len);
   for (uint32 i = 0; i < _len; i++) {
     in >> data[i];
+    CHECK(in) << "Can't read value " << i + 1 << " of " << _len << " from the stream";
   }
 }
 
-- 
2.43.0


From 4c559cb6c98b1d3d59df8ba23a9b2c3fed1e89e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:11 +0000
Subject: [PATCH 66/67] fix: a NEU file that is cut off was read with zeros and
 repeated nodes in place of the missing records

---
 src/lib/FEReaders.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index ddeb3b9..804b6c8 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -272,30 +272,37 @@ bool readNeuFile(std::string filename, MeshData& md)
   // read nodes section 
   int nodesCount;
   file >> nodesCount;    
-  md.nodesPos.resize(nodesCount);
-  md.nodesNumbers.reserve(nodesCount);
   
   for (int node_num(0); node_num < nodesCount; ++node_num) { 
+    Vec<3> pos;
     for (int col(0); col < 3; ++col) {
-      file >> md.nodesPos[node_num][col];
+      file >> pos[col];
     }
+    if (!file) {
+      LOG(WARNING) << "Neu file " << filename << " is cut off in the list of nodes";
+      return false;
+    }
+    md.nodesPos.push_back(pos);
     md.nodesNumbers.push_back(node_num+1);
   }
   
   // read volumes section 
   int volumesCount;
   file >> volumesCount; 
-  md.cellNumbers.reserve(volumesCount);
   vector<uint32> enodes(4, 0);
   for (uint32 volume_num(0); volume_num < volumesCount; ++volume_num) {
     int mat_num;
     file >> mat_num;    
-    md.cellIntData["MAT"].push_back(mat_num);
 
     for (int node_num(0); node_num < 4; ++node_num) {    
       file >> enodes[node_num];
     }
+    if (!file) {
+      LOG(WARNING) << "Neu file " << filename << " is cut off in the list of volumes";
+      return false;
+    }
 
+    md.cellIntData["MAT"].push_back(mat_num);
     md.cellNodes.push_back(enodes);
     md.cellNumbers.push_back(volume_num + 1);
   }
@@ -305,7 +312,12 @@ bool readNeuFile(std::string filename, MeshData& md)
   file >> surfaceCount;  
   for (int surfNum(0); surfNum < surfaceCount; ++surfNum) {
     string compname;
-    file >> compname;
+    int surfNodes[3];
+    file >> compname >> surfNodes[0] >> surfNodes[1] >> surfNodes[2];
+    if (!file) {
+      LOG(WARNING) << "Neu file " << filename << " is cut off in the list of surfaces";
+      return false;
+    }
     auto it = md.feComps.find(compname);
     if (it == md.feComps.end()) {
       FEComponent comp;
@@ -314,9 +326,7 @@ bool readNeuFile(std::string filename, MeshData& md)
       it = md.feComps.insert(std::make_pair(comp.name, comp)).first;
     }    
     for (int node_num(0); node_num < 3; ++node_num) { 
-      int node;
-      file >> node;
-      it->second.list.push_back(node);
+      it->second.list.push_back(surfNodes[node_num]);
     }
   }
   file.close();
-- 
2.43.0


From 35df3d235ee92d9e340ff617558ef9376e150575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:19 +0000
Subject: [PATCH 67/67] fix: reaction processor kept the DoFs chosen for the
 previous analysis

---
 src/lib/ReactionProcessor.cpp | 6 ++++++
 src/lib/ReactionProcessor.h   | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/lib/ReactionProcessor.cpp b/src/lib/ReactionProcessor.cpp
index fa6cfff..c16dfb4 100755
--- a/src/lib/ReactionProcessor.cpp
+++ b/src/lib/ReactionProcessor.cpp
@@ -27,6 +27,11 @@ void ReactionProcessor::pre() {
   // 1. If dofs is not empty than user alreade define which dof use to calculate reaction
   // 2. If dofs.size() == 0 , select dof thich are constrained in current node set.
   // if different nodes has different constrained dofs - error
+  // NOTE: the choice made for the previous analysis is not user's one
+  if (dofs == autoDofs) {
+    dofs.clear();
+  }
+  autoDofs.clear();
   if (dofs.size() == 0) {
     for (uint16 d = 0; d < Dof::numberOfDofTypes; d++) {
       Dof::dofType t = static_cast<Dof::dofType> (d);
@@ -50,6 +55,7 @@ void ReactionProcessor::pre() {
       }
       n++;
     }
+    autoDofs = dofs;
   } else {
     // in case of user defined dofs just check that this dofs are used in the FE
     bool dofsUsed = true;
diff --git a/src/lib/ReactionProcessor.h b/src/lib/ReactionProcessor.h
index 94b1a3c..0949ba0 100755
--- a/src/lib/ReactionProcessor.h
+++ b/src/lib/ReactionProcessor.h
@@ -25,6 +25,8 @@ public:
 	std::vector<Dof::dofType> dofs;
 protected:
   std::string filename;
+  // dofs which were chosen automatically (in the previous analysis)
+  std::vector<Dof::dofType> autoDofs;
 	std::vector<std::vector<double> > sumOfDofsReactions;
 };
 
-- 
2.43.0

