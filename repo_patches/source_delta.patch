From cfb4653396a34bbeee50ff0b31de1c656ddb3ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:12 +0000
Subject: [PATCH 01/66] fix: avoid division by zero in ramping and far bounds
 of problems with a single bound

---
 src/QProblem.cpp  | 2 +-
 src/QProblemB.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 8ea39e1..acd6dd2 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -5518,7 +5518,7 @@ returnValue QProblem::updateFarBounds(	real_t curFarBound, int_t nRamp,
 	{
 		for ( i=0; i<nC; ++i )
 		{
-			t = static_cast<real_t>((nV+i + rampOffset) % nRamp) / static_cast<real_t>(nRamp-1);
+			t = static_cast<real_t>((nV+i + rampOffset) % nRamp) / static_cast<real_t>((nRamp > 1) ? nRamp-1 : 1);
 			rampVal = curFarBound * (1.0 + (1.0-t)*ramp0 + t*ramp1);
 
 			if ( lbA_new == 0 )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 52620e0..b74cc76 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2176,7 +2176,7 @@ returnValue QProblemB::performRamping( )
 			default: break;
 		}
 
-		t = static_cast<real_t>((i + rampOffset) % nV) / static_cast<real_t>(nV-1);
+		t = static_cast<real_t>((i + rampOffset) % nV) / static_cast<real_t>((nV > 1) ? nV-1 : 1);
 		rampVal = (1.0-t) * ramp0 + t * ramp1;
 		bstat = bounds.getStatus(i);
 		if (bstat != ST_LOWER) { lb[i] = x[i] - rampVal; }
@@ -2212,7 +2212,7 @@ returnValue QProblemB::updateFarBounds(	real_t curFarBound, int_t nRamp,
 	{
 		for ( i=0; i<nV; ++i )
 		{
-			t = static_cast<real_t>((i + rampOffset) % nRamp) / static_cast<real_t>(nRamp-1);
+			t = static_cast<real_t>((i + rampOffset) % nRamp) / static_cast<real_t>((nRamp > 1) ? nRamp-1 : 1);
 			rampVal = curFarBound * (1.0 + (1.0-t)*ramp0 + t*ramp1);
 
 			if ( lb_new == 0 )
-- 
2.43.0


From 5a2e4836896f50b3667da00fe5e17ad269f23061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:12 +0000
Subject: [PATCH 02/66] fix: SparseMatrix(Row)::addToDiag must not read beyond
 a column without diagonal entry

---
 src/Matrices.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index d41881f..6ca01ea 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1348,13 +1348,13 @@ returnValue SparseMatrix::addToDiag( real_t alpha )
 
 	if ( isZero( alpha ) == BT_FALSE )
 	{
+		/* check all diagonal entries before modifying any of them */
 		for (i = 0; i < nRows && i < nCols; i++)
-		{
-			if (ir[jd[i]] == i)
-				val[jd[i]] += alpha;
-			else
+			if ((jd[i] >= jc[i+1]) || (ir[jd[i]] != i))
 				return RET_NO_DIAGONAL_AVAILABLE;
-		}
+
+		for (i = 0; i < nRows && i < nCols; i++)
+			val[jd[i]] += alpha;
 	}
 
 	return SUCCESSFUL_RETURN;
@@ -2048,13 +2048,13 @@ returnValue SparseMatrixRow::addToDiag( real_t alpha )
 
 	if ( isZero(alpha) == BT_FALSE )
 	{
+		/* check all diagonal entries before modifying any of them */
 		for (i = 0; i < nRows && i < nCols; i++)
-		{
-			if (ic[jd[i]] == i)
-				val[jd[i]] += alpha;
-			else
+			if ((jd[i] >= jr[i+1]) || (ic[jd[i]] != i))
 				return RET_NO_DIAGONAL_AVAILABLE;
-		}
+
+		for (i = 0; i < nRows && i < nCols; i++)
+			val[jd[i]] += alpha;
 	}
 
 	return SUCCESSFUL_RETURN;
-- 
2.43.0


From 47047ae3e692803532e65c9658d6ccc10db622ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:25 +0000
Subject: [PATCH 03/66] fix: duplicating a dense matrix yields a deep copy and
 honours its leading dimension

---
 src/Matrices.cpp | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 6ca01ea..a6dea89 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -115,17 +115,10 @@ Matrix *DenseMatrix::duplicate( ) const
 {
 	DenseMatrix *dupl = 0;
 
-	if ( needToFreeMemory( ) == BT_TRUE )
-	{
-		real_t* val_new = new real_t[nRows*nCols];
-		memcpy( val_new,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
-		dupl = new DenseMatrix(nRows, nCols, nCols, val_new);
-		dupl->doFreeMemory( );
-	}
-	else
-	{
-		dupl = new DenseMatrix(nRows, nCols, nCols, val);
-	}
+	/* always copy the values as documented, even if they are owned by the user */
+	real_t* val_new = full( );
+	dupl = new DenseMatrix(nRows, nCols, nCols, val_new);
+	dupl->doFreeMemory( );
 
 	return dupl;
 }
@@ -587,8 +580,10 @@ returnValue DenseMatrix::writeToFile( FILE* output_file, const char* prefix ) co
 
 real_t* DenseMatrix::full() const
 {
+	int_t i;
 	real_t* v = new real_t[nRows*nCols];
-	memcpy( v,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
+	for (i = 0; i < nRows; i++)
+		memcpy( &(v[i*nCols]),&(val[i*leaDim]), ((uint_t)nCols)*sizeof(real_t) );
 	return v;
 }
 
@@ -611,17 +606,10 @@ SymmetricMatrix *SymDenseMat::duplicateSym( ) const
 	/* "same" as duplicate() in DenseMatrix */
 	SymDenseMat *dupl = 0;
 
-	if ( needToFreeMemory( ) == BT_TRUE )
-	{
-		real_t* val_new = new real_t[nRows*nCols];
-		memcpy( val_new,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
-		dupl = new SymDenseMat(nRows, nCols, nCols, val_new);
-		dupl->doFreeMemory( );
-	}
-	else
-	{
-		dupl = new SymDenseMat(nRows, nCols, nCols, val);
-	}
+	/* always copy the values as documented, even if they are owned by the user */
+	real_t* val_new = full( );
+	dupl = new SymDenseMat(nRows, nCols, nCols, val_new);
+	dupl->doFreeMemory( );
 
 	return dupl;
 }
-- 
2.43.0


From 35cfd8f706517cd7dbdf46fb85d35e92470c7d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 04/66] fix: regularisation no longer modifies Hessian data
 owned by the user

---
 src/QProblemB.cpp | 16 ++++++++++++++--
 src/SQProblem.cpp | 20 +++++++++++++++++---
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index b74cc76..14500e7 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2018,10 +2018,22 @@ returnValue QProblemB::regulariseHessian( )
 		}
 		else
 		{
-			regVal = H->getNorm() * options.epsRegularisation;
+			/* never modify a Hessian whose memory is owned by the user */
+			if ( ( freeHessian == BT_FALSE ) || ( H->needToFreeMemory( ) == BT_FALSE ) )
+			{
+				SymmetricMatrix* Hcopy = H->duplicateSym( );
+				if ( freeHessian == BT_TRUE )
+					delete H;
+				H = Hcopy;
+				freeHessian = BT_TRUE;
+			}
 
-			if ( H->addToDiag( regVal ) == RET_NO_DIAGONAL_AVAILABLE )
+			real_t newRegVal = H->getNorm() * options.epsRegularisation;
+
+			if ( H->addToDiag( newRegVal ) == RET_NO_DIAGONAL_AVAILABLE )
 				return THROWERROR( RET_CANNOT_REGULARISE_SPARSE );
+
+			regVal = newRegVal;
 		}
 
 		THROWINFO( RET_USING_REGULARISATION );
diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 95dde53..520674b 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -543,9 +543,23 @@ returnValue SQProblem::setupNewAuxiliaryQP(	const real_t* const H_new, const rea
 
 	returnValue returnvalue = setupNewAuxiliaryQP( sH,dA, lb_new,ub_new,lbA_new,ubA_new );
 
-	if ( H_new != 0 )
-		freeHessian = BT_TRUE;
-	freeConstraintMatrix = BT_TRUE;
+	/* take over ownership of the matrix objects created above
+	 * (unless they have not been stored or have been replaced by a private copy) */
+	if ( sH != 0 )
+	{
+		if ( H == sH )
+			freeHessian = BT_TRUE;
+		else
+			delete sH;
+	}
+
+	if ( dA != 0 )
+	{
+		if ( A == dA )
+			freeConstraintMatrix = BT_TRUE;
+		else
+			delete dA;
+	}
 
 	return returnvalue;
 }
-- 
2.43.0


From cb5c96bf08c75dac760b91ba89c85ee29c42e524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 05/66] fix: QPs with identity Hessian can be solved with
 regularisation enabled

---
 src/QProblemB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 14500e7..4672eba 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2002,9 +2002,9 @@ returnValue QProblemB::regulariseHessian( )
 	if ( options.enableRegularisation == BT_FALSE )
 		return SUCCESSFUL_RETURN;
 
-	/* Regularisation of identity Hessian not possible. */
+	/* Regularisation of identity Hessian not necessary. */
 	if ( hessianType == HST_IDENTITY )
-		return THROWERROR( RET_CANNOT_REGULARISE_IDENTITY );
+		return SUCCESSFUL_RETURN;
 
 	/* Determine regularisation parameter. */
 	if ( usingRegularisation( ) == BT_TRUE )
-- 
2.43.0


From 23b16e4ca07cf963597c1f92e465b0159bb355dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 06/66] fix: LPs with zero gradient are regularised with a
 positive parameter

---
 src/QProblemB.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 4672eba..876c70a 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2015,6 +2015,10 @@ returnValue QProblemB::regulariseHessian( )
 		if ( hessianType == HST_ZERO )
 		{
 			regVal = getNorm( g,getNV() ) * options.epsRegularisation;
+
+			/* a zero gradient must not lead to a zero regularisation parameter */
+			if ( regVal <= ZERO )
+				regVal = options.epsRegularisation;
 		}
 		else
 		{
@@ -2030,6 +2034,9 @@ returnValue QProblemB::regulariseHessian( )
 
 			real_t newRegVal = H->getNorm() * options.epsRegularisation;
 
+			if ( newRegVal <= ZERO )
+				newRegVal = options.epsRegularisation;
+
 			if ( H->addToDiag( newRegVal ) == RET_NO_DIAGONAL_AVAILABLE )
 				return THROWERROR( RET_CANNOT_REGULARISE_SPARSE );
 
-- 
2.43.0


From 131406560c7598c9746c77f7bddb4f578c27c1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 07/66] fix: refactorisation without active limits uses a
 trivial null space basis

---
 src/QProblem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index acd6dd2..cf06da1 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2043,7 +2043,13 @@ returnValue QProblem::computeProjectedCholesky( )
 
 	/* Revert to unprotected Cholesky decomposition */
 	if ( getNFX() + getNAC() == 0 )
+	{
+		/* ... of the Hessian itself, i.e. null space basis has to be trivial */
+		if ( setupTQfactorisation( ) != SUCCESSFUL_RETURN )
+			return THROWERROR( RET_INIT_FAILED_TQ );
+
 		return QProblemB::computeCholesky( );
+	}
 
 	/* 1) Initialises R with all zeros. */
 	for( i=0; i<nV*nV; ++i )
-- 
2.43.0


From 5b8dfbdec5d73ea6a92099c20a44bf4853bbb0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 08/66] fix: hotstarts adapt constraint types and never ignore
 inactive equalities

---
 src/QProblem.cpp  | 97 +++++++++++++++++++++++++++++++++++++++++++++--
 src/QProblemB.cpp | 19 ++++++++++
 2 files changed, 112 insertions(+), 4 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index cf06da1..9cae0f6 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1862,10 +1862,13 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 												   const real_t* const lbA_new, const real_t* const ubA_new
 												   )
 {
-	int_t i;
+	int_t i, j;
 	int_t nV = getNV( );
+	int_t nC = getNC( );
 
 	returnValue returnvalue;
+	BooleanType noLower, noUpper, AxOutdated = BT_FALSE;
+	SubjectToType oldType;
 
 	if ( QProblemB::setupSubjectToType( lb_new,ub_new ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_SETUPSUBJECTTOTYPE_FAILED );
@@ -1916,14 +1919,100 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 					if ( returnvalue != SUCCESSFUL_RETURN )
 						return returnvalue;
 				}
-				/* AW: Check: This allows to have variables that are
-				   equalities to be in the set of free variables. */
+				else
+				{
+					/* a free equality would be ignored by the step length determination */
+					bounds.setType( i,ST_BOUNDED );
+				}
 			}
 		}
 	}
 
 
-	// AW TODO: We could also implement something here for the constraints
+	/* Same for constraints: adapt their types if limits became finite or infinite
+	 * or if an equality became a usual constraint. A constraint does not become
+	 * an (implicit) equality here as an inactive one would never become active. */
+	constraints.setNoLower( BT_TRUE );
+	constraints.setNoUpper( BT_TRUE );
+
+	for ( i=0; i<nC; i++ )
+	{
+		noLower = ( ( lbA_new == 0 ) || ( lbA_new[i] <= -INFTY ) ) ? BT_TRUE : BT_FALSE;
+		noUpper = ( ( ubA_new == 0 ) || ( ubA_new[i] >=  INFTY ) ) ? BT_TRUE : BT_FALSE;
+
+		if ( noLower == BT_FALSE )
+			constraints.setNoLower( BT_FALSE );
+		if ( noUpper == BT_FALSE )
+			constraints.setNoUpper( BT_FALSE );
+
+		oldType = constraints.getType(i);
+		if ( oldType == ST_DISABLED )
+			continue;
+
+		if ( ( noLower == BT_TRUE ) && ( noUpper == BT_TRUE ) && ( options.enableFarBounds == BT_FALSE ) )
+			constraints.setType( i,ST_UNBOUNDED );
+		else if ( ( oldType != ST_EQUALITY ) || ( constraints.getStatus(i) == ST_INACTIVE ) ||
+				  ( noLower == BT_TRUE ) || ( noUpper == BT_TRUE ) ||
+				  ( lbA_new[i] <= ubA_new[i] - options.boundTolerance ) )
+			constraints.setType( i,ST_BOUNDED );
+
+		if ( ( oldType == ST_EQUALITY ) && ( constraints.getType(i) != ST_EQUALITY ) )
+		{
+			if ( ( constraints.getStatus(i) == ST_LOWER ) && ( y[nV+i] < 0.0 ) )
+				constraints.setStatus( i,ST_UPPER );
+			else if ( ( constraints.getStatus(i) == ST_UPPER ) && ( y[nV+i] > 0.0 ) )
+				constraints.setStatus( i,ST_LOWER );
+		}
+
+		/* the products of unbounded constraints have not been updated */
+		if ( oldType == ST_UNBOUNDED )
+			AxOutdated = BT_TRUE;
+	}
+
+	if ( AxOutdated == BT_TRUE )
+	{
+		A->times( 1, 1.0, x, nV, 0.0, Ax, nC );
+
+		for ( i=0; i<nC; i++ )
+		{
+			Ax_l[i] = Ax[i] - lbA[i];
+			Ax_u[i] = ubA[i] - Ax[i];
+		}
+	}
+
+	for ( i=0; i<nC; i++ )
+	{
+		noLower = ( ( lbA_new == 0 ) || ( lbA_new[i] <= -INFTY ) ) ? BT_TRUE : BT_FALSE;
+		noUpper = ( ( ubA_new == 0 ) || ( ubA_new[i] >=  INFTY ) ) ? BT_TRUE : BT_FALSE;
+
+		if ( ( ( noLower == BT_TRUE ) && ( constraints.getStatus(i) == ST_LOWER ) ) ||
+			 ( ( noUpper == BT_TRUE ) && ( constraints.getStatus(i) == ST_UPPER ) ) )
+		{
+			returnvalue = removeConstraint( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
+			if ( returnvalue != SUCCESSFUL_RETURN )
+				return returnvalue;
+
+			real_t* Arow = new real_t[nV];
+			A->getRow( i, 0, 1.0, Arow );
+			for ( j=0; j<nV; j++ )
+				g[j] -= Arow[j] * y[nV+i];
+			delete[] Arow;
+
+			y[nV+i] = 0.0;
+		}
+
+		/* avoid numerical issues if a limit becomes finite */
+		if ( ( noLower == BT_FALSE ) && ( lbA[i] <= -INFTY ) )
+		{
+			lbA[i]  = Ax[i] - options.boundRelaxation;
+			Ax_l[i] = options.boundRelaxation;
+		}
+		if ( ( noUpper == BT_FALSE ) && ( ubA[i] >= INFTY ) )
+		{
+			ubA[i]  = Ax[i] + options.boundRelaxation;
+			Ax_u[i] = options.boundRelaxation;
+		}
+	}
 
 	return SUCCESSFUL_RETURN;
 }
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 876c70a..20e6011 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1338,7 +1338,19 @@ returnValue QProblemB::setupSubjectToType( const real_t* const lb_new, const rea
 						&& lb_new[i] > ub_new[i] - options.boundTolerance)
 					bounds.setType( i,ST_EQUALITY );
 				else
+				{
+					/* a formerly fixed variable stays active at the limit
+					 * corresponding to the sign of its multiplier */
+					if ( bounds.getType( i ) == ST_EQUALITY )
+					{
+						if ( ( bounds.getStatus( i ) == ST_LOWER ) && ( y[i] < 0.0 ) )
+							bounds.setStatus( i,ST_UPPER );
+						else if ( ( bounds.getStatus( i ) == ST_UPPER ) && ( y[i] > 0.0 ) )
+							bounds.setStatus( i,ST_LOWER );
+					}
+
 					bounds.setType( i,ST_BOUNDED );
+				}
 			}
 		}
 	}
@@ -2474,6 +2486,13 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 	if ( setupSubjectToType( lb_new,ub_new ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_HOTSTART_FAILED );
 
+	/* a free equality would be ignored by the step length determination */
+	for( iter=0; iter<nV; ++iter )
+	{
+		if ( ( bounds.getType( iter ) == ST_EQUALITY ) && ( bounds.getStatus( iter ) == ST_INACTIVE ) )
+			bounds.setType( iter,ST_BOUNDED );
+	}
+
 	/* 3) Reset status flags. */
 	infeasible = BT_FALSE;
 	unbounded  = BT_FALSE;
-- 
2.43.0


From 8386df178505e81f7d342f82254c1487d59e09bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 09/66] fix: far bounds of QProblemB impose no CPU time limit
 if none was given

---
 src/QProblemB.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 20e6011..def5ede 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -458,7 +458,7 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 	int_t nWSR_max = nWSR;
 	int_t nWSR_performed = 0;
 
-	real_t cputime_remaining = INFTY;
+	real_t cputime_remaining = INFTY, *pcputime_rem;
 	real_t cputime_needed = 0.0;
 
 	real_t farbound = options.initialFarBounds;
@@ -501,11 +501,16 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 		{
 			nWSR = nWSR_max;
 			if ( cputime != 0 )
+			{
 				cputime_remaining = *cputime - cputime_needed;
+				pcputime_rem = &cputime_remaining;
+			}
+			else
+				pcputime_rem = 0;
 
 			/* Automatically call standard solveQP if regularisation is not active. */
 			returnvalue = solveRegularisedQP(	g_new,lb_new_far,ub_new_far,
-												nWSR,&cputime_remaining,nWSR_performed,
+												nWSR,pcputime_rem,nWSR_performed,
 												isFirstCall
 												);
 
-- 
2.43.0


From d882e251df81768c2902ddeb3d49f21dbfcfdb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:57 +0000
Subject: [PATCH 10/66] fix: hotstarts with crossing limits report
 infeasibility instead of success

---
 src/QProblem.cpp  | 7 ++++++-
 src/QProblemB.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 9cae0f6..58fcbf4 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -486,7 +486,12 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 
 	/* Simple check for consistency of bounds and constraints. */
 	if ( areBoundsConsistent(lb_new, ub_new, lbA_new, ubA_new) != SUCCESSFUL_RETURN )
-		return setInfeasibilityFlag(returnvalue,BT_TRUE);
+	{
+		unbounded = BT_FALSE;
+		if ( status == QPS_SOLVED )
+			status = QPS_HOMOTOPYQPSOLVED;
+		return setInfeasibilityFlag( RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE );
+	}
 
 	++count;
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index def5ede..745de56 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -450,7 +450,12 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 
 	/* Simple check for consistency of bounds */
 	if ( areBoundsConsistent( lb_new,ub_new ) != SUCCESSFUL_RETURN )
-		return setInfeasibilityFlag(returnvalue,BT_TRUE);
+	{
+		unbounded = BT_FALSE;
+		if ( status == QPS_SOLVED )
+			status = QPS_HOMOTOPYQPSOLVED;
+		return setInfeasibilityFlag( RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE );
+	}
 
 	++count;
 
-- 
2.43.0


From 86adf9dc45546ca5a8752332f4905b6317f258e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:57 +0000
Subject: [PATCH 11/66] fix: QProblem can be resumed after a hotstart without
 any iteration

---
 src/QProblem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 58fcbf4..ea29676 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1506,6 +1506,7 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 		starttime = getCPUtime( );
 
 	/* AW: Remove bounds if they were active before but are now infinity */
+	QProblemStatus oldStatus = status;
 	status = QPS_PERFORMINGHOMOTOPY; // AW TODO: Not sure if this is too early, but otherwise removeBounds will complain
 	returnvalue = updateActivitiesForHotstart( lb_new, ub_new, lbA_new, ubA_new );
 	if ( returnvalue != SUCCESSFUL_RETURN )
@@ -1513,6 +1514,7 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 		THROWERROR( RET_HOTSTART_FAILED );
 		return returnvalue;
 	}
+	status = oldStatus; /* object must stay usable if no iteration is performed */
 
 	/* I) PREPARATIONS */
 	/* 1) Allocate delta vectors of gradient and (constraints') bounds,
-- 
2.43.0


From 1ee849702c0c7f2c19db81e4b0d3c8ee7a174c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:57 +0000
Subject: [PATCH 12/66] fix: hotstarts without far bounds accept omitted bounds

---
 src/QProblem.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index ea29676..01ebb39 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1882,7 +1882,10 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 
 	for ( i=0; i<nV; i++ )
 	{
-		if ( lb_new[i] <= -INFTY && bounds.getStatus(i) == ST_LOWER )
+		noLower = ( ( lb_new == 0 ) || ( lb_new[i] <= -INFTY ) ) ? BT_TRUE : BT_FALSE;
+		noUpper = ( ( ub_new == 0 ) || ( ub_new[i] >=  INFTY ) ) ? BT_TRUE : BT_FALSE;
+
+		if ( noLower == BT_TRUE && bounds.getStatus(i) == ST_LOWER )
 		{
 			returnvalue = removeBound( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
 			if ( returnvalue != SUCCESSFUL_RETURN )
@@ -1890,7 +1893,7 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			g[i] -= y[i];
 			y[i] = 0.0;
 		}
-		if ( ub_new[i] >= INFTY && bounds.getStatus(i) == ST_UPPER )
+		if ( noUpper == BT_TRUE && bounds.getStatus(i) == ST_UPPER )
 		{
 			returnvalue = removeBound( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
 			if ( returnvalue != SUCCESSFUL_RETURN )
@@ -1898,12 +1901,12 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			g[i] -= y[i];
 			y[i] = 0.0;
 		}
-		if ( lb_new[i] > -INFTY && lb[i] <= -INFTY )
+		if ( noLower == BT_FALSE && lb[i] <= -INFTY )
 		{
 			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
 			lb[i] = x[i] - options.boundRelaxation;
 		}
-		if ( ub_new[i] < INFTY && ub[i] >= INFTY )
+		if ( noUpper == BT_FALSE && ub[i] >= INFTY )
 		{
 			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
 			ub[i] = x[i] + options.boundRelaxation;
-- 
2.43.0


From 772fd18d3f4fdb4df9c1c312c03ead402597450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 13/66] fix: index lists never access memory outside their
 arrays

---
 include/qpOASES/Indexlist.ipp |  2 +-
 src/Indexlist.cpp             | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/qpOASES/Indexlist.ipp b/include/qpOASES/Indexlist.ipp
index 178252f..f716a21 100644
--- a/include/qpOASES/Indexlist.ipp
+++ b/include/qpOASES/Indexlist.ipp
@@ -47,7 +47,7 @@ BEGIN_NAMESPACE_QPOASES
 inline int_t Indexlist::getNumber( int_t physicalindex ) const
 {
 	/* consistency check */
-	if ( ( physicalindex < 0 ) || ( physicalindex > length ) )
+	if ( ( physicalindex < 0 ) || ( physicalindex >= length ) )
 		return -RET_INDEXLIST_OUTOFBOUNDS;
 
 	return number[physicalindex];
diff --git a/src/Indexlist.cpp b/src/Indexlist.cpp
index d6fb383..65ef6d9 100644
--- a/src/Indexlist.cpp
+++ b/src/Indexlist.cpp
@@ -157,6 +157,9 @@ returnValue Indexlist::getISortArray( int_t** const iSortArray ) const
 int_t Indexlist::getIndex( int_t givennumber ) const
 {
 	int_t index = findInsert(givennumber);
+	if ( index < 0 )
+		return -1;
+
 	return number[iSort[index]] == givennumber ? iSort[index] : -1;
 }
 
@@ -188,6 +191,11 @@ returnValue Indexlist::removeNumber( int_t removenumber )
 {
 	int_t i;
 	int_t idx = findInsert( removenumber );
+
+	/* nothing to be done if number is smaller than all numbers of index set */
+	if ( idx < 0 )
+		return SUCCESSFUL_RETURN;
+
 	int_t iSidx = iSort[idx];
 
 	/* nothing to be done if number is not contained in index set */
@@ -220,6 +228,8 @@ returnValue Indexlist::swapNumbers( int_t number1, int_t number2 )
 	int_t index2 = findInsert( number2 );
 
 	/* consistency check */
+	if ( ( index1 < 0 ) || ( index2 < 0 ) )
+		return THROWERROR( RET_INDEXLIST_CORRUPTED );
 	if ( ( number[iSort[index1]] != number1 ) || ( number[iSort[index2]] != number2 ) )
 		return THROWERROR( RET_INDEXLIST_CORRUPTED );
 
-- 
2.43.0


From 7bea6756a11dd7c2c1367d65f78348404b38424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:33 +0000
Subject: [PATCH 14/66] fix: copies of a Flipper adopt its dimensions

---
 src/Flipper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Flipper.cpp b/src/Flipper.cpp
index fc77d4e..8770668 100644
--- a/src/Flipper.cpp
+++ b/src/Flipper.cpp
@@ -238,6 +238,9 @@ returnValue Flipper::clear( )
 returnValue Flipper::copy(	const Flipper& rhs
 							)
 {
+	nV = rhs.nV;
+	nC = rhs.nC;
+
 	return set( &(rhs.bounds),rhs.R, &(rhs.constraints),rhs.Q,rhs.T );
 }
 
-- 
2.43.0


From b30dcea727e3e472ace80b3cb0a581b2cfaa77f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:34 +0000
Subject: [PATCH 15/66] fix: hotstarts of uninitialised objects fail without
 changing them

---
 src/QProblem.cpp  | 8 ++++++++
 src/QProblemB.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 01ebb39..94efff9 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -459,6 +459,14 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 	if ( nV == 0 )
 		return THROWERROR( RET_QPOBJECT_NOT_SETUP );
 
+	/* consistency check */
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )       ||
+		 ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) ||
+		 ( getStatus( ) == QPS_PERFORMINGHOMOTOPY )   )
+	{
+		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
+	}
+
 
 	/* Possibly update working sets according to guesses for working sets of bounds and constraints. */
 	if ( ( guessedBounds != 0 ) || ( guessedConstraints != 0 ) )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 745de56..fe58c3e 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -425,6 +425,14 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 	if ( nV == 0 )
 		return THROWERROR( RET_QPOBJECT_NOT_SETUP );
 
+	/* consistency check */
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )       ||
+		 ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) ||
+		 ( getStatus( ) == QPS_PERFORMINGHOMOTOPY )   )
+	{
+		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
+	}
+
 
 	/* Possibly update working set according to guess for working set of bounds. */
 	if ( guessedBounds != 0 )
-- 
2.43.0


From 5a1373de0365fd6f7451c2fd4221c7934f959cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 16/66] fix: matrices read from file at a hotstart live as long
 as they are referenced

---
 src/SQProblem.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 520674b..0e85ebd 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -231,7 +231,7 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 		return THROWERROR( RET_UNABLE_TO_READ_FILE );
 	}
 
-	if ( readFromFile( A_new, nC,nV, A_file ) != SUCCESSFUL_RETURN )
+	if ( ( nC > 0 ) && ( readFromFile( A_new, nC,nV, A_file ) != SUCCESSFUL_RETURN ) )
 	{
 		delete[] A_new;
 		delete[] H_new;
@@ -265,12 +265,28 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 		return THROWERROR( RET_UNABLE_TO_READ_FILE );
 	}
 
-	/* 3) Actually perform hotstart. */
-	returnvalue = hotstart(	H_new,g_new,A_new,lb_new,ub_new,lbA_new,ubA_new,
+	/* 3) Actually perform hotstart; the matrix data has to live as long as the QP object refers to it. */
+	SymDenseMat* sH = new SymDenseMat( nV,nV,nV,H_new );
+	sH->doFreeMemory( );
+
+	DenseMatrix* dA = new DenseMatrix( nC,nV,nV,A_new );
+	dA->doFreeMemory( );
+
+	returnvalue = hotstart(	sH,g_new,dA,lb_new,ub_new,lbA_new,ubA_new,
 							nWSR,cputime,
 							guessedBounds,guessedConstraints
 							);
 
+	if ( H == sH )
+		freeHessian = BT_TRUE;
+	else
+		delete sH;
+
+	if ( A == dA )
+		freeConstraintMatrix = BT_TRUE;
+	else
+		delete dA;
+
 	if ( ubA_file != 0 )
 		delete[] ubA_new;
 	if ( lbA_file != 0 )
@@ -280,8 +296,6 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 	if ( lb_file != 0 )
 		delete[] lb_new;
 	delete[] g_new;
-	delete[] A_new;
-	delete[] H_new;
 
 	return returnvalue;
 }
-- 
2.43.0


From 8869e2e788d32d2594257317a5be660033c9add2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 17/66] fix: truncated data files are rejected

---
 src/Utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index f8e142d..728c893 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -294,9 +294,9 @@ returnValue readFromFile(	real_t* data, int_t nrow, int_t ncol,
 		for( j=0; j<ncol; ++j )
 		{
 			#ifdef __USE_SINGLE_PRECISION__
-			if ( fscanf( datafile, "%f ", &float_data ) == 0 )
+			if ( fscanf( datafile, "%f ", &float_data ) != 1 )
 			#else
-			if ( fscanf( datafile, "%lf ", &float_data ) == 0 )
+			if ( fscanf( datafile, "%lf ", &float_data ) != 1 )
 			#endif /* __USE_SINGLE_PRECISION__ */
 			{
 				fclose( datafile );
@@ -357,9 +357,9 @@ returnValue readFromFile(	int_t* data, int_t n,
 	for( i=0; i<n; ++i )
 	{
 		#ifdef __USE_LONG_INTEGERS__
-		if ( fscanf( datafile, "%ld\n", &(data[i]) ) == 0 )
+		if ( fscanf( datafile, "%ld\n", &(data[i]) ) != 1 )
 		#else
-		if ( fscanf( datafile, "%d\n", &(data[i]) ) == 0 )
+		if ( fscanf( datafile, "%d\n", &(data[i]) ) != 1 )
 		#endif
 		{
 			fclose( datafile );
-- 
2.43.0


From 335727b9e14d72d34efe6081d89229ae33b82176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 18/66] fix: QProblem::getWorkingSet rejects a null pointer

---
 src/QProblem.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 94efff9..bed973d 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -806,6 +806,9 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
  */
 returnValue QProblem::getWorkingSet( real_t* workingSet )
 {
+	if ( workingSet == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 	int_t nV = this->getNV();
 
 	if ( workingSet == 0 )
-- 
2.43.0


From 289f39ecec6a67cf5dce7770247fb4a8a5489c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 19/66] fix: hotstarts without gradient are rejected

---
 src/QProblem.cpp  | 3 +++
 src/QProblemB.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index bed973d..14f0163 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -467,6 +467,9 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
 	}
 
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 
 	/* Possibly update working sets according to guesses for working sets of bounds and constraints. */
 	if ( ( guessedBounds != 0 ) || ( guessedConstraints != 0 ) )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index fe58c3e..1a1d6cd 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -433,6 +433,9 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
 	}
 
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 
 	/* Possibly update working set according to guess for working set of bounds. */
 	if ( guessedBounds != 0 )
-- 
2.43.0


From c9b05867f6226544f779516908e66629cf3d2172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:57 +0000
Subject: [PATCH 20/66] fix: hotstarts do not start from an iterate left at the
 far bounds

---
 include/qpOASES/QProblem.hpp  |  4 ++++
 include/qpOASES/QProblemB.hpp | 13 +++++++++++
 src/QProblem.cpp              | 24 ++++++++++++++++++++
 src/QProblemB.cpp             | 41 +++++++++++++++++++++++++++++++++++
 4 files changed, 82 insertions(+)

diff --git a/include/qpOASES/QProblem.hpp b/include/qpOASES/QProblem.hpp
index 8e053f9..ababf1f 100644
--- a/include/qpOASES/QProblem.hpp
+++ b/include/qpOASES/QProblem.hpp
@@ -819,6 +819,10 @@ class QProblem : public QProblemB
 		 *  \return SUCCESSFUL_RETURN */
 		virtual returnValue performRamping( );
 
+		/** Updates all quantities depending on the primal iterate only.
+		 *	\return SUCCESSFUL_RETURN */
+		virtual returnValue primalIterateChanged( );
+
 
 		/** ... */
 		returnValue updateFarBounds(	real_t curFarBound,					/**< ... */
diff --git a/include/qpOASES/QProblemB.hpp b/include/qpOASES/QProblemB.hpp
index 41eeb9f..dd2411f 100644
--- a/include/qpOASES/QProblemB.hpp
+++ b/include/qpOASES/QProblemB.hpp
@@ -718,6 +718,19 @@ class QProblemB
 		virtual returnValue performRamping( );
 
 
+		/** If the current iterate has been left at far bounds that were moved away,
+		 *	e.g. after having solved an unbounded QP, it is useless as starting point
+		 *	of a further homotopy as all digits would get lost by cancellation. Thus,
+		 *	a moderate auxiliary QP solution with same working set is set up.
+		 *	\return SUCCESSFUL_RETURN */
+		returnValue discardFarIterate(	real_t farBound		/**< Components exceeding this value (times growth factor) are discarded. */
+										);
+
+		/** Updates all quantities depending on the primal iterate only.
+		 *	\return SUCCESSFUL_RETURN */
+		virtual returnValue primalIterateChanged( );
+
+
 		/** ... */
 		returnValue updateFarBounds(	real_t curFarBound,					/**< ... */
                                         int_t nRamp,						/**< ... */
diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 14f0163..174768d 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -555,6 +555,9 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 			for (i = 0; i < nC; i++)
 				if ((lbA_new[i] > -INFTY) && (lbA_new[i] < -farbound)) farbound = -lbA_new[i];
 
+		/* do not start from an iterate left at far bounds moved away previously */
+		discardFarIterate( farbound );
+
 		updateFarBounds(	farbound,nV+nC,
 							lb_new,lb_new_far, ub_new,ub_new_far,
 							lbA_new,lbA_new_far, ubA_new,ubA_new_far
@@ -5611,6 +5614,27 @@ returnValue QProblem::performRamping( )
 }
 
 
+/*
+ * p r i m a l I t e r a t e C h a n g e d
+ */
+returnValue QProblem::primalIterateChanged( )
+{
+	int_t i;
+	int_t nV = getNV( ), nC = getNC( );
+
+	A->times( 1, 1.0, x, nV, 0.0, Ax, nC );
+
+	for ( i=0; i<nC; ++i )
+	{
+		Ax_l[i] = Ax[i] - lbA[i];
+		Ax_u[i] = ubA[i] - Ax[i];
+		y[nV+i] = 0.0;
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
 /*
  * u p d a t e F a r B o u n d s
  */
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 1a1d6cd..fb10c4a 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -509,6 +509,9 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 			for (i = 0; i < nV; i++)
 				if ((lb_new[i] > -INFTY) && (lb_new[i] < -farbound)) farbound = -lb_new[i];
 
+		/* do not start from an iterate left at far bounds moved away previously */
+		discardFarIterate( farbound );
+
 		updateFarBounds(	farbound,nV,
 							lb_new,lb_new_far, ub_new,ub_new_far
 							);
@@ -2248,6 +2251,44 @@ returnValue QProblemB::performRamping( )
 }
 
 
+/*
+ * d i s c a r d F a r I t e r a t e
+ */
+returnValue QProblemB::discardFarIterate( real_t farBound )
+{
+	int_t i;
+	int_t nV = getNV( );
+	BooleanType isFar = BT_FALSE;
+
+	for ( i=0; i<nV; ++i )
+		if ( !( getAbs( x[i] ) <= farBound * options.growFarBounds ) )
+			isFar = BT_TRUE;
+
+	if ( isFar == BT_FALSE )
+		return SUCCESSFUL_RETURN;
+
+	for ( i=0; i<nV; ++i )
+		if ( !( getAbs( x[i] ) <= farBound ) )
+			x[i] = 0.0;
+
+	for ( i=0; i<nV; ++i )
+		y[i] = 0.0;
+
+	primalIterateChanged( );
+
+	return performRamping( );
+}
+
+
+/*
+ * p r i m a l I t e r a t e C h a n g e d
+ */
+returnValue QProblemB::primalIterateChanged( )
+{
+	return SUCCESSFUL_RETURN;
+}
+
+
 /*
  * u p d a t e F a r B o u n d s
  */
-- 
2.43.0


From 24a3f31eb4ddfab4da00e2b43a6be5a44a0d25cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:21 +0000
Subject: [PATCH 21/66] fix: QProblemB does not flip bounds of regularised
 linear programs (cycling)

---
 src/QProblemB.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index fb10c4a..3c60b45 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3769,7 +3769,8 @@ returnValue QProblemB::removeBound(	int_t number,
 		delete[] rhs; delete[] r;
 	}
 
-	if ( ( hessianType == HST_ZERO ) && ( options.enableFlippingBounds == BT_TRUE ) )
+	/* flip bound if Hessian is singular (a regularised one is not: flipping would lead to cycling) */
+	if ( ( hessianType == HST_ZERO ) && ( options.enableFlippingBounds == BT_TRUE ) && ( usingRegularisation( ) == BT_FALSE ) )
 	{
 		flipper.get( &bounds,R );
 		bounds.flipFixed(number);
-- 
2.43.0


From 2c1f7db0352280d62ab9fae686abdadc6ee9204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:57 +0000
Subject: [PATCH 22/66] fix: unboundedness is not hidden by the automatic
 regularisation

---
 include/qpOASES/QProblemB.hpp |  7 ++++++
 src/QProblem.cpp              | 13 +++++++++++
 src/QProblemB.cpp             | 44 +++++++++++++++++++++++++++++++++++
 3 files changed, 64 insertions(+)

diff --git a/include/qpOASES/QProblemB.hpp b/include/qpOASES/QProblemB.hpp
index dd2411f..1211356 100644
--- a/include/qpOASES/QProblemB.hpp
+++ b/include/qpOASES/QProblemB.hpp
@@ -726,6 +726,13 @@ class QProblemB
 		returnValue discardFarIterate(	real_t farBound		/**< Components exceeding this value (times growth factor) are discarded. */
 										);
 
+		/** Detects that the current solution is an artificial one, i.e. that the
+		 *	iterate moved along a direction of unbounded descent until the
+		 *	regularisation term compensated the given gradient.
+		 *	\return BT_TRUE iff QP would be unbounded without regularisation */
+		BooleanType isUnboundedWithoutRegularisation(	const real_t* const g_new	/**< Gradient of QP that has been solved. */
+														) const;
+
 		/** Updates all quantities depending on the primal iterate only.
 		 *	\return SUCCESSFUL_RETURN */
 		virtual returnValue primalIterateChanged( );
diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 174768d..d8f3848 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1825,6 +1825,19 @@ returnValue QProblem::solveRegularisedQP(	const real_t* const g_new,
 	}
 
 
+	/* Do not present an artificial solution caused by the regularisation. */
+	if ( isUnboundedWithoutRegularisation( g_new ) == BT_TRUE )
+	{
+		if ( cputime != 0 )
+			*cputime = cputime_total;
+
+		unbounded = BT_TRUE;
+		status = QPS_HOMOTOPYQPSOLVED;
+
+		return RET_HOTSTART_STOPPED_UNBOUNDEDNESS;
+	}
+
+
 	/* II) PERFORM SUCCESSIVE REGULARISATION STEPS */
 	real_t* gMod = new real_t[nV];
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 3c60b45..e655c75 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2251,6 +2251,37 @@ returnValue QProblemB::performRamping( )
 }
 
 
+/*
+ * i s U n b o u n d e d W i t h o u t R e g u l a r i s a t i o n
+ */
+BooleanType QProblemB::isUnboundedWithoutRegularisation( const real_t* const g_new ) const
+{
+	int_t i;
+	int_t nV = getNV( );
+
+	real_t xMax = 0.0;
+	real_t xNorm2 = 0.0;
+	real_t gx = 0.0;
+
+	for ( i=0; i<nV; ++i )
+	{
+		xMax    = getMax( xMax,getAbs( x[i] ) );
+		xNorm2 += x[i] * x[i];
+		gx     += g_new[i] * x[i];
+	}
+
+	/* only iterates beyond the first extension of the far bounds are suspicious */
+	if ( xMax <= options.initialFarBounds * options.growFarBounds )
+		return BT_FALSE;
+
+	/* curvature of regularisation term matters along direction of descent */
+	if ( ( gx < 0.0 ) && ( -gx <= 10.0 * regVal * xNorm2 ) )
+		return BT_TRUE;
+
+	return BT_FALSE;
+}
+
+
 /*
  * d i s c a r d F a r I t e r a t e
  */
@@ -2802,6 +2833,19 @@ returnValue QProblemB::solveRegularisedQP(	const real_t* const g_new,
 	}
 
 
+	/* Do not present an artificial solution caused by the regularisation. */
+	if ( isUnboundedWithoutRegularisation( g_new ) == BT_TRUE )
+	{
+		if ( cputime != 0 )
+			*cputime = cputime_total;
+
+		unbounded = BT_TRUE;
+		status = QPS_HOMOTOPYQPSOLVED;
+
+		return RET_HOTSTART_STOPPED_UNBOUNDEDNESS;
+	}
+
+
 	/* II) PERFORM SUCCESSIVE REGULARISATION STEPS */
 	real_t* gMod = new real_t[nV];
 
-- 
2.43.0


From 2663df36aaa3ea81ab3b6966a24643ae1d707d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:49 +0000
Subject: [PATCH 23/66] fix: far limits within the working set are active

---
 src/QProblem.cpp  | 12 ++++++++----
 src/QProblemB.cpp |  6 ++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index d8f3848..64a1227 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -607,16 +607,20 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 
 				for ( i=0; i<nV; ++i )
 				{
-					if ( ( ( lb_new == 0 ) || ( lb_new_far[i] > lb_new[i] ) ) && ( getAbs ( lb_new_far[i] - x[i] ) < tol ) )
+					if ( ( ( lb_new == 0 ) || ( lb_new_far[i] > lb_new[i] ) ) &&
+						 ( ( bounds.getStatus(i) == ST_LOWER ) || ( getAbs ( lb_new_far[i] - x[i] ) < tol ) ) )
 						++nActiveFar;
-					if ( ( ( ub_new == 0 ) || ( ub_new_far[i] < ub_new[i] ) ) && ( getAbs ( ub_new_far[i] - x[i] ) < tol ) )
+					if ( ( ( ub_new == 0 ) || ( ub_new_far[i] < ub_new[i] ) ) &&
+						 ( ( bounds.getStatus(i) == ST_UPPER ) || ( getAbs ( ub_new_far[i] - x[i] ) < tol ) ) )
 						++nActiveFar;
 				}
 				for ( i=0; i<nC; ++i )
 				{
-					if ( ( ( lbA_new == 0 ) || ( lbA_new_far[i] > lbA_new[i] ) ) && ( getAbs ( lbA_new_far[i] - Ax[i] ) < tol ) )
+					if ( ( ( lbA_new == 0 ) || ( lbA_new_far[i] > lbA_new[i] ) ) &&
+						 ( ( constraints.getStatus(i) == ST_LOWER ) || ( getAbs ( lbA_new_far[i] - Ax[i] ) < tol ) ) )
 						++nActiveFar;
-					if ( ( ( ubA_new == 0 ) || ( ubA_new_far[i] < ubA_new[i] ) ) && ( getAbs ( ubA_new_far[i] - Ax[i] ) < tol ) )
+					if ( ( ( ubA_new == 0 ) || ( ubA_new_far[i] < ubA_new[i] ) ) &&
+						 ( ( constraints.getStatus(i) == ST_UPPER ) || ( getAbs ( ubA_new_far[i] - Ax[i] ) < tol ) ) )
 						++nActiveFar;
 				}
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index e655c75..5b574dd 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -559,9 +559,11 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 				nActiveFar = 0;
 				for ( i=0; i<nV; ++i )
 				{
-					if ( ( ( lb_new == 0 ) || ( lb_new_far[i] > lb_new[i] ) ) && ( getAbs ( lb_new_far[i] - x[i] ) < tol ) )
+					if ( ( ( lb_new == 0 ) || ( lb_new_far[i] > lb_new[i] ) ) &&
+						 ( ( bounds.getStatus(i) == ST_LOWER ) || ( getAbs ( lb_new_far[i] - x[i] ) < tol ) ) )
 						++nActiveFar;
-					if ( ( ( ub_new == 0 ) || ( ub_new_far[i] < ub_new[i] ) ) && ( getAbs ( ub_new_far[i] - x[i] ) < tol ) )
+					if ( ( ( ub_new == 0 ) || ( ub_new_far[i] < ub_new[i] ) ) &&
+						 ( ( bounds.getStatus(i) == ST_UPPER ) || ( getAbs ( ub_new_far[i] - x[i] ) < tol ) ) )
 						++nActiveFar;
 				}
 
-- 
2.43.0


From 3ef496ef84c2b3658d6bb23aeb5dc11262bf6c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:57 +0000
Subject: [PATCH 24/66] fix: no exchange of limits within regularised linear
 programs (cycling)

---
 src/QProblem.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 64a1227..8a7158c 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -4512,8 +4512,10 @@ returnValue QProblem::ensureNonzeroCurvature(	BooleanType removeBoundNotConstrai
 		if (normS < a) normS = a;
 	}
 
-	/* relative test against zero in inf-norm */
-	if (normXi < options.epsNZCTests * normS)
+	/* relative test against zero in inf-norm (a regularised zero Hessian has
+	 * nonzero curvature: exchanging limits would lead to cycling) */
+	if ( (normXi < options.epsNZCTests * normS) &&
+		 ( ( hessianType != HST_ZERO ) || ( usingRegularisation( ) == BT_FALSE ) ) )
 	{
 		/* determine jump in x via ratio tests */
 		real_t sigmaLBnd, sigmaLCnstr, sigmaUBnd, sigmaUCnstr, sigma;
-- 
2.43.0


From db347134a202199c2027492da894aa94e7882592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:35 +0000
Subject: [PATCH 25/66] fix: iteration output does not read uninitialised
 values

---
 src/QProblem.cpp  | 6 +++---
 src/QProblemB.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 8a7158c..d7f117d 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1553,9 +1553,9 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 
 	BooleanType Delta_bC_isZero, Delta_bB_isZero;
 
-	int_t BC_idx;
-	SubjectToStatus BC_status;
-	BooleanType BC_isBound;
+	int_t BC_idx = -1;
+	SubjectToStatus BC_status = ST_UNDEFINED;
+	BooleanType BC_isBound = BT_FALSE;
 
 	real_t homotopyLength;
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 5b574dd..9d3ad54 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2567,8 +2567,8 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 	returnValue returnvalue;
 	BooleanType Delta_bB_isZero;
 
-	int_t BC_idx;
-	SubjectToStatus BC_status;
+	int_t BC_idx = -1;
+	SubjectToStatus BC_status = ST_UNDEFINED;
 
 	real_t homotopyLength;
 
-- 
2.43.0


From b7afb7a6e55b39cdab27a9b0d10bd7c435c52fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:17 +0000
Subject: [PATCH 26/66] fix: no working set changes are reported if limits
 cross at hotstart

---
 src/QProblem.cpp  | 3 +++
 src/QProblemB.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index d7f117d..831ad5f 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -501,6 +501,9 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 		unbounded = BT_FALSE;
 		if ( status == QPS_SOLVED )
 			status = QPS_HOMOTOPYQPSOLVED;
+		nWSR = 0;
+		if ( cputime != 0 )
+			*cputime = auxTime;
 		return setInfeasibilityFlag( RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE );
 	}
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 9d3ad54..3a17271 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -465,6 +465,9 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 		unbounded = BT_FALSE;
 		if ( status == QPS_SOLVED )
 			status = QPS_HOMOTOPYQPSOLVED;
+		nWSR = 0;
+		if ( cputime != 0 )
+			*cputime = auxTime;
 		return setInfeasibilityFlag( RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE );
 	}
 
-- 
2.43.0


From 6a7360df3b11f2be4f82f83de36089fb48578b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 27/66] fix: multipliers of initial guesses are made consistent
 with the working set

---
 include/qpOASES/QProblem.hpp  |  7 ++++++
 include/qpOASES/QProblemB.hpp |  7 ++++++
 src/QProblem.cpp              | 45 ++++++++++++++++++++++++++++-------
 src/QProblemB.cpp             | 31 ++++++++++++++++++++----
 4 files changed, 76 insertions(+), 14 deletions(-)

diff --git a/include/qpOASES/QProblem.hpp b/include/qpOASES/QProblem.hpp
index ababf1f..05c5a2e 100644
--- a/include/qpOASES/QProblem.hpp
+++ b/include/qpOASES/QProblem.hpp
@@ -604,6 +604,13 @@ class QProblem : public QProblemB
 																					 *	 If a NULL pointer is passed, all entries are set to zero. */
 												);
 
+		/** Ensures that the dual solution vector is consistent with the working set of
+		 *  the auxiliary QP: it vanishes for inactive limits and has the sign required
+		 *  for active ones (assumes that members Y and BOUNDS, CONSTRAINTS have already been
+		 *  initialised!).
+		 *	\return SUCCESSFUL_RETURN */
+		returnValue setupAuxiliaryQPdual( );
+
 		/** Sets up gradient of the auxiliary initial QP for given
 		 *  optimal primal/dual solution and given initial working set
 		 *  (assumes that members X, Y and BOUNDS, CONSTRAINTS have already been initialised!).
diff --git a/include/qpOASES/QProblemB.hpp b/include/qpOASES/QProblemB.hpp
index 1211356..9585756 100644
--- a/include/qpOASES/QProblemB.hpp
+++ b/include/qpOASES/QProblemB.hpp
@@ -885,6 +885,13 @@ class QProblemB
 																					 *	 If a NULL pointer is passed, all entries are set to zero. */
 												);
 
+		/** Ensures that the dual solution vector is consistent with the working set of
+		 *  the auxiliary QP: it vanishes for inactive limits and has the sign required
+		 *  for active ones (assumes that members Y and BOUNDS have already been
+		 *  initialised!).
+		 *	\return SUCCESSFUL_RETURN */
+		returnValue setupAuxiliaryQPdual( );
+
 		/** Sets up gradient of the auxiliary initial QP for given
 		 *  optimal primal/dual solution and given initial working set
 		 *  (assumes that members X, Y and BOUNDS have already been initialised!).
diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 831ad5f..c7874fb 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1448,7 +1448,8 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 
 	/* ... and setup QP data of an auxiliary QP having an optimal solution
 	 * as specified by the user (or xOpt = yOpt = 0, by default). */
-	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
+	if ( ( setupAuxiliaryQPdual( ) != SUCCESSFUL_RETURN ) ||
+		 ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN ) )
 	{
 		delete[] ubA_original; delete[] lbA_original; delete[] ub_original; delete[] lb_original; delete[] g_original;
 		return THROWERROR( RET_INIT_FAILED );
@@ -2738,6 +2739,37 @@ returnValue QProblem::setupAuxiliaryQPsolution(	const real_t* const xOpt, const
 }
 
 
+/*
+ *	s e t u p A u x i l i a r y Q P d u a l
+ */
+returnValue QProblem::setupAuxiliaryQPdual( )
+{
+	int_t i;
+	int_t nV = getNV( );
+	int_t nC = getNC( );
+
+	for ( i=0; i<nV; ++i )
+	{
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( bounds.getType( i ) != ST_EQUALITY ) &&
+			   ( ( ( bounds.getStatus( i ) == ST_LOWER ) && ( y[i] < 0.0 ) ) ||
+				 ( ( bounds.getStatus( i ) == ST_UPPER ) && ( y[i] > 0.0 ) ) ) ) )
+			y[i] = 0.0;
+	}
+
+	for ( i=0; i<nC; ++i )
+	{
+		if ( ( constraints.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( constraints.getType( i ) != ST_EQUALITY ) &&
+			   ( ( ( constraints.getStatus( i ) == ST_LOWER ) && ( y[nV+i] < 0.0 ) ) ||
+				 ( ( constraints.getStatus( i ) == ST_UPPER ) && ( y[nV+i] > 0.0 ) ) ) ) )
+			y[nV+i] = 0.0;
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
 /*
  *	s e t u p A u x i l i a r y Q P g r a d i e n t
  */
@@ -5877,14 +5909,9 @@ returnValue QProblem::setupAuxiliaryQP( const Bounds* const guessedBounds, const
 
 
 	/* II) SETUP AUXILIARY QP DATA: */
-	/* 1) Ensure that dual variable is zero for free bounds and inactive constraints. */
-	for ( i=0; i<nV; ++i )
-		if ( bounds.getStatus( i ) == ST_INACTIVE )
-			y[i] = 0.0;
-
-	for ( i=0; i<nC; ++i )
-		if ( constraints.getStatus( i ) == ST_INACTIVE )
-			y[nV+i] = 0.0;
+	/* 1) Ensure that dual variables are consistent with working set. */
+	if ( setupAuxiliaryQPdual( ) != SUCCESSFUL_RETURN )
+		THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 	/* 2) Setup gradient and (constraints') bound vectors. */
 	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 3a17271..58f22b4 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2481,7 +2481,8 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 
 	/* ... and setup QP data of an auxiliary QP having an optimal solution
 	 * as specified by the user (or xOpt = yOpt = 0, by default). */
-	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
+	if ( ( setupAuxiliaryQPdual( ) != SUCCESSFUL_RETURN ) ||
+		 ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN ) )
 	{
 		delete[] ub_original; delete[] lb_original; delete[] g_original;
 		return THROWERROR( RET_INIT_FAILED );
@@ -3014,6 +3015,27 @@ returnValue QProblemB::setupAuxiliaryQPsolution(	const real_t* const xOpt, const
 }
 
 
+/*
+ *	s e t u p A u x i l i a r y Q P d u a l
+ */
+returnValue QProblemB::setupAuxiliaryQPdual( )
+{
+	int_t i;
+	int_t nV = getNV( );
+
+	for ( i=0; i<nV; ++i )
+	{
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( bounds.getType( i ) != ST_EQUALITY ) &&
+			   ( ( ( bounds.getStatus( i ) == ST_LOWER ) && ( y[i] < 0.0 ) ) ||
+				 ( ( bounds.getStatus( i ) == ST_UPPER ) && ( y[i] > 0.0 ) ) ) ) )
+			y[i] = 0.0;
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
 /*
  *	s e t u p A u x i l i a r y Q P g r a d i e n t
  */
@@ -3169,10 +3191,9 @@ returnValue QProblemB::setupAuxiliaryQP( const Bounds* const guessedBounds )
 
 
 	/* II) SETUP AUXILIARY QP DATA: */
-	/* 1) Ensure that dual variable is zero for free bounds. */
-	for ( i=0; i<nV; ++i )
-		if ( bounds.getStatus( i ) == ST_INACTIVE )
-			y[i] = 0.0;
+	/* 1) Ensure that dual variables are consistent with working set. */
+	if ( setupAuxiliaryQPdual( ) != SUCCESSFUL_RETURN )
+		THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 	/* 2) Setup gradient and bound vectors. */
 	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
-- 
2.43.0


From ae574c58d78f6df6319c076e576c8c2e8c610be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:44 +0000
Subject: [PATCH 28/66] fix: hotstarts without far bounds do not cover infinite
 distances

---
 include/qpOASES/QProblem.hpp  | 10 ++++++
 include/qpOASES/QProblemB.hpp |  8 +++++
 src/QProblem.cpp              | 66 +++++++++++++++++++++++++++++++++++
 src/QProblemB.cpp             | 38 ++++++++++++++++++++
 4 files changed, 122 insertions(+)

diff --git a/include/qpOASES/QProblem.hpp b/include/qpOASES/QProblem.hpp
index 05c5a2e..929ed56 100644
--- a/include/qpOASES/QProblem.hpp
+++ b/include/qpOASES/QProblem.hpp
@@ -604,6 +604,16 @@ class QProblem : public QProblemB
 																					 *	 If a NULL pointer is passed, all entries are set to zero. */
 												);
 
+		/** Adapts those limits of the current QP that are inactive and infinite either
+		 *	currently or in the QP to be solved. This keeps the current solution optimal
+		 *	but avoids that a homotopy has to cover an infinite distance.
+		 *	\return SUCCESSFUL_RETURN */
+		returnValue adaptInfiniteLimits(	const real_t* const lb_new,		/**< New lower bounds. */
+											const real_t* const ub_new,		/**< New upper bounds. */
+											const real_t* const lbA_new,	/**< New lower constraints' bounds. */
+											const real_t* const ubA_new		/**< New upper constraints' bounds. */
+											);
+
 		/** Ensures that the dual solution vector is consistent with the working set of
 		 *  the auxiliary QP: it vanishes for inactive limits and has the sign required
 		 *  for active ones (assumes that members Y and BOUNDS, CONSTRAINTS have already been
diff --git a/include/qpOASES/QProblemB.hpp b/include/qpOASES/QProblemB.hpp
index 9585756..ce5862f 100644
--- a/include/qpOASES/QProblemB.hpp
+++ b/include/qpOASES/QProblemB.hpp
@@ -726,6 +726,14 @@ class QProblemB
 		returnValue discardFarIterate(	real_t farBound		/**< Components exceeding this value (times growth factor) are discarded. */
 										);
 
+		/** Adapts those limits of the current QP that are inactive and infinite either
+		 *	currently or in the QP to be solved. This keeps the current solution optimal
+		 *	but avoids that a homotopy has to cover an infinite distance.
+		 *	\return SUCCESSFUL_RETURN */
+		returnValue adaptInfiniteLimits(	const real_t* const lb_new,	/**< New lower bounds. */
+											const real_t* const ub_new	/**< New upper bounds. */
+											);
+
 		/** Detects that the current solution is an artificial one, i.e. that the
 		 *	iterate moved along a direction of unbounded descent until the
 		 *	regularisation term compensated the given gradient.
diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index c7874fb..ac16b82 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -531,6 +531,8 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 
 	if ( options.enableFarBounds == BT_FALSE )
 	{
+		adaptInfiniteLimits( lb_new,ub_new,lbA_new,ubA_new );
+
 		/* Automatically call standard solveQP if regularisation is not active. */
 		returnvalue = solveRegularisedQP(	g_new,lb_new,ub_new,lbA_new,ubA_new,
 											nWSR,cputime,0,
@@ -2739,6 +2741,70 @@ returnValue QProblem::setupAuxiliaryQPsolution(	const real_t* const xOpt, const
 }
 
 
+/*
+ *	a d a p t I n f i n i t e L i m i t s
+ */
+returnValue QProblem::adaptInfiniteLimits(	const real_t* const lb_new, const real_t* const ub_new,
+											const real_t* const lbA_new, const real_t* const ubA_new
+											)
+{
+	int_t i;
+	int_t nV = getNV( );
+	int_t nC = getNC( );
+
+	for ( i=0; i<nV; ++i )
+	{
+		/* equalities are left unchanged */
+		if ( bounds.getType( i ) == ST_EQUALITY )
+			continue;
+
+		if ( bounds.getStatus( i ) != ST_LOWER )
+		{
+			if ( ( lb_new == 0 ) || ( lb_new[i] <= -INFTY ) )
+				lb[i] = -INFTY;
+			else if ( lb[i] <= -INFTY )
+				lb[i] = getMin( lb_new[i],x[i]-options.boundRelaxation );
+		}
+
+		if ( bounds.getStatus( i ) != ST_UPPER )
+		{
+			if ( ( ub_new == 0 ) || ( ub_new[i] >= INFTY ) )
+				ub[i] = INFTY;
+			else if ( ub[i] >= INFTY )
+				ub[i] = getMax( ub_new[i],x[i]+options.boundRelaxation );
+		}
+	}
+
+	for ( i=0; i<nC; ++i )
+	{
+		/* equalities are left unchanged */
+		if ( constraints.getType( i ) == ST_EQUALITY )
+			continue;
+
+		if ( constraints.getStatus( i ) != ST_LOWER )
+		{
+			if ( ( lbA_new == 0 ) || ( lbA_new[i] <= -INFTY ) )
+				lbA[i] = -INFTY;
+			else if ( lbA[i] <= -INFTY )
+				lbA[i] = getMin( lbA_new[i],Ax[i]-options.boundRelaxation );
+		}
+
+		if ( constraints.getStatus( i ) != ST_UPPER )
+		{
+			if ( ( ubA_new == 0 ) || ( ubA_new[i] >= INFTY ) )
+				ubA[i] = INFTY;
+			else if ( ubA[i] >= INFTY )
+				ubA[i] = getMax( ubA_new[i],Ax[i]+options.boundRelaxation );
+		}
+
+		Ax_l[i] = Ax[i] - lbA[i];
+		Ax_u[i] = ubA[i] - Ax[i];
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
 /*
  *	s e t u p A u x i l i a r y Q P d u a l
  */
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 58f22b4..f76377d 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -493,6 +493,8 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 
 	if ( options.enableFarBounds == BT_FALSE )
 	{
+		adaptInfiniteLimits( lb_new,ub_new );
+
 		/* Automatically call standard solveQP if regularisation is not active. */
 		returnvalue = solveRegularisedQP(	g_new,lb_new,ub_new,
 											nWSR,cputime,0,
@@ -3015,6 +3017,42 @@ returnValue QProblemB::setupAuxiliaryQPsolution(	const real_t* const xOpt, const
 }
 
 
+/*
+ *	a d a p t I n f i n i t e L i m i t s
+ */
+returnValue QProblemB::adaptInfiniteLimits(	const real_t* const lb_new, const real_t* const ub_new
+											)
+{
+	int_t i;
+	int_t nV = getNV( );
+
+	for ( i=0; i<nV; ++i )
+	{
+		/* equalities are left unchanged */
+		if ( bounds.getType( i ) == ST_EQUALITY )
+			continue;
+
+		if ( bounds.getStatus( i ) != ST_LOWER )
+		{
+			if ( ( lb_new == 0 ) || ( lb_new[i] <= -INFTY ) )
+				lb[i] = -INFTY;
+			else if ( lb[i] <= -INFTY )
+				lb[i] = getMin( lb_new[i],x[i]-options.boundRelaxation );
+		}
+
+		if ( bounds.getStatus( i ) != ST_UPPER )
+		{
+			if ( ( ub_new == 0 ) || ( ub_new[i] >= INFTY ) )
+				ub[i] = INFTY;
+			else if ( ub[i] >= INFTY )
+				ub[i] = getMax( ub_new[i],x[i]+options.boundRelaxation );
+		}
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
 /*
  *	s e t u p A u x i l i a r y Q P d u a l
  */
-- 
2.43.0


From cddf42ab899297978983f25b43624dcf690536dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:34 +0000
Subject: [PATCH 29/66] fix: limits beyond INFTY are treated as infinite within
 the homotopy

---
 src/QProblem.cpp  | 16 +++++++++-------
 src/QProblemB.cpp | 16 +++++++++-------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index ac16b82..0e83546 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -4841,7 +4841,7 @@ returnValue QProblem::determineDataShift(	const real_t* const g_new, const real_
 	{
 		/* if lower constraints' bounds are to be disabled or do not exist, shift them to -infinity */
 		if ( lbA_new != 0 )
-			delta_lbA[i] = lbA_new[i] - lbA[i];
+			delta_lbA[i] = getMax( lbA_new[i],-INFTY ) - lbA[i];
 		else
 			delta_lbA[i] = -INFTY - lbA[i];
 	}
@@ -4850,7 +4850,7 @@ returnValue QProblem::determineDataShift(	const real_t* const g_new, const real_
 	{
 		/* if upper constraints' bounds are to be disabled or do not exist, shift them to infinity */
 		if ( ubA_new != 0 )
-			delta_ubA[i] = ubA_new[i] - ubA[i];
+			delta_ubA[i] = getMin( ubA_new[i],INFTY ) - ubA[i];
 		else
 			delta_ubA[i] = INFTY - ubA[i];
 	}
@@ -5618,7 +5618,7 @@ real_t QProblem::getRelativeHomotopyLength(	const real_t* const g_new, const rea
 	int_t i;
 	int_t nC = getNC( );
 	real_t len = QProblemB::getRelativeHomotopyLength( g_new,lb_new,ub_new );
-	real_t d, s;
+	real_t b, d, s;
 
 	/*fprintf( stdFile, "len in homotopyLength = %.3e\n",len ); */
 
@@ -5627,9 +5627,10 @@ real_t QProblem::getRelativeHomotopyLength(	const real_t* const g_new, const rea
 	{
 		for (i = 0; i < nC; i++)
 		{
-			s = getAbs(lbA_new[i]);
+			b = getMax( lbA_new[i],-INFTY );
+			s = getAbs(b);
 			if (s < 1.0) s = 1.0;
-			d = getAbs(lbA_new[i] - lbA[i]) / s;
+			d = getAbs(b - lbA[i]) / s;
 			if (d > len) len = d;
 		}
 	}
@@ -5640,9 +5641,10 @@ real_t QProblem::getRelativeHomotopyLength(	const real_t* const g_new, const rea
 	{
 		for (i = 0; i < nC; i++)
 		{
-			s = getAbs(ubA_new[i]);
+			b = getMin( ubA_new[i],INFTY );
+			s = getAbs(b);
 			if (s < 1.0) s = 1.0;
-			d = getAbs(ubA_new[i] - ubA[i]) / s;
+			d = getAbs(b - ubA[i]) / s;
 			if (d > len) len = d;
 		}
 	}
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index f76377d..968cbc9 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1754,7 +1754,7 @@ returnValue QProblemB::determineDataShift(	const real_t* const g_new, const real
 	if ( lb_new != 0 )
 	{
 		for( i=0; i<nV; ++i )
-			delta_lb[i] = lb_new[i] - lb[i];
+			delta_lb[i] = getMax( lb_new[i],-INFTY ) - lb[i];
 	}
 	else
 	{
@@ -1766,7 +1766,7 @@ returnValue QProblemB::determineDataShift(	const real_t* const g_new, const real
 	if ( ub_new != 0 )
 	{
 		for( i=0; i<nV; ++i )
-			delta_ub[i] = ub_new[i] - ub[i];
+			delta_ub[i] = getMin( ub_new[i],INFTY ) - ub[i];
 	}
 	else
 	{
@@ -2177,7 +2177,7 @@ real_t QProblemB::getRelativeHomotopyLength(	const real_t* const g_new, const re
 {
 	int_t i;
 	int_t nV = getNV( );
-	real_t d, s, len = 0.0;
+	real_t b, d, s, len = 0.0;
 
 	/* gradient */
 	for (i = 0; i < nV; i++)
@@ -2194,9 +2194,10 @@ real_t QProblemB::getRelativeHomotopyLength(	const real_t* const g_new, const re
 	{
 		for (i = 0; i < nV; i++)
 		{
-			s = getAbs(lb_new[i]);
+			b = getMax( lb_new[i],-INFTY );
+			s = getAbs(b);
 			if (s < 1.0) s = 1.0;
-			d = getAbs(lb_new[i] - lb[i]) / s;
+			d = getAbs(b - lb[i]) / s;
 			if (d > len) len = d;
 		}
 	}
@@ -2207,9 +2208,10 @@ real_t QProblemB::getRelativeHomotopyLength(	const real_t* const g_new, const re
 	{
 		for (i = 0; i < nV; i++)
 		{
-			s = getAbs(ub_new[i]);
+			b = getMin( ub_new[i],INFTY );
+			s = getAbs(b);
 			if (s < 1.0) s = 1.0;
-			d = getAbs(ub_new[i] - ub[i]) / s;
+			d = getAbs(b - ub[i]) / s;
 			if (d > len) len = d;
 		}
 	}
-- 
2.43.0


From 9e28f13a8e9335b5b6f9d5105ea5a23ab8f4a1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:42 +0000
Subject: [PATCH 30/66] fix: guesses do not add unbounded variables to the
 working set

---
 src/QProblemB.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 968cbc9..c7fb66e 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1548,7 +1548,12 @@ returnValue QProblemB::obtainAuxiliaryWorkingSet(	const real_t* const xOpt, cons
 			else
 			#endif
 			{
-				if ( auxiliaryBounds->setupBound( i,guessedBounds->getStatus( i ) ) != SUCCESSFUL_RETURN )
+				/* Unbounded variables cannot be part of the working set. */
+				SubjectToStatus guessedStatus = guessedBounds->getStatus( i );
+				if ( ( bounds.getType( i ) == ST_UNBOUNDED ) && ( guessedStatus != ST_UNDEFINED ) )
+					guessedStatus = ST_INACTIVE;
+
+				if ( auxiliaryBounds->setupBound( i,guessedStatus ) != SUCCESSFUL_RETURN )
 					return THROWERROR( RET_OBTAINING_WORKINGSET_FAILED );
 			}
 		}
@@ -1560,14 +1565,14 @@ returnValue QProblemB::obtainAuxiliaryWorkingSet(	const real_t* const xOpt, cons
 			/* Obtain initial working set by "clipping". */
 			for( i=0; i<nV; ++i )
 			{
-				if ( xOpt[i] <= lb[i] + options.boundTolerance )
+				if ( ( bounds.getType( i ) != ST_UNBOUNDED ) && ( xOpt[i] <= lb[i] + options.boundTolerance ) )
 				{
 					if ( auxiliaryBounds->setupBound( i,ST_LOWER ) != SUCCESSFUL_RETURN )
 						return THROWERROR( RET_OBTAINING_WORKINGSET_FAILED );
 					continue;
 				}
 
-				if ( xOpt[i] >= ub[i] - options.boundTolerance )
+				if ( ( bounds.getType( i ) != ST_UNBOUNDED ) && ( xOpt[i] >= ub[i] - options.boundTolerance ) )
 				{
 					if ( auxiliaryBounds->setupBound( i,ST_UPPER ) != SUCCESSFUL_RETURN )
 						return THROWERROR( RET_OBTAINING_WORKINGSET_FAILED );
@@ -1595,14 +1600,14 @@ returnValue QProblemB::obtainAuxiliaryWorkingSet(	const real_t* const xOpt, cons
 			/* Obtain initial working set in accordance to sign of dual solution vector. */
 			for( i=0; i<nV; ++i )
 			{
-				if ( yOpt[i] > EPS )
+				if ( ( bounds.getType( i ) != ST_UNBOUNDED ) && ( yOpt[i] > EPS ) )
 				{
 					if ( auxiliaryBounds->setupBound( i,ST_LOWER ) != SUCCESSFUL_RETURN )
 						return THROWERROR( RET_OBTAINING_WORKINGSET_FAILED );
 					continue;
 				}
 
-				if ( yOpt[i] < -EPS )
+				if ( ( bounds.getType( i ) != ST_UNBOUNDED ) && ( yOpt[i] < -EPS ) )
 				{
 					if ( auxiliaryBounds->setupBound( i,ST_UPPER ) != SUCCESSFUL_RETURN )
 						return THROWERROR( RET_OBTAINING_WORKINGSET_FAILED );
-- 
2.43.0


From c62da306e085b4dbfc8ae16b9b6196535d2fd66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:36 +0000
Subject: [PATCH 31/66] fix: QProblemB updates its factorisation when a guessed
 working set is used at hotstart

---
 src/QProblemB.cpp | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index c7fb66e..2e094a4 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3716,17 +3716,6 @@ returnValue QProblemB::addBound(	int_t number, SubjectToStatus B_status,
 		return THROWERROR( RET_UNKNOWN_BUG );
 	}
 
-	/* Perform cholesky updates only if QProblemB has been initialised! */
-	if ( getStatus( ) == QPS_PREPARINGAUXILIARYQP )
-	{
-		/* UPDATE INDICES */
-		if ( bounds.moveFreeToFixed( number,B_status ) != SUCCESSFUL_RETURN )
-			return THROWERROR( RET_ADDBOUND_FAILED );
-
-		return SUCCESSFUL_RETURN;
-	}
-
-
 	/* I) PERFORM CHOLESKY UPDATE: */
 	if ( ( updateCholesky == BT_TRUE ) &&
 		 ( hessianType != HST_ZERO )   && ( hessianType != HST_IDENTITY ) )
@@ -3795,11 +3784,6 @@ returnValue QProblemB::removeBound(	int_t number,
 	if ( bounds.moveFixedToFree( number ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_REMOVEBOUND_FAILED );
 
-	/* Perform cholesky updates only if QProblemB has been initialised! */
-	if ( getStatus( ) == QPS_PREPARINGAUXILIARYQP )
-		return SUCCESSFUL_RETURN;
-
-
 	/* II) PERFORM CHOLESKY UPDATE */
 	if ( ( updateCholesky == BT_TRUE ) &&
 		 ( hessianType != HST_ZERO )   && ( hessianType != HST_IDENTITY ) )
-- 
2.43.0


From 6c6441332832b21c421d96c0119f8ebab126b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:26 +0000
Subject: [PATCH 32/66] fix: hotstarts without far bounds discard limits left
 halfway to infinity

---
 src/QProblem.cpp  | 11 +++++++----
 src/QProblemB.cpp |  7 +++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 0e83546..fcc26d6 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2752,6 +2752,9 @@ returnValue QProblem::adaptInfiniteLimits(	const real_t* const lb_new, const rea
 	int_t nV = getNV( );
 	int_t nC = getNC( );
 
+	/* a premature termination may have left a limit halfway to infinity */
+	real_t huge = getSqrt( INFTY );
+
 	for ( i=0; i<nV; ++i )
 	{
 		/* equalities are left unchanged */
@@ -2762,7 +2765,7 @@ returnValue QProblem::adaptInfiniteLimits(	const real_t* const lb_new, const rea
 		{
 			if ( ( lb_new == 0 ) || ( lb_new[i] <= -INFTY ) )
 				lb[i] = -INFTY;
-			else if ( lb[i] <= -INFTY )
+			else if ( lb[i] <= -huge )
 				lb[i] = getMin( lb_new[i],x[i]-options.boundRelaxation );
 		}
 
@@ -2770,7 +2773,7 @@ returnValue QProblem::adaptInfiniteLimits(	const real_t* const lb_new, const rea
 		{
 			if ( ( ub_new == 0 ) || ( ub_new[i] >= INFTY ) )
 				ub[i] = INFTY;
-			else if ( ub[i] >= INFTY )
+			else if ( ub[i] >= huge )
 				ub[i] = getMax( ub_new[i],x[i]+options.boundRelaxation );
 		}
 	}
@@ -2785,7 +2788,7 @@ returnValue QProblem::adaptInfiniteLimits(	const real_t* const lb_new, const rea
 		{
 			if ( ( lbA_new == 0 ) || ( lbA_new[i] <= -INFTY ) )
 				lbA[i] = -INFTY;
-			else if ( lbA[i] <= -INFTY )
+			else if ( lbA[i] <= -huge )
 				lbA[i] = getMin( lbA_new[i],Ax[i]-options.boundRelaxation );
 		}
 
@@ -2793,7 +2796,7 @@ returnValue QProblem::adaptInfiniteLimits(	const real_t* const lb_new, const rea
 		{
 			if ( ( ubA_new == 0 ) || ( ubA_new[i] >= INFTY ) )
 				ubA[i] = INFTY;
-			else if ( ubA[i] >= INFTY )
+			else if ( ubA[i] >= huge )
 				ubA[i] = getMax( ubA_new[i],Ax[i]+options.boundRelaxation );
 		}
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 2e094a4..e45d0df 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3033,6 +3033,9 @@ returnValue QProblemB::adaptInfiniteLimits(	const real_t* const lb_new, const re
 	int_t i;
 	int_t nV = getNV( );
 
+	/* a premature termination may have left a limit halfway to infinity */
+	real_t huge = getSqrt( INFTY );
+
 	for ( i=0; i<nV; ++i )
 	{
 		/* equalities are left unchanged */
@@ -3043,7 +3046,7 @@ returnValue QProblemB::adaptInfiniteLimits(	const real_t* const lb_new, const re
 		{
 			if ( ( lb_new == 0 ) || ( lb_new[i] <= -INFTY ) )
 				lb[i] = -INFTY;
-			else if ( lb[i] <= -INFTY )
+			else if ( lb[i] <= -huge )
 				lb[i] = getMin( lb_new[i],x[i]-options.boundRelaxation );
 		}
 
@@ -3051,7 +3054,7 @@ returnValue QProblemB::adaptInfiniteLimits(	const real_t* const lb_new, const re
 		{
 			if ( ( ub_new == 0 ) || ( ub_new[i] >= INFTY ) )
 				ub[i] = INFTY;
-			else if ( ub[i] >= INFTY )
+			else if ( ub[i] >= huge )
 				ub[i] = getMax( ub_new[i],x[i]+options.boundRelaxation );
 		}
 	}
-- 
2.43.0


From 4c339df4609ece82860cceef3496a26114996c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:16 +0000
Subject: [PATCH 33/66] fix: QProblemB continues the homotopy if rounding left
 a remainder (as QProblem does)

---
 src/QProblemB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index e45d0df..925ebb7 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3580,7 +3580,7 @@ returnValue QProblemB::changeActiveSet( int_t BC_idx, SubjectToStatus BC_status
 	{
 		/* Optimal solution found as no working set change detected. */
 		case ST_UNDEFINED:
-			return RET_OPTIMAL_SOLUTION_FOUND;
+			return SUCCESSFUL_RETURN;
 
 
 		/* Remove one variable from active set. */
-- 
2.43.0


From b37b1b0fa97b42deadeb9742d482b9f650ae8005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 34/66] fix: hotstarts with far bounds do not start from
 infinite limits

---
 src/QProblem.cpp  | 3 +++
 src/QProblemB.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index fcc26d6..0c299b3 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -568,6 +568,9 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 							lbA_new,lbA_new_far, ubA_new,ubA_new_far
 							);
 
+		/* far bounds may have been disabled or larger before */
+		adaptInfiniteLimits( lb_new_far,ub_new_far,lbA_new_far,ubA_new_far );
+
 		for ( ;; )
 		{
 			nWSR = nWSR_max;
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 925ebb7..33d33db 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -521,6 +521,9 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 							lb_new,lb_new_far, ub_new,ub_new_far
 							);
 
+		/* far bounds may have been disabled or larger before */
+		adaptInfiniteLimits( lb_new_far,ub_new_far );
+
 		for ( ;; )
 		{
 			nWSR = nWSR_max;
-- 
2.43.0


From f1a992cc3c53d8694fc0ebd529f55e4d68fe296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 35/66] fix: no solution is reported with a limit at infinity
 active

---
 src/QProblem.cpp  | 22 +++++++++++++++++++++-
 src/QProblemB.cpp | 22 +++++++++++++++++++++-
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 0c299b3..db5dbfa 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -531,6 +531,9 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 
 	if ( options.enableFarBounds == BT_FALSE )
 	{
+		/* do not start from an iterate left at infinity */
+		discardFarIterate( options.initialFarBounds );
+
 		adaptInfiniteLimits( lb_new,ub_new,lbA_new,ubA_new );
 
 		/* Automatically call standard solveQP if regularisation is not active. */
@@ -1800,7 +1803,24 @@ returnValue QProblem::solveRegularisedQP(	const real_t* const g_new,
 
 	/* Perform normal QP solution if QP has not been regularised. */
 	if ( usingRegularisation( ) == BT_FALSE )
-		return solveQP( g_new,lb_new,ub_new,lbA_new,ubA_new, nWSR,cputime,nWSRperformed,isFirstCall );
+	{
+		returnValue result = solveQP( g_new,lb_new,ub_new,lbA_new,ubA_new, nWSR,cputime,nWSRperformed,isFirstCall );
+
+		/* A limit at infinity cannot be active. */
+		for( i=0; i<nV; ++i )
+		{
+			if ( ( result == SUCCESSFUL_RETURN ) && ( getAbs( x[i] ) >= 0.1*INFTY ) )
+			{
+				infeasible = BT_FALSE;
+				unbounded = BT_TRUE;
+				status = QPS_HOMOTOPYQPSOLVED;
+
+				return RET_HOTSTART_STOPPED_UNBOUNDEDNESS;
+			}
+		}
+
+		return result;
+	}
 
 
 	/* I) SOLVE USUAL REGULARISED QP */
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 33d33db..9627dbb 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -493,6 +493,9 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 
 	if ( options.enableFarBounds == BT_FALSE )
 	{
+		/* do not start from an iterate left at infinity */
+		discardFarIterate( options.initialFarBounds );
+
 		adaptInfiniteLimits( lb_new,ub_new );
 
 		/* Automatically call standard solveQP if regularisation is not active. */
@@ -2812,7 +2815,24 @@ returnValue QProblemB::solveRegularisedQP(	const real_t* const g_new,
 
 	/* Perform normal QP solution if QP has not been regularised. */
 	if ( usingRegularisation( ) == BT_FALSE )
-		return solveQP( g_new,lb_new,ub_new, nWSR,cputime,nWSRperformed,isFirstCall );
+	{
+		returnValue result = solveQP( g_new,lb_new,ub_new, nWSR,cputime,nWSRperformed,isFirstCall );
+
+		/* A limit at infinity cannot be active. */
+		for( i=0; i<nV; ++i )
+		{
+			if ( ( result == SUCCESSFUL_RETURN ) && ( getAbs( x[i] ) >= 0.1*INFTY ) )
+			{
+				infeasible = BT_FALSE;
+				unbounded = BT_TRUE;
+				status = QPS_HOMOTOPYQPSOLVED;
+
+				return RET_HOTSTART_STOPPED_UNBOUNDEDNESS;
+			}
+		}
+
+		return result;
+	}
 
 
 	/* I) SOLVE USUAL REGULARISED QP */
-- 
2.43.0


From 1cc30c9a9e07da5724fe0dac728c0962a59433a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 36/66] fix: hotstarts reset the infeasibility and
 unboundedness flags first

---
 src/QProblem.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index db5dbfa..e906e65 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1539,6 +1539,9 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 		starttime = getCPUtime( );
 
 	/* AW: Remove bounds if they were active before but are now infinity */
+	infeasible = BT_FALSE;
+	unbounded  = BT_FALSE;
+
 	QProblemStatus oldStatus = status;
 	status = QPS_PERFORMINGHOMOTOPY; // AW TODO: Not sure if this is too early, but otherwise removeBounds will complain
 	returnvalue = updateActivitiesForHotstart( lb_new, ub_new, lbA_new, ubA_new );
-- 
2.43.0


From 0306e1150543d20daac9bab876292d60e9be5c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 37/66] fix: QProblemB can print debug iterations without
 Hessian matrix

---
 src/QProblemB.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 9627dbb..f3eebc5 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3945,7 +3945,24 @@ returnValue QProblemB::printIteration( 	int_t iter,
 
 			/* stationarity */
 			for (i = 0; i < nV; i++) grad[i] = g[i] - y[i];
-			H->times(1, 1.0, x, nV, 1.0, grad, nV);
+
+			switch ( hessianType )
+			{
+				case HST_ZERO:
+					for( i=0; i<nV; ++i )
+						grad[i] += regVal * x[i];
+					break;
+
+				case HST_IDENTITY:
+					for( i=0; i<nV; ++i )
+						grad[i] += 1.0 * x[i];
+					break;
+
+				default:
+					H->times(1, 1.0, x, nV, 1.0, grad, nV);
+					break;
+			}
+
 			for (i = 0; i < nV; i++) if (getAbs(grad[i]) > stat) stat = getAbs(grad[i]);
 
 			/* feasibility */
-- 
2.43.0


From 628a92b3292e5a1661b51874f8bfff670dea0c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 38/66] fix: no flipping of limits while the regularised
 Hessian is positive definite (cycling)

---
 src/QProblem.cpp  | 4 ++--
 src/QProblemB.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index e906e65..cbf77ec 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -4206,7 +4206,7 @@ returnValue QProblem::removeConstraint(	int_t number,
 
 		if ( ( options.enableFlippingBounds == BT_TRUE ) && ( allowFlipping == BT_TRUE ) && ( exchangeHappened == BT_FALSE ) )
 		{
-			if ( rho2 > options.epsFlipping )
+			if ( rho2 > ( ( usingRegularisation( ) == BT_TRUE ) ? getMin( options.epsFlipping,0.5*regVal ) : options.epsFlipping ) )
 				RR(nZ,nZ) = getSqrt( rho2 );
 			else
 			{
@@ -4457,7 +4457,7 @@ returnValue QProblem::removeBound(	int_t number,
 		/* 5) Store rho into R. */
 		if ( ( options.enableFlippingBounds == BT_TRUE ) && ( allowFlipping == BT_TRUE ) && ( exchangeHappened == BT_FALSE ) )
 		{
-			if ( rho2 > options.epsFlipping )
+			if ( rho2 > ( ( usingRegularisation( ) == BT_TRUE ) ? getMin( options.epsFlipping,0.5*regVal ) : options.epsFlipping ) )
 				RR(nZ,nZ) = getSqrt( rho2 );
 			else
 			{
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index f3eebc5..8737fbd 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3860,7 +3860,7 @@ returnValue QProblemB::removeBound(	int_t number,
 
 		if ( options.enableFlippingBounds == BT_TRUE )
 		{
-			if ( r0 > options.epsFlipping )
+			if ( r0 > ( ( usingRegularisation( ) == BT_TRUE ) ? getMin( options.epsFlipping,0.5*regVal ) : options.epsFlipping ) )
 				RR(nFR,nFR) = getSqrt( r0 );
 			else
 			{
-- 
2.43.0


From a1b376dc98aa66c30d236a03a4e9675d02dd8f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 39/66] fix: former equalities with a multiplier of either sign
 at hotstarts (wrong solution)

---
 src/QProblem.cpp  | 12 ++++++++++++
 src/QProblemB.cpp | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index cbf77ec..8a79d33 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1943,6 +1943,18 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 	BooleanType noLower, noUpper, AxOutdated = BT_FALSE;
 	SubjectToType oldType;
 
+	/* the multiplier of a former equality may have any sign */
+	for ( i=0; i<nV; i++ )
+	{
+		if ( bounds.getType(i) == ST_EQUALITY )
+		{
+			if ( ( bounds.getStatus(i) == ST_LOWER ) && ( y[i] < 0.0 ) )
+				bounds.setStatus( i,ST_UPPER );
+			else if ( ( bounds.getStatus(i) == ST_UPPER ) && ( y[i] > 0.0 ) )
+				bounds.setStatus( i,ST_LOWER );
+		}
+	}
+
 	if ( QProblemB::setupSubjectToType( lb_new,ub_new ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_SETUPSUBJECTTOTYPE_FAILED );
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 8737fbd..d087bb7 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2597,6 +2597,18 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 
 	/* 2) Update type of bounds, e.g. a formerly implicitly fixed
 	 *    variable might have become a normal one etc. */
+	for( iter=0; iter<nV; ++iter )
+	{
+		/* the multiplier of a former equality may have any sign */
+		if ( bounds.getType( iter ) == ST_EQUALITY )
+		{
+			if ( ( bounds.getStatus( iter ) == ST_LOWER ) && ( y[iter] < 0.0 ) )
+				bounds.setStatus( iter,ST_UPPER );
+			else if ( ( bounds.getStatus( iter ) == ST_UPPER ) && ( y[iter] > 0.0 ) )
+				bounds.setStatus( iter,ST_LOWER );
+		}
+	}
+
 	if ( setupSubjectToType( lb_new,ub_new ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_HOTSTART_FAILED );
 
-- 
2.43.0


From 1f0750c06149fed50f8c7da22e99bb051b6bf903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 40/66] fix: no endless recursion when a message is printed
 without output file

---
 src/Utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 728c893..84067e0 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -237,8 +237,9 @@ returnValue myPrintf( const char* s )
 				sciprint( s );
 			#else
 				FILE* outputfile = getGlobalMessageHandler( )->getOutputFile( );
+				/* throwing an error would print a message and thus end up here again */
 				if ( outputfile == 0 )
-					return THROWERROR( RET_NO_GLOBAL_MESSAGE_OUTPUTFILE );
+					return RET_NO_GLOBAL_MESSAGE_OUTPUTFILE;
 				fprintf( outputfile, "%s", s );
 			#endif /* __SCILAB__ */
 		#endif /* __MATLAB__ */
-- 
2.43.0


From 9dbc78aa48515424edd91e4733479d09259cbfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 41/66] fix: initial far bounds strictly exceed the bound
 relaxation after ensureConsistency

---
 src/Options.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index 2b3a362..65a5eb2 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -310,7 +310,8 @@ returnValue Options::ensureConsistency( )
 
 	if ( initialFarBounds <= boundRelaxation )
 	{
-		initialFarBounds = boundRelaxation+EPS;
+		/* adding EPS only is lost in rounding unless boundRelaxation is small */
+		initialFarBounds = getMax( boundRelaxation+EPS,boundRelaxation*(1.0+EPS) );
 		needToAdjust = BT_TRUE;
 	}
 
-- 
2.43.0


From 932289aed998f1ffdd64b273f4f1b34384639a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 42/66] fix: products with uncompressed storage of y scale the
 entries they write (wrong results for beta not 0)

---
 src/Matrices.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index a6dea89..5d96167 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -424,7 +424,7 @@ returnValue DenseMatrix::times(	const Indexlist* const irows, const Indexlist* c
 		else if ( isEqual(beta,-1.0) == BT_TRUE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = -y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = -y[irows->number[j]+k*yLD];
 		else if ( isEqual(beta,1.0) == BT_FALSE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
@@ -1262,15 +1262,15 @@ returnValue SparseMatrix::times( const Indexlist* const irows, const Indexlist*
 		else if (isEqual( beta, 1.0 ) == BT_TRUE)
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+y[j+k*yLD];
+					y[irows->number[j]+k*yLD] += alpha*ytmp[irows->number[j]+k*yfullLength];
 		else if (isEqual( beta, -1.0 ) == BT_TRUE)
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]-y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]-y[irows->number[j]+k*yLD];
 		else if (isEqual( beta, 1.0 ) == BT_FALSE)
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+beta*y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+beta*y[irows->number[j]+k*yLD];
 	}
 
 	delete [] ytmp;
@@ -1867,7 +1867,7 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 		else if ( isEqual(beta,-1.0) == BT_TRUE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = -y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = -y[irows->number[j]+k*yLD];
 		else if ( isEqual(beta,1.0) == BT_FALSE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-- 
2.43.0


From 6ab5fc5ea5a4a7a1620c89955888f69bda95c4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 43/66] fix: one-norms of all rows of a sparse matrix (wrong
 results, read beyond the arrays)

---
 src/Matrices.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 5d96167..691caa7 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -838,9 +838,7 @@ returnValue SparseMatrix::getRowNorm( real_t* norm, int_t type ) const
 			break;
 		case 1:
 			for ( j=0; j < nCols; ++j ) {
-				// FIXME please add guarding or fix indent for "for loop" to
-				//       remove compile warnings
-				for (i = jc[j]; i < jc[j+1]; i++);
+				for (i = jc[j]; i < jc[j+1]; i++)
 				  norm[ir[i]] += getAbs( val[i] );
 			}
 			break;
-- 
2.43.0


From 1dcac4e771d569a5321db5ad46eac1a92029e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 44/66] fix: full rows and columns of sparse matrices without
 index list (null dereference)

---
 src/Matrices.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 691caa7..a1366cb 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -886,13 +886,13 @@ returnValue SparseMatrix::getRow( int_t rNum, const Indexlist* const icols, real
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? val[i] : 0.0;
 			}
 		else if ( isEqual(alpha,-1.0) == BT_TRUE )
-			for (j = 0; j < icols->length; j++)
+			for (j = 0; j < nCols; j++)
 			{
 				for (i = jc[j]; i < jc[j+1] && ir[i] < rNum; i++);
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? -val[i] : 0.0;
 			}
 		else
-			for (j = 0; j < icols->length; j++)
+			for (j = 0; j < nCols; j++)
 			{
 				for (i = jc[j]; i < jc[j+1] && ir[i] < rNum; i++);
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? alpha*val[i] : 0.0;
@@ -1646,19 +1646,19 @@ returnValue SparseMatrixRow::getCol( int_t cNum, const Indexlist* const irows, r
 	else
 	{
 		if ( isEqual(alpha,1.0) == BT_TRUE )
-			for (j = 0; j < nCols; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? val[i] : 0.0;
 			}
 		else if ( isEqual(alpha,-1.0) == BT_TRUE )
-			for (j = 0; j < irows->length; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? -val[i] : 0.0;
 			}
 		else
-			for (j = 0; j < irows->length; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? alpha*val[i] : 0.0;
-- 
2.43.0


From 5d2f49364c9c44bc8185033247692db3370ddb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 45/66] fix: sparse product of all columns with several vectors
 (use after free)

---
 src/Matrices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index a1366cb..8932976 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1227,8 +1227,8 @@ returnValue SparseMatrix::times( const Indexlist* const irows, const Indexlist*
 					for (i = jc[col]; i < jc[col+1]; i++)
 						for (k=0; k<xN; k++)
 							ytmp[k*yfullLength+ir[i]] += val[i] * xcols[k];
-				delete [] xcols;
 			}
+			delete [] xcols;
 		}
 	}
 
-- 
2.43.0


From 16ea1a88734746ede964e735940ef03a53edda5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 46/66] fix: duplicates of row-compressed matrices (heap
 overflow, incomplete column indices)

---
 src/Matrices.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 8932976..24a3c15 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1474,14 +1474,14 @@ Matrix *SparseMatrixRow::duplicate( ) const
 	dupl->ic = new sparse_int_t[length];
 	dupl->val = new real_t[length];
 
-	for (i = 0; i < length; i++) dupl->jr[i] = jr[i];
-	for (i = 0; i <= nCols; i++) dupl->ic[i] = ic[i];
+	for (i = 0; i <= nRows; i++) dupl->jr[i] = jr[i];
+	for (i = 0; i < length; i++) dupl->ic[i] = ic[i];
 	for (i = 0; i < length; i++) dupl->val[i] = val[i];
 
 	if ( jd != 0 )
 	{
 		dupl->jd = new sparse_int_t[nRows];
-		for (i = 0; i < nCols; i++) dupl->jd[i] = jd[i];
+		for (i = 0; i < nRows; i++) dupl->jd[i] = jd[i];
 	}
 	else
 		dupl->jd = 0;
-- 
2.43.0


From 90cf992352b948ccab9b70d8cc34fdc8b9da673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 47/66] fix: row-compressed submatrix products with
 uncompressed storage of y

---
 src/Matrices.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 24a3c15..bb321cf 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1900,10 +1900,10 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 			if ( isEqual(alpha,1.0) == BT_TRUE )
 				for (l = 0; l < irows->length; l++)
 				{
-					row = irows->iSort[l];
-					j = jr[irows->number[row]];
+					row = irows->number[irows->iSort[l]];
+					j = jr[row];
 					i = 0;
-					while (j < jr[irows->number[row]+1] && i < icols->length)
+					while (j < jr[row+1] && i < icols->length)
 						if (ic[j] == icols->number[icols->iSort[i]])
 						{
 							for (k = 0; k < xN; k++)
@@ -1916,10 +1916,10 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 			else if ( isEqual(alpha,-1.0) == BT_TRUE )
 				for (l = 0; l < irows->length; l++)
 				{
-					row = irows->iSort[l];
-					j = jr[irows->number[row]];
+					row = irows->number[irows->iSort[l]];
+					j = jr[row];
 					i = 0;
-					while (j < jr[irows->number[row]+1] && i < icols->length)
+					while (j < jr[row+1] && i < icols->length)
 						if (ic[j] == icols->number[icols->iSort[i]])
 						{
 							for (k = 0; k < xN; k++)
@@ -1932,10 +1932,10 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 			else
 				for (l = 0; l < irows->length; l++)
 				{
-					row = irows->iSort[l];
-					j = jr[irows->number[row]];
+					row = irows->number[irows->iSort[l]];
+					j = jr[row];
 					i = 0;
-					while (j < jr[irows->number[row]+1] && i < icols->length)
+					while (j < jr[row+1] && i < icols->length)
 						if (ic[j] == icols->number[icols->iSort[i]])
 						{
 							for (k = 0; k < xN; k++)
-- 
2.43.0


From 92bebc537ac2b686684db4e8ac1e37d3d037710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 48/66] fix: memory leak when sparse submatrices are requested
 with invalid arguments

---
 src/Matrices.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index bb321cf..030afe6 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -962,7 +962,10 @@ returnValue SparseMatrix::getSparseSubmatrix(	int_t irowsLength, const int_t* co
 		if (irn == 0)
 		{
 			if (jcn != 0 || avals != 0)
+			{
+				delete [] rowNumberInv;
 				return THROWERROR( RET_INVALID_ARGUMENTS );
+			}
 			for (k = 0; k < icolsLength; k++)
 			{
 				j = icolsNumber[k];
@@ -998,7 +1001,10 @@ returnValue SparseMatrix::getSparseSubmatrix(	int_t irowsLength, const int_t* co
 		if (irn == 0)
 		{
 			if (jcn != 0 || avals != 0)
+			{
+				delete [] rowNumberInv;
 				return THROWERROR( RET_INVALID_ARGUMENTS );
+			}
 			for (k = 0; k < icolsLength; k++)
 			{
 				j = icolsNumber[k];
-- 
2.43.0


From e03cac7449f8325268865da81e21a29c06ac7a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 49/66] fix: sparse bilinear forms respect the leading
 dimension of the result

---
 src/Matrices.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 030afe6..e2e26d4 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -2146,8 +2146,9 @@ returnValue SymSparseMat::bilinear( const Indexlist* const icols,
 		return THROWERROR( RET_DIAGONAL_NOT_INITIALISED );
 
 	/* clear output */
-	for (i = 0; i < xN*xN; i++)
-		y[i] = 0.0;
+	for (i = 0; i < xN; i++)
+		for (j = 0; j < xN; j++)
+			y[i*yLD+j] = 0.0;
 
 	/* compute lower triangle */
 	for (l = 0; l < icols->length; l++)
-- 
2.43.0


From eff99e6f8685eb33a4b644543c87ddd9df277461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 50/66] fix: products, norms and printing of dense matrices
 respect their leading dimension

---
 src/Matrices.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index e2e26d4..b2ca670 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -148,7 +148,12 @@ BooleanType DenseMatrix::isDiag( ) const
 real_t DenseMatrix::getNorm(	int_t type
 								) const
 {
-	return REFER_NAMESPACE_QPOASES getNorm( val,nCols*nRows,type );
+	/* rows need not be stored contiguously */
+	real_t* tmp = this->full();
+	real_t norm = REFER_NAMESPACE_QPOASES getNorm( tmp,nCols*nRows,type );
+	delete[] tmp;
+
+	return norm;
 }
 
 
@@ -299,7 +304,7 @@ returnValue DenseMatrix::times(	int_t xN, real_t alpha, const real_t* x, int_t x
 	la_uint_t _xN     = (la_uint_t)xN;
 	la_uint_t _nRows  = (la_uint_t)nRows;
 	la_uint_t _nCols  = (la_uint_t)nCols;
-	la_uint_t _leaDim = (la_uint_t)getMax(1,nCols);
+	la_uint_t _leaDim = (la_uint_t)getMax(1,leaDim);
 	la_uint_t _xLD    = (la_uint_t)getMax(1,xLD);
 	la_uint_t _yLD    = (la_uint_t)getMax(1,yLD);
 
@@ -313,7 +318,7 @@ returnValue DenseMatrix::transTimes( int_t xN, real_t alpha, const real_t* x, in
 	la_uint_t _xN     = (la_uint_t)xN;
 	la_uint_t _nRows  = (la_uint_t)nRows;
 	la_uint_t _nCols  = (la_uint_t)nCols;
-	la_uint_t _leaDim = (la_uint_t)getMax(1,nCols);
+	la_uint_t _leaDim = (la_uint_t)getMax(1,leaDim);
 	la_uint_t _xLD    = (la_uint_t)getMax(1,xLD);
 	la_uint_t _yLD    = (la_uint_t)getMax(1,yLD);
 
@@ -590,7 +595,11 @@ real_t* DenseMatrix::full() const
 
 returnValue DenseMatrix::print( const char* name ) const
 {
-	return REFER_NAMESPACE_QPOASES print( val,nRows,nCols,name );
+	real_t* tmp = this->full();
+	returnValue retVal = REFER_NAMESPACE_QPOASES print( tmp,nRows,nCols,name );
+	delete[] tmp;
+
+	return retVal;
 }
 
 
-- 
2.43.0


From 56fefb44fba564d8b244e158b08b50136ec549d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 51/66] fix: matrix updates keep formerly active limits that do
 not exist any more (auxiliary QP could not be set up)

---
 src/SQProblem.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 0e85ebd..bede60e 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -475,6 +475,15 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
         if ( constraints.setupAllInactive( ) != SUCCESSFUL_RETURN )
             return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
+        /* Formerly active limits stay part of the auxiliary QP even if they do not exist any more. */
+        for (int_t ii = 0; ii < nV; ++ii)
+            if ( ( bounds.getType (ii) == ST_UNBOUNDED ) && ( oldBounds.getStatus (ii) != ST_INACTIVE ) )
+                bounds.setType (ii, ST_BOUNDED);
+
+        for (int_t ii = 0; ii < nC; ++ii)
+            if ( ( constraints.getType (ii) == ST_UNBOUNDED ) && ( oldConstraints.getStatus (ii) != ST_INACTIVE ) )
+                constraints.setType (ii, ST_BOUNDED);
+
         /* 2) Setup TQ factorisation. */
         if ( setupTQfactorisation( ) != SUCCESSFUL_RETURN )
             return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-- 
2.43.0


From 5e9e366502eff364ca5ec6b23a2e06f9ceb324d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 52/66] fix: matrix updates set up the gradient for the new
 working set (wrong solution reported as success)

---
 src/SQProblem.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index bede60e..7540031 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -433,10 +433,6 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 			return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
 	}
 
-	/* 3) Setup QP gradient. */
-	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
 
 	/* II) SETUP WORKING SETS AND MATRIX FACTORISATIONS: */
 	/* 1) Make a copy of current bounds/constraints ... */
@@ -523,6 +519,19 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
             break;
     }
 
+	/* III) SETUP QP GRADIENT: multipliers of limits that have not been added
+	 *      to the new working set (due to linear dependence) must vanish. */
+	for ( i=0; i<nV; ++i )
+		if ( bounds.getStatus( i ) == ST_INACTIVE )
+			y[i] = 0.0;
+
+	for ( i=0; i<nC; ++i )
+		if ( constraints.getStatus( i ) == ST_INACTIVE )
+			y[nV+i] = 0.0;
+
+	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
     /* adjust lb/ub if we changed the old active set in the second try
      */
     if (n_try > 0) {
-- 
2.43.0


From 0588ea58dc51960b35983381830aa16d51cea652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 53/66] fix: KKT violation of a missing problem is answered
 instead of dereferencing the null pointer

---
 src/SolutionAnalysis.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/SolutionAnalysis.cpp b/src/SolutionAnalysis.cpp
index 66d0fd1..063c5e9 100644
--- a/src/SolutionAnalysis.cpp
+++ b/src/SolutionAnalysis.cpp
@@ -95,11 +95,12 @@ real_t SolutionAnalysis::getKktViolation(	QProblemB* const qp,
 											) const
 {
 	int_t i;
-	int_t nV = qp->getNV();
 
 	if ( qp == 0 )
 		return INFTY;
 
+	int_t nV = qp->getNV();
+
 	/* setup Hessian matrix array (or pass NULL pointer) */
 	real_t* H_ptr = 0;
 	BooleanType hasIdentityHessian = BT_FALSE;
@@ -168,12 +169,13 @@ real_t SolutionAnalysis::getKktViolation(	QProblem* const qp,
 											) const
 {
 	int_t i;
-	int_t nV = qp->getNV();
-	int_t nC = qp->getNC();
 
 	if ( qp == 0 )
 		return INFTY;
 
+	int_t nV = qp->getNV();
+	int_t nC = qp->getNC();
+
 	/* setup Hessian matrix array (or pass NULL pointer) */
 	real_t* H_ptr = 0;
 	BooleanType hasIdentityHessian = BT_FALSE;
-- 
2.43.0


From faa2069504385b1711983724abd4c38eacb2d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 54/66] fix: C interface: the reliable option set is no longer
 overwritten by the MPC option set

---
 interfaces/c/qpOASES_wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/c/qpOASES_wrapper.cpp b/interfaces/c/qpOASES_wrapper.cpp
index 4b5e5b4..f532dd6 100644
--- a/interfaces/c/qpOASES_wrapper.cpp
+++ b/interfaces/c/qpOASES_wrapper.cpp
@@ -146,8 +146,9 @@ int_t qpOASES_Options_init(	qpOASES_Options* const options,
 			#else
 			options->numRefinementSteps            =  2;
 			#endif
+			break;
+
 
-			
 		case 2:
 			/* MPC */
 			options->enableRamping                 =  BT_FALSE;
-- 
2.43.0


From a914e28d07cdcbc52323822c262cebfb3b439856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 55/66] fix: C interface: Options init and copy cover every
 option (three were left uninitialised)

---
 interfaces/c/qpOASES_wrapper.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/interfaces/c/qpOASES_wrapper.cpp b/interfaces/c/qpOASES_wrapper.cpp
index f532dd6..305984e 100644
--- a/interfaces/c/qpOASES_wrapper.cpp
+++ b/interfaces/c/qpOASES_wrapper.cpp
@@ -123,10 +123,14 @@ int_t qpOASES_Options_init(	qpOASES_Options* const options,
 	options->epsNZCTests                   =  3.0e3 * EPS;
 	#endif
 
+	options->rcondSMin                     =  1.0e-14;
+	options->enableInertiaCorrection       =  BT_TRUE;
+
 	options->enableDropInfeasibles         =  BT_FALSE;
     options->dropBoundPriority             =  1;
     options->dropEqConPriority             =  1;
     options->dropIneqConPriority           =  1;
+	options->printResiduals                =  BT_FALSE;
 
 
 	switch ( mode )
@@ -222,6 +226,9 @@ int_t qpOASES_Options_copy(	const qpOASES_Options* const from,
 	to->epsLITests                    =  from->epsLITests;
 	to->epsNZCTests                   =  from->epsNZCTests;
 
+	to->rcondSMin                     =  from->rcondSMin;
+	to->enableInertiaCorrection       =  (BooleanType)(from->enableInertiaCorrection);
+
 	to->enableDropInfeasibles         =  (BooleanType)(from->enableDropInfeasibles);
     to->dropBoundPriority             =  from->dropBoundPriority;
     to->dropEqConPriority             =  from->dropEqConPriority;
-- 
2.43.0


From 7ff6f88bc44d6f8109f3ef12079053401c96492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 56/66] fix: reading OQP data releases its buffers, not the
 caller's pointers, and allows omitted constraint outputs

---
 src/OQPinterface.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/OQPinterface.cpp b/src/OQPinterface.cpp
index f63168a..c481d25 100644
--- a/src/OQPinterface.cpp
+++ b/src/OQPinterface.cpp
@@ -170,9 +170,9 @@ returnValue readOqpData(	const char* path,
 	}
 	else
 	{
-		*A = 0;
-		*lbA = 0;
-		*ubA = 0;
+		if ( A   != 0 ) *A   = 0;
+		if ( lbA != 0 ) *lbA = 0;
+		if ( ubA != 0 ) *ubA = 0;
 	}
 
 	if ( xOpt != 0 )
@@ -182,7 +182,7 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sx_opt.oqp",path );
 		if ( readFromFile( *xOpt,nQP,nV,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] xOpt;
+			delete[] *xOpt;
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
@@ -196,8 +196,8 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sy_opt.oqp",path );
 		if ( readFromFile( *yOpt,nQP,nV+nC,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] yOpt;
-			if ( xOpt != 0 ) { delete[] xOpt; };
+			delete[] *yOpt;
+			if ( xOpt != 0 ) { delete[] *xOpt; };
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
@@ -211,9 +211,9 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sobj_opt.oqp",path );
 		if ( readFromFile( *objOpt,nQP,1,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] objOpt;
-			if ( yOpt != 0 ) { delete[] yOpt; };
-			if ( xOpt != 0 ) { delete[] xOpt; };
+			delete[] *objOpt;
+			if ( yOpt != 0 ) { delete[] *yOpt; };
+			if ( xOpt != 0 ) { delete[] *xOpt; };
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
-- 
2.43.0


From f86d05838fb204f9f4e939ee53ed4dbcbd8761d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 57/66] fix: MAT files are written with the 4-byte header
 fields of the level 4 format

---
 include/qpOASES/Types.hpp | 10 +++++-----
 src/Utils.cpp             |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/qpOASES/Types.hpp b/include/qpOASES/Types.hpp
index d47e4d5..faa0128 100644
--- a/include/qpOASES/Types.hpp
+++ b/include/qpOASES/Types.hpp
@@ -327,11 +327,11 @@ struct TabularOutput {
  *	\date 2013-2017
  */
 typedef struct {
-	long numericFormat;		/**< Flag indicating numerical format. */
-	long nRows;				/**< Number of rows. */
-	long nCols;				/**< Number of rows. */
-	long imaginaryPart;		/**< (to be documented) */
-	long nCharName;			/**< Number of character in name. */
+	int numericFormat;		/**< Flag indicating numerical format. */
+	int nRows;				/**< Number of rows. */
+	int nCols;				/**< Number of rows. */
+	int imaginaryPart;		/**< (to be documented) */
+	int nCharName;			/**< Number of character in name. */
 } MatMatrixHeader;
 
 
diff --git a/src/Utils.cpp b/src/Utils.cpp
index 84067e0..034dba1 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -521,10 +521,10 @@ returnValue writeIntoMatFile(	FILE* const matFile,
 
 	// setup variable header
 	var.numericFormat = 0000;  /* IEEE Little Endian - reserved - double precision (64 bits) - numeric full matrix */
-	var.nRows         = nRows; /* number of rows */
-	var.nCols         = nCols; /* number of columns */
+	var.nRows         = (int)nRows; /* number of rows */
+	var.nCols         = (int)nCols; /* number of columns */
 	var.imaginaryPart = 0;     /* no imaginary part */
-	var.nCharName     = (long)(strlen(name))+1; /* matrix name length */
+	var.nCharName     = (int)(strlen(name))+1; /* matrix name length */
 
 	/* write variable header to mat file */
 	if ( fwrite( &var, sizeof(MatMatrixHeader),1,  matFile ) < 1 )
-- 
2.43.0


From 4a4d07ec09239c033450633087f219fc61fb9e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 58/66] fix: writing QP data into a MAT file copes with Hessian
 or constraint matrices that are not stored

---
 src/QProblem.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 8a79d33..7ca58b5 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -6674,15 +6674,31 @@ returnValue QProblem::writeQpDataIntoMatFile(	const char* const filename
 	int_t nV = getNV();
 	int_t nC = getNC();
 
-	real_t* Hfull = H->full();
+	int_t i;
+	real_t* Hfull;
+	if ( H != 0 )
+		Hfull = H->full();
+	else
+	{
+		/* identity or zero Hessian matrix that is not stored explicitly */
+		Hfull = new real_t[nV*nV];
+		for( i=0; i<nV*nV; ++i )
+			Hfull[i] = 0.0;
+		if ( hessianType == HST_IDENTITY )
+			for( i=0; i<nV; ++i )
+				Hfull[i*nV+i] = 1.0;
+	}
 	writeIntoMatFile( matFile, Hfull, nV,nV, "H"   );
 	delete[] Hfull;
 
 	writeIntoMatFile( matFile, g,     nV,1,  "g"   );
 
-	real_t* Afull = A->full();
-	writeIntoMatFile( matFile, Afull, nC,nV, "A"   );
-	delete[] Afull;
+	if ( A != 0 )
+	{
+		real_t* Afull = A->full();
+		writeIntoMatFile( matFile, Afull, nC,nV, "A"   );
+		delete[] Afull;
+	}
 
 	writeIntoMatFile( matFile, lb,    nV,1,  "lb"  );
 	writeIntoMatFile( matFile, ub,    nV,1,  "ub"  );
-- 
2.43.0


From e4aefc2776df6131e610380ef647df0ecef74172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 59/66] fix: writing integer data into a MAT file rejects
 invalid arguments like the real-valued variant

---
 src/Utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 034dba1..aa8092f 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -561,6 +561,9 @@ returnValue writeIntoMatFile(	FILE* const matFile,
 								const int_t* const data, int_t nRows, int_t nCols, const char* name
 								)
 {
+	if ( ( data == 0 ) || ( nRows < 0 ) || ( nCols < 0 ) )
+		return RET_INVALID_ARGUMENTS;
+
 	real_t* realData = new real_t[nRows*nCols];
 
 	int_t ii, jj;
-- 
2.43.0


From 1c48cd42aaf24f6ee98d051824b98f987236fb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 60/66] fix: free the index array when the inertia correction
 returns early

---
 src/SQProblemSchur.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 5ffca3d..82d7e8a 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -3432,7 +3432,7 @@ returnValue SQProblemSchur::correctInertia( )
 	real_t oldDetS;
 	int_t nFR = getNFR( );
 	int_t k, number, neig, nAdded;
-	int_t *freeBoundIdx = new int_t[nFR];
+	int_t *freeBoundIdx;
 	int_t *numberarray;
 
 	/* method may only be called after refactorization or if one bound/constraint
@@ -3451,6 +3451,7 @@ returnValue SQProblemSchur::correctInertia( )
 
 	/* get bound numbers in the order in which they are in the non-basis */
 	bounds.getFree()->getNumberArray( &numberarray );
+	freeBoundIdx = new int_t[nFR];
 	for( k=0; k<nFR; k++ )
 		freeBoundIdx[k] = numberarray[k];
 
@@ -3475,6 +3476,7 @@ returnValue SQProblemSchur::correctInertia( )
 			{
 				if ( options.printLevel == PL_HIGH )
 					MyPrintf("In correctInertia: Adding bound[%i] = %i failed!\n", k, number );
+				delete[] freeBoundIdx;
 				return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
 			}
 
-- 
2.43.0


From 0f14d02188f02b01d416f1760a4852a614eafe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 61/66] fix: restore working set and factorisation after
 checking the curvature (SQProblemSchur gave wrong solutions afterwards)

---
 src/SolutionAnalysis.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/SolutionAnalysis.cpp b/src/SolutionAnalysis.cpp
index 063c5e9..96a918e 100644
--- a/src/SolutionAnalysis.cpp
+++ b/src/SolutionAnalysis.cpp
@@ -538,6 +538,7 @@ returnValue SolutionAnalysis::checkCurvatureOnStronglyActiveConstraints( SQProbl
   real_t eps = 1.0e-16;
   returnValue ret;
   Bounds saveBounds;
+  Constraints saveConstraints;
   QProblemStatus saveStatus;
   int_t k, neig, nAC, nFX, *FX_idx;
 
@@ -548,8 +549,9 @@ returnValue SolutionAnalysis::checkCurvatureOnStronglyActiveConstraints( SQProbl
   if( nFX == 0 )
     return SUCCESSFUL_RETURN;
 
-  // Get active bounds (deep copy)
+  // Get working set (deep copy)
   qp->getBounds( saveBounds );
+  qp->getConstraints( saveConstraints );
   saveBounds.getFixed( )->getNumberArray( &FX_idx );
 
   // We have to change the status to modify the active set
@@ -568,10 +570,11 @@ returnValue SolutionAnalysis::checkCurvatureOnStronglyActiveConstraints( SQProbl
   if( ret == SUCCESSFUL_RETURN && neig != nAC )
     ret = RET_INERTIA_CORRECTION_FAILED;
 
-  // Add all bounds that have been removed
-  for( k=0; k<nFX; k++ )
-    if( qp->bounds.getStatus( FX_idx[k] ) == ST_INACTIVE )
-      qp->bounds.moveFreeToFixed( FX_idx[k], saveBounds.getStatus( FX_idx[k] ) );
+  // Restore the original working set together with its factorization
+  qp->bounds = saveBounds;
+  qp->constraints = saveConstraints;
+  if( qp->resetSchurComplement( BT_FALSE ) != SUCCESSFUL_RETURN && ret == SUCCESSFUL_RETURN )
+    ret = RET_RESET_FAILED;
 
   qp->status = saveStatus;
   return ret;
-- 
2.43.0


From 8a98ec8206731044da133afcd3ba1b7bb51bb118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 62/66] fix: Remove active constraints before using the
 shortcut for working sets consisting of all bounds

Hotstarting with a guess fixing all variables skipped the removal of active
constraints if the factorisations were to be updated only: the working set
became linearly dependent and memory in front of the arrays was accessed.
---
 src/QProblem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 7ca58b5..2d4d267 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2581,7 +2581,8 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 			break;
 		}
 
-	if (WSisTrivial == BT_TRUE)
+	// (constraints still being active need to be removed first)
+	if ((WSisTrivial == BT_TRUE) && (getNAC( ) == 0))
 	{
 		for (i = 0; i < nV; i++)
 			if (bounds.getStatus(i) == ST_INACTIVE)
-- 
2.43.0


From 1b4fa15948dbf33f25f10dcb675e22b7dafb480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:06 +0000
Subject: [PATCH 63/66] fix: Do not use an external Cholesky factor if the
 initial working set contains bounds or constraints (wrong solution reported
 as optimal)

---
 src/QProblem.cpp  | 2 +-
 src/QProblemB.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 2d4d267..0da7404 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1409,7 +1409,7 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 
 	if ( _R != 0 )
 	{
-		if ( options.initialStatusBounds != ST_INACTIVE )
+		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( getNFX( ) > 0 ) || ( getNAC( ) > 0 ) )
 		{
 			THROWWARNING( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 		}
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index d087bb7..990b668 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2461,7 +2461,7 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 
 	if ( _R != 0 )
 	{
-		if ( options.initialStatusBounds != ST_INACTIVE )
+		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( getNFX( ) > 0 ) )
 		{
 			THROWWARNING( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 		}
-- 
2.43.0


From dd5f6266e194961929b0d33c214814ad8bb68a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:01 +0000
Subject: [PATCH 64/66] fix: Transpose Cholesky factor read from file to the
 internal storage scheme (wrong solution reported as optimal)

---
 src/QProblem.cpp  | 8 +++++++-
 src/QProblemB.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 0da7404..f54c4be 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1417,7 +1417,13 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 		{
 			if ( _R == R )
 			{
-				/* Cholesky factor read from file and already loaded into R. */
+				/* Cholesky factor read from file and already loaded into R (row-wise). */
+				for( i=0; i<nV; ++i )
+					for( j=i+1; j<nV; ++j )
+					{
+						RR(i,j) = R[i*nV+j];
+						RR(j,i) = 0.0;
+					}
 				haveCholesky = BT_TRUE;
 			}
 			else if ( ( xOpt == 0 ) && ( yOpt == 0 ) && ( guessedBounds == 0 ) && ( guessedConstraints == 0 ) )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 990b668..9d51531 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2469,7 +2469,13 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 		{
 			if ( _R == R )
 			{
-				/* Cholesky factor read from file and already loaded into R. */
+				/* Cholesky factor read from file and already loaded into R (row-wise). */
+				for( i=0; i<nV; ++i )
+					for( j=i+1; j<nV; ++j )
+					{
+						RR(i,j) = R[i*nV+j];
+						RR(j,i) = 0.0;
+					}
 				haveCholesky = BT_TRUE;
 			}
 			else if ( ( xOpt == 0 ) && ( yOpt == 0 ) && ( guessedBounds == 0 ) )
-- 
2.43.0


From fc5b2ae4cbbff19e815bc244a939505dc5cb53b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 65/66] fix: Ignore external Cholesky factor if no dense
 factorisation is stored (SQProblemSchur wrote to a null pointer)

---
 src/QProblem.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index f54c4be..5dfe76e 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -421,7 +421,7 @@ returnValue QProblem::init(	const char* const H_file, const char* const g_file,
 	if ( setupQPdataFromFile( H_file,g_file,A_file,lb_file,ub_file,lbA_file,ubA_file ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_UNABLE_TO_READ_FILE );
 
-	if ( R_file == 0 )
+	if ( ( R_file == 0 ) || ( R == 0 ) )
 	{
 		/* 3) Call to main initialisation routine. */
 		return solveInitialQP( xOpt,yOpt,guessedBounds,guessedConstraints,0, nWSR,cputime );
@@ -1404,10 +1404,10 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 	if ( setupAuxiliaryWorkingSet( &auxiliaryBounds,&auxiliaryConstraints,BT_TRUE ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_INIT_FAILED );
 
-	/* d) Copy external Cholesky factor if provided */
+	/* d) Copy external Cholesky factor if provided (unused if no factorisation is stored). */
 	haveCholesky = BT_FALSE;
 
-	if ( _R != 0 )
+	if ( ( _R != 0 ) && ( R != 0 ) )
 	{
 		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( getNFX( ) > 0 ) || ( getNAC( ) > 0 ) )
 		{
-- 
2.43.0


From 0ec55e3406073020459310bed5f6f8cf373a6c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 66/66] fix: Do not use an external Cholesky factor if free
 variables are not in natural order (wrong solution reported as optimal)

---
 src/QProblem.cpp  | 11 +++++++++++
 src/QProblemB.cpp | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 5dfe76e..ddb8e62 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1440,6 +1440,17 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 		}
 	}
 
+	/* external factor refers to the natural order of the variables */
+	if ( haveCholesky == BT_TRUE )
+	{
+		int_t* FR_idx;
+		bounds.getFree( )->getNumberArray( &FR_idx );
+
+		for( i=0; i<nV; ++i )
+			if ( FR_idx[i] != i )
+				haveCholesky = BT_FALSE;
+	}
+
 	/* 5) Store original QP formulation... */
 	real_t* g_original = new real_t[nV];
 	real_t* lb_original = new real_t[nV];
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 9d51531..0d4d06f 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2488,6 +2488,17 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 		}
 	}
 
+	/* external factor refers to the natural order of the variables */
+	if ( haveCholesky == BT_TRUE )
+	{
+		int_t* FR_idx;
+		bounds.getFree( )->getNumberArray( &FR_idx );
+
+		for( i=0; i<nV; ++i )
+			if ( FR_idx[i] != i )
+				haveCholesky = BT_FALSE;
+	}
+
 	/* 5) Store original QP formulation... */
 	real_t* g_original = new real_t[nV];
 	real_t* lb_original = new real_t[nV];
-- 
2.43.0

