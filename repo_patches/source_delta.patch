From 5c1aff9c172e0d34741a6e408fdfb4a9ba422cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 01/35] fix: project all lattice points of non-unimodular cones
 up (multivariate GF with equations and --maxdet/--no-decomposition)

---
 code/latte/ProjectUp.cpp | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/code/latte/ProjectUp.cpp b/code/latte/ProjectUp.cpp
index 8e866c7..d6e49ef 100644
--- a/code/latte/ProjectUp.cpp
+++ b/code/latte/ProjectUp.cpp
@@ -121,32 +121,18 @@ listCone* ProjectUp2(listCone* cone, int & oldNumOfVars, int & newNumOfVars,
   
   while(current_cone)
     {
-      /* FIXME: Handle non-unimodular cones */
       assert(current_cone->latticePoints != NULL);
-      assert(current_cone->latticePoints->rest == NULL);
       
-      //  cerr << " Here 1" << endl;
-      i = 0;
-      newVector = b;
-      
-      for(i = 0; i < oldNumOfVars; i++){	  
-	newVector[i] += AA[i] * current_cone->latticePoints->first;
+      /* Non-unimodular cones have more than one lattice point in their
+	 fundamental parallelepiped; project all of them. */
+      listVector *point;
+      for (point = current_cone->latticePoints; point != NULL;
+	   point = point->rest) {
+	newVector = b;
+	for(i = 0; i < oldNumOfVars; i++)
+	  newVector[i] += AA[i] * point->first;
+	point->first = newVector;
       }
-      
-      //  cerr << " Here 2" << endl;
-      /*    for(i = oldNumOfVars - newNumOfVars; i < oldNumOfVars; i++)
-	    {
-	    newVector[i] = current_cone->latticePoints->first[i - oldNumOfVars + newNumOfVars];
-	    }*/
-	// cerr << " Here 3" << endl;
-      delete current_cone->latticePoints;
-      current_cone->latticePoints = new listVector;
-      current_cone->latticePoints->rest = NULL;
-      
-      current_cone->latticePoints->first.SetLength(oldNumOfVars);
-      //  cerr << " Here 4" << endl;
-      for(i = 0; i < oldNumOfVars; i++)
-	current_cone->latticePoints->first[i] = newVector[i];
 
       /* FIXME: Handle the vertex. */
       
-- 
2.43.0


From 8690536f1fdeb6c609a1454f42617e5bd19554c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 02/35] fix: dilate polyhedron before projecting out variables
 with its equations

---
 code/latte/ReadPolyhedron.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 78ce1ac..634c292 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -767,8 +767,13 @@ listVector * ReadPolyhedronData::projectOutVariables(dd_MatrixPtr &M, int &numOf
 	if (equationsPresent[0] == 'y') {
 		{
 			vec_ZZ *generators = NULL;
+			/* Dilate before projecting: the affine hull of the dilated
+			   polyhedron may contain integer points even if the affine
+			   hull of the original one does not. */
+			dilateListVector(equations, numOfVars, dilation_const);
+			dilateListVector(inequalities, numOfVars, dilation_const);
 			matrixTmp = preprocessProblem(equations, inequalities, &generators,
-					&numOfVars, cost, ProjU, interior, dilation_const);
+					&numOfVars, cost, ProjU, interior, 1);
 			if (generators)
 				delete[] generators;
 		}
-- 
2.43.0


From 864511e302b7e1d91c8150fde140e84328145c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 03/35] fix: emptiness check counts the nonnegativity rows
 regardless of keyword order

---
 code/latte/CheckEmpty.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/CheckEmpty.cpp b/code/latte/CheckEmpty.cpp
index 91fecc7..d7295c7 100644
--- a/code/latte/CheckEmpty.cpp
+++ b/code/latte/CheckEmpty.cpp
@@ -86,7 +86,7 @@ void CheckEmpty(const char * Filename){
   mat_ZZ entries;
   entries.SetDims(numOfConsts, numOfDims);
   // cerr << "here2" << endl;
-  if(flag == 2) hold = numOfDims - 1;
+  if(nonneg[0] == 'y') hold = numOfDims - 1;
   for(int i = 0; i < numOfEqu; i++) conv(equs[i], Index[i]);
   //  cerr << "ther" << endl; 
  for(int i = 0; i < numOfConsts; i++)
-- 
2.43.0


From 8bdf4ce59f2fe51840d5bce9eab13e584f750c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 04/35] fix: legacy option + wrote one nonnegativity constraint
 past the last column

---
 code/latte/ReadLatteStyle.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/latte/ReadLatteStyle.cpp b/code/latte/ReadLatteStyle.cpp
index 9a069e3..b9fa567 100644
--- a/code/latte/ReadLatteStyle.cpp
+++ b/code/latte/ReadLatteStyle.cpp
@@ -161,9 +161,10 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 		}
 	}
 	if (nonnegativity) {
-		vector<int> nonnegatives(numOfVars);
+		/* numOfVars counts the columns, including the right-hand side. */
+		vector<int> nonnegatives(numOfVars - 1);
 		int k;
-		for (k = 0; k < numOfVars; k++)
+		for (k = 0; k < numOfVars - 1; k++)
 			nonnegatives[k] = k + 1; /* 1-based indices */
 		dd_MatrixPtr new_matrix = add_nonnegativity(matrix, nonnegatives,
 				num_homog);
-- 
2.43.0


From 79c6c205ba945d85452b60c3a6c16d4e02884d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 05/35] fix: product of linear forms with zero coefficient
 aborted on uninitialised flag

integrateLinFormProducts asserted that the highest term was stored, but
insertMonomial drops zero coefficients.
---
 code/latte/integration/newIntegration.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/latte/integration/newIntegration.cpp b/code/latte/integration/newIntegration.cpp
index 58aef7a..4aa0387 100644
--- a/code/latte/integration/newIntegration.cpp
+++ b/code/latte/integration/newIntegration.cpp
@@ -477,7 +477,7 @@ RationalNTL integrateLinFormProducts(PolyIterator<RationalNTL, ZZ>* it, const si
 	finalPoly->setTrie(polynomialProduct.myMonomials, polynomialProduct.varCount);
 	finalPoly->begin();
 	term<RationalNTL, int>* storedTerm;
-	bool found;
+	bool found = false;
 	while ((storedTerm = finalPoly->nextTerm()) != 0)
 	{
 		found = true;
@@ -494,7 +494,9 @@ RationalNTL integrateLinFormProducts(PolyIterator<RationalNTL, ZZ>* it, const si
 			break;
 		}//found coeff. of highest term.
 	}//while
-	assert(found == true);
+	//terms with zero coefficient are not stored, so the coeff. of M is zero if it was not found.
+	if (! found)
+		answer = 0;
 
 	return answer;
 }//integrateLinFormProducts
-- 
2.43.0


From e0ea1783ca323904fe8577b29680f3fcfe5a8f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 06/35] fix: integrating a polynomial with repeated monomials
 aborted

The term count of a loaded polynomial counts insertions, but equal
monomials are merged in the trie, so the two counts differ although
nothing is lost.
---
 code/latte/valuation/PolytopeValuation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/latte/valuation/PolytopeValuation.cpp b/code/latte/valuation/PolytopeValuation.cpp
index 66f51ad..2fbb95a 100644
--- a/code/latte/valuation/PolytopeValuation.cpp
+++ b/code/latte/valuation/PolytopeValuation.cpp
@@ -246,8 +246,8 @@ void PolytopeValuation::dilatePolynomialToLinearForms(linFormSum &linearForms, c
 		}//insert the non-constant monomial
 	}//for every term in the originalPolynomial
 
-	assert(originalPolynomial.termCount == transformedPolynomial.termCount + numberConstantTerms
-			&& originalPolynomial.varCount == transformedPolynomial.varCount );
+	//termCount also counts repeated monomials, which are merged when they are stored; so it may differ here.
+	assert(originalPolynomial.varCount == transformedPolynomial.varCount);
 	assert(numberConstantTerms <= 1);
 
 
-- 
2.43.0


From 6bc79216c316345def1685bf5c3c139eddcaa419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 07/35] fix: polyhedra containing a line aborted on an
 assertion

Report them as unbounded, as any other unbounded polyhedron.
---
 code/latte/VertexConesWith4ti2.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/code/latte/VertexConesWith4ti2.cpp b/code/latte/VertexConesWith4ti2.cpp
index 687edfd..60807f7 100644
--- a/code/latte/VertexConesWith4ti2.cpp
+++ b/code/latte/VertexConesWith4ti2.cpp
@@ -88,11 +88,15 @@ computeVertexConesWith4ti2(listVector* ineqs, int numOfVars,
   }
 #endif
   
-  assert(subspace->get_number() == 0); /* We assume polytopes,
-					  thus a pointed
-					  homogenization */
+  bool pointed = subspace->get_number() == 0;
   delete matrix;
   delete subspace;
+  if (!pointed) {
+    /* The polyhedron contains a line; so it is unbounded and has no vertices. */
+    unbounded = true;
+    delete rays;
+    return;
+  }
   
   int num_rays = rays->get_number();
   
-- 
2.43.0


From a1dac561efa7c8f539d348e7c36a8b8c7ab883d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 08/35] fix: unbounded polyhedra were reported as having 0
 points with cdd or lrs vertex cones

readCddExtFile wrote 0 to numOfLatticePoints and exited successfully.
---
 code/latte/vertices/cdd.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/code/latte/vertices/cdd.cpp b/code/latte/vertices/cdd.cpp
index 77edb13..ce1ad8f 100644
--- a/code/latte/vertices/cdd.cpp
+++ b/code/latte/vertices/cdd.cpp
@@ -552,7 +552,7 @@ listCone* readCddExtFile(int &numOfVars)
 			if (read == '0')
 			{
 				cerr << "\n\nreadCddExtFile:: Unbounded polytope!" << endl << endl;
-				exit(0);
+				exit(1);
 			}
 		}
 
@@ -600,9 +600,7 @@ listCone* readCddExtFile(int &numOfVars)
 				if (x == 0)
 				{
 					cerr << "\n\nreadCddExtFile:: Given polyhedron is unbounded!!!(2)\n\n";
-					ofstream Empty("numOfLatticePoints");
-					Empty << 0 << endl;
-					exit(0);
+					exit(1);
 				}
 				//Ok, we have just read in the leading "1"...which could be something else if the vertex is not integer.
 				//Save the rational number.
-- 
2.43.0


From 71a2d57550ab3790099152f0970490b8cd8cae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 09/35] fix: binary search optimisation stopped at the first
 empty subproblem

count exits with status 1 for an empty polytope.
---
 code/latte/binarySearchIP.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index 24d80af..a003dbf 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -125,6 +125,26 @@ rationalVector* LP2(listVector* matrix, listVector* ineq, vec_ZZ& cost, int numO
 }
 /* ----------------------------------------------------------------- */
 
+/* Run `count' on the file `latte_BS'.  Its exit status does not tell
+   failure apart from an empty polytope (for which it writes 0), so
+   check for the existence of the output file instead. */
+static ZZ CountLatteBS(const string &prefix)
+{
+  ZZ NumOfLatticePoints;
+  system_with_error_check("rm -f numOfLatticePoints");
+  string command = prefix + shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out";
+  int status = system(command.c_str());
+  ifstream in("numOfLatticePoints");
+  if (!in || !(in >> NumOfLatticePoints)) {
+    cerr << "Command `" << command << "' returned with exit status "
+	 << status << " and without a result." << endl;
+    exit(1);
+  }
+  return NumOfLatticePoints;
+}
+
+/* ----------------------------------------------------------------- */
+
 void createLatteFileEqu(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs, vec_ZZ lhs) {
   int i;
   listVector* tmp, *tmp2;
@@ -165,10 +185,7 @@ ZZ OptimalCheckEqu(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs,
 
   //system_with_error_check("rm numOfLatticePoints");
   createLatteFileEqu(matrix, ineq, numOfVars + 1, rhs, lhs);
-  system_with_error_check(shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out");
-
-  ifstream in("numOfLatticePoints");
-  in >> NumOfLatticePoints;
+  NumOfLatticePoints = CountLatteBS("");
   system_with_error_check("rm -f latte_BS*");
 
   return NumOfLatticePoints;
@@ -217,13 +234,7 @@ ZZ OptimalCheck(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs, vec
 
   //system_with_error_check("rm -f numOfLatticePoints");
   createLatteFile(matrix, ineq, numOfVars + 1, rhs, lhs);
-  if(lengthListVector(matrix) != 0)
-    system_with_error_check("time " + shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out");
-  else
-    system_with_error_check("time " + shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out");
-
-  ifstream in("numOfLatticePoints");
-  in >> NumOfLatticePoints;
+  NumOfLatticePoints = CountLatteBS("time ");
 
   ifstream in2("numOfUnimodularCones");
   ZZ numOfUniCones;
-- 
2.43.0


From 745ddbe40fb565ac702a74605c901cf3e755bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 10/35] fix: binary search minimisation printed the negated
 optimum when the LP bound is attained

---
 code/latte/binarySearchIP.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index a003dbf..08e1e0d 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -309,7 +309,10 @@ ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars
       }
 
       if(IsZero(Opt) == 0){
-        cerr << "The optimal value: " << high - 1 << endl << endl;
+        if(min[0] == 'y')
+	  cerr << "The optimal value: " << 1 - high << endl << endl;
+        else
+	  cerr << "The optimal value: " << high - 1 << endl << endl;
 	return Opt;
 	}
        else{
-- 
2.43.0


From 1c06db74d7c8e6d8c4db1f37c19ddc37c36494a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 11/35] fix: perturbed cost vector could outweigh the cost in
 digging optimisation

---
 code/latte/ConeInfo.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/code/latte/ConeInfo.cpp b/code/latte/ConeInfo.cpp
index 886ca84..bd55fdf 100644
--- a/code/latte/ConeInfo.cpp
+++ b/code/latte/ConeInfo.cpp
@@ -1462,7 +1462,7 @@ vec_ZZ	Calculate_Pertubation (listCone *cones, vec_ZZ *Cost, int Mod_Value, int
 				if (tmpVector->first[i] >= 0 && tmpVector->first[i] > Maximum_Coordinate)
 					Maximum_Coordinate = tmpVector->first[i];
 				if (tmpVector->first[i] <= 0 && -1* tmpVector->first[i] > Maximum_Coordinate)
-					Maximum_Coordinate = tmpVector->first[i];
+					Maximum_Coordinate = -1* tmpVector->first[i];
 
 		
 			}
@@ -1470,6 +1470,17 @@ vec_ZZ	Calculate_Pertubation (listCone *cones, vec_ZZ *Cost, int Mod_Value, int
 			tmpVector = tmpVector->rest;
 		}	
 
+		// The perturbation must not outweigh the cost anywhere in the
+		// polytope, so take the vertices into account as well.
+		if (tmpcone->vertex)
+			for (int i=0; i < Number_of_Variables; i++)
+			{
+				ZZ Bound = abs(tmpcone->vertex->vertex->numerators()[i])
+					/ abs(tmpcone->vertex->vertex->denominators()[i]) + 1;
+				if (Bound > Maximum_Coordinate)
+					Maximum_Coordinate = Bound;
+			}
+
 		tmpcone = tmpcone->rest;
 	}
 	
-- 
2.43.0


From 156f5862d761489247a2047cee32f1026a0760b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 12/35] fix: ConvertCDDineToLatte dropped the linearity section

---
 code/latte/convertCDD_ine_to_latte.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/latte/convertCDD_ine_to_latte.cpp b/code/latte/convertCDD_ine_to_latte.cpp
index 32e6907..3957d2d 100644
--- a/code/latte/convertCDD_ine_to_latte.cpp
+++ b/code/latte/convertCDD_ine_to_latte.cpp
@@ -32,9 +32,12 @@ int main( int argc, const char* argv[] )
 	long numRows, ambDim;
 	ZZ lcmDenom;
 
+	string linearity; //the linearity line, which LattE writes after the rows.
 	while ( getline(input, line))
 		if ( line == "begin")
 			break;
+		else if ( line.compare(0, 9, "linearity") == 0)
+			linearity = line;
 //	getline(input, line);
 
 	input >> numRows >> ambDim;
@@ -58,6 +61,8 @@ int main( int argc, const char* argv[] )
 		output << endl;
 
 	}//for each row.
+	if ( ! linearity.empty())
+		output << linearity << endl;
 
 	input.close();
 	output.close();
-- 
2.43.0


From 0865fd1f283720ec923b9e937cae8f458471c786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 13/35] fix: 4ti2 triangulation returned non-simplicial cones
 when the random heights were dependent

---
 .../RegularTriangulationWith4ti2.cpp          | 37 +++++++++++++++----
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/code/latte/triangulation/RegularTriangulationWith4ti2.cpp b/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
index e7ca3ba..c102158 100644
--- a/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
+++ b/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
@@ -54,7 +54,7 @@ cone_from_ray_BitSet(vector<listVector *> &rays, const BitSet &ray_set,
 }
 
 static bool lindep_heights_p(listCone *cone, BarvinokParameters *Parameters,
-		const vector<mpz_class> &heights, bool print = false)
+		const vector<mpz_class> &heights, int &rank, bool print = false)
 {
 	int num_rays = lengthListVector(cone->rays);
 	/* Check for linearly dependent height vector. */
@@ -63,7 +63,7 @@ static bool lindep_heights_p(listCone *cone, BarvinokParameters *Parameters,
 			/* extra_rows: */1);
 	if (print)
 		cout << "Before: " << endl << *ray_column_matrix << endl;
-	int rank = upper_triangle(*ray_column_matrix,
+	rank = upper_triangle(*ray_column_matrix,
 			Parameters->Number_of_Variables, num_rays);
 	if (print)
 		cout << "After: " << endl << *ray_column_matrix << endl;
@@ -82,6 +82,27 @@ static bool lindep_heights_p(listCone *cone, BarvinokParameters *Parameters,
 		return false;
 }
 
+void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
+		height_function_type height_function, void *height_function_data,
+		ConeConsumer &consumer);
+
+/* The heights give the trivial subdivision of CONE.  If it is not
+   simplicial of dimension RANK and has to be triangulated, try again with
+   a random height vector, otherwise just return a copy of it. */
+static void consume_trivial_subdivision(listCone *cone,
+		BarvinokParameters *Parameters, int rank, ConeConsumer &consumer)
+{
+	if (lengthListVector(cone->rays) > rank
+			&& !Parameters->nonsimplicial_subdivision)
+	{
+		int max_height = max(Parameters->triangulation_max_height, 2);
+		triangulate_cone_with_4ti2(cone, Parameters, random_height,
+				&max_height, consumer);
+	}
+	else
+		consumer.ConsumeCone(copyCone(cone));
+}
+
 void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		height_function_type height_function, void *height_function_data,
 		ConeConsumer &consumer)
@@ -107,23 +128,23 @@ void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		heights[i] = height.get_num();
 	}
 
+	int rank;
+	bool lindep_height = lindep_heights_p(cone, Parameters, heights, rank, false);
 	if (!seen_different_heights)
 	{
-		/* This will be a trivial polyhedral subdivision, so just return
-		 a copy of the cone. */
+		/* This will be a trivial polyhedral subdivision. */
 		//cerr << "Trivial test: Lifting heights yield trivial polyhedral subdivision." << endl;
 		Parameters->num_triangulations_with_trivial_heights++;
-		consumer.ConsumeCone(copyCone(cone));
+		consume_trivial_subdivision(cone, Parameters, rank, consumer);
 		return;
 	}
 
-	bool lindep_height = lindep_heights_p(cone, Parameters, heights, false);
 	if (lindep_height)
 	{
 		//cerr << "Rank test: Lifting heights yield trivial polyhedral subdivision." << endl;
 		Parameters->num_triangulations_with_dependent_heights++;
 #ifndef DEBUG_RANKTEST
-		consumer.ConsumeCone(copyCone(cone));
+		consume_trivial_subdivision(cone, Parameters, rank, consumer);
 		return;
 #endif
 	}
@@ -270,7 +291,7 @@ void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 	{
 		cerr << "Created non-trivial subdivision, though heights were dependent?!" << endl;
 		cerr << "Matrix: " << endl << *matrix << endl;
-		lindep_heights_p(cone, Parameters, heights, true);
+		lindep_heights_p(cone, Parameters, heights, rank, true);
 		abort();
 	}
 #endif
-- 
2.43.0


From 03449de58a2a2212e92d436eb00fc63d7216beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 14/35] fix: duals of lower-dimensional cones (assertion with
 as many rays as coordinates, ignored linearity with cdd)

---
 code/latte/dual.cpp | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/code/latte/dual.cpp b/code/latte/dual.cpp
index ba688b5..58a1ce0 100644
--- a/code/latte/dual.cpp
+++ b/code/latte/dual.cpp
@@ -30,6 +30,8 @@
 #include "barvinok/dec.h"
 #include "convert.h"
 #include <list>
+#include <set>
+#include <sstream>
 #include "latte_system.h"
 #include "latte_relocatable.h"
 
@@ -115,7 +117,17 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
     exit(1);
   }
 
-  while (tmpString!="begin") getline(in,tmpString);
+  /* If the cone is not full-dimensional, its dual has a lineality space. */
+  std::set<int> linearity;
+  while (tmpString!="begin") {
+    getline(in,tmpString);
+    if (tmpString.compare(0, 9, "linearity") == 0) {
+      istringstream indices(tmpString.substr(9));
+      int index;
+      indices >> index; // the number of indices
+      while (indices >> index) linearity.insert(index);
+    }
+  }
 
   in >> numOfVertices >> tmpInt >> tmpString;
 
@@ -134,9 +146,14 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
       }
     }
     w=normalizeRationalVector(w,numOfVars);
-    endFacets->rest=createListVector(w->numerators());
+    if (linearity.count(i + 1))
+      tmp->subspace_generators
+	= new listVector(w->numerators(), tmp->subspace_generators);
+    else {
+      endFacets->rest=createListVector(w->numerators());
+      endFacets=endFacets->rest;
+    }
     delete w;
-    endFacets=endFacets->rest;
   }
   in.close();
 #if 0
@@ -149,6 +166,16 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
 
 void computeDetAndFacetsOfSimplicialCone(listCone *cone, int numOfVars);
 
+static bool linearlyIndependentRays(listVector *rays, int numOfVars)
+{
+  mat_ZZ Mat;
+  int i;
+  Mat.SetDims(numOfVars, numOfVars);
+  for (i = 0; i < numOfVars; i++, rays = rays->rest)
+    Mat[i] = rays->first;
+  return determinant(Mat) != 0;
+}
+
 void dualizeCone(listCone *tmp, int numOfVars, BarvinokParameters *params)
 {
   if ((tmp->rays != NULL && tmp->facets != NULL)
@@ -161,9 +188,9 @@ void dualizeCone(listCone *tmp, int numOfVars, BarvinokParameters *params)
     swap(tmp->rays, tmp->facets);
     swap(tmp->subspace_generators, tmp->equalities);
   }
-  else if (lengthListVector(tmp->rays) == params->Number_of_Variables) {
-    /* We assume full-dimensional cones, so this must be a simplicial
-       cone. */
+  else if (lengthListVector(tmp->rays) == params->Number_of_Variables
+	   && linearlyIndependentRays(tmp->rays, params->Number_of_Variables)) {
+    /* A full-dimensional simplicial cone. */
     computeDetAndFacetsOfSimplicialCone(tmp, params->Number_of_Variables);
     swap(tmp->determinant, tmp->dual_determinant);
     swap(tmp->rays, tmp->facets);
-- 
2.43.0


From 45218d7387d572420c331303c9846b1dce42b4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 15/35] fix: --max-facets=N subdivided cones with exactly N
 facets forever; no enumeration for lower-dimensional cones

---
 code/latte/normalize/normalize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/latte/normalize/normalize.cpp b/code/latte/normalize/normalize.cpp
index 9f6c2e8..e1f82ff 100644
--- a/code/latte/normalize/normalize.cpp
+++ b/code/latte/normalize/normalize.cpp
@@ -250,6 +250,7 @@ handle_cone(listCone *t, int t_count, int t_total, int level)
     stats << endl;
   }
   else if (num_rays == params.Number_of_Variables
+	   && t->determinant != 0
 	   && abs(t->determinant) < max_determinant_for_enumeration) {
     if (verbosity > 0) {
       cerr << "Enumerating fundamental parallelepiped..." << flush;
@@ -260,7 +261,7 @@ handle_cone(listCone *t, int t_count, int t_total, int level)
       stats << endl;
     }
   }
-  else if (num_facets < max_facets) {
+  else if (num_facets <= max_facets) {
     // Use zsolve to compute the Hilbert basis.
 
     int cone_dimension = params.Number_of_Variables - lengthListVector(t->equalities);
-- 
2.43.0


From 5d86b0d88381effbb13b64c4bcd10376f15c600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 16/35] fix: LattException::what() returned a pointer to a
 destroyed string

---
 code/latte/LattException.cpp | 8 +++-----
 code/latte/LattException.h   | 1 +
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/code/latte/LattException.cpp b/code/latte/LattException.cpp
index 5cc1350..b56ea73 100644
--- a/code/latte/LattException.cpp
+++ b/code/latte/LattException.cpp
@@ -17,6 +17,8 @@ LattException::LattException(UserError ue, const char * file, const int line, co
 	lineNumber = line;
 	msg = message;
 	printStatus = b;
+	if ( LATTEXCEPTION_PRINTSTATUS || printStatus == 1 )
+		whatMessage = printErrorMessages();
 }
 
 
@@ -58,9 +60,5 @@ string  LattException::printErrorMessages() const
 
 const char* LattException::what() const throw()
 {
-	string s = "";
-	if ( LATTEXCEPTION_PRINTSTATUS || printStatus == 1 )
-	s = printErrorMessages();
-
-	return s.c_str();
+	return whatMessage.c_str();
 }
diff --git a/code/latte/LattException.h b/code/latte/LattException.h
index 812d996..64a131c 100644
--- a/code/latte/LattException.h
+++ b/code/latte/LattException.h
@@ -92,6 +92,7 @@ private:
 	int lineNumber;
 	string fileName;
 	bool printStatus;
+	string whatMessage; //text returned by what(), must live as long as the exception
 };
 
 #endif /* LATTEXCEPTION_H_ */
-- 
2.43.0


From 8027883ddc5ecfde5e37f1370e38646f10c27c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 17/35] fix: validate LattE-style H-representations before
 using them

---
 code/latte/ReadLatteStyle.cpp | 57 +++++++++++++++++++++--------------
 code/latte/ReadPolyhedron.cpp | 19 +++++++++++-
 2 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/code/latte/ReadLatteStyle.cpp b/code/latte/ReadLatteStyle.cpp
index b9fa567..1e5cf73 100644
--- a/code/latte/ReadLatteStyle.cpp
+++ b/code/latte/ReadLatteStyle.cpp
@@ -41,6 +41,31 @@ static void check_stream(const istream &f, const char *fileName,
 }
 ;
 
+static void format_error(const char *fileName, const char *message) {
+	cerr << "Input file " << fileName << ": " << message << "." << endl;
+	THROW_LATTE(LattException::fe_Parse, 0);
+}
+
+/* Read a number of indices in 1..MAX_INDEX, followed by the indices. */
+static vector<int> read_indices(istream &f, int max_index,
+		const char *fileName) {
+	int num;
+	f >> num;
+	check_stream(f, fileName, "ReadLatteStyleMatrix");
+	if (num < 0)
+		format_error(fileName, "Negative number of indices");
+	vector<int> indices;
+	for (int i = 0; i < num; i++) {
+		int index; /* 1-based */
+		f >> index;
+		check_stream(f, fileName, "ReadLatteStyleMatrix");
+		if (index < 1 || index > max_index)
+			format_error(fileName, "Index out of range");
+		indices.push_back(index);
+	}
+	return indices;
+}
+
 dd_MatrixPtr ReadLatteStyleMatrix(const char *fileName, bool vrep,
 		bool homogenize, bool nonnegativity) {
 	ifstream f(fileName);
@@ -88,9 +113,11 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 	dd_set_global_constants();
 	int numOfVectors, numOfVars;
 	f >> numOfVectors >> numOfVars;
+	check_stream(f, fileName, "ReadLatteStyleMatrix");
+	if (numOfVectors < 0 || numOfVars < 1)
+		format_error(fileName, "Bad number of rows or columns");
 	int num_homog = homogenize ? 1 : 0;
 	int numOfVars_hom = numOfVars + num_homog;
-	check_stream(f, fileName, "ReadLatteStyleMatrix");
 	dd_MatrixPtr matrix = dd_CreateMatrix(numOfVectors, numOfVars_hom);
 	matrix->numbtype = dd_Rational;
 	if (vrep)
@@ -103,6 +130,8 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 		for (j = 0; j < numOfVars; j++) {
 			f >> x;
 			check_stream(f, fileName, "ReadLatteStyleMatrix");
+			if (x.get_den() == 0)
+				format_error(fileName, "Zero denominator");
 			dd_set(matrix->matrix[i][j + num_homog], x.get_mpq_t());
 		}
 	}
@@ -116,33 +145,17 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 		char buffer[20];
 		f.get(buffer, 20, ' ');
 		if (strcmp(buffer, "linearity") == 0) {
-			int num_linearity;
-			f >> num_linearity;
-			check_stream(f, fileName, "ReadLatteStyleMatrix");
-			int i;
-			for (i = 0; i < num_linearity; i++) {
-				int index; /* 1-based */
-				f >> index;
-				check_stream(f, fileName, "ReadLatteStyleMatrix");
-				set_addelem(matrix->linset, index /* 1-based */);
-			}
+			/* The rows that nonnegativity has added are not counted. */
+			vector<int> indices = read_indices(f, numOfVectors, fileName);
+			for (size_t i = 0; i < indices.size(); i++)
+				set_addelem(matrix->linset, indices[i] /* 1-based */);
 		} else if (strcmp(buffer, "nonnegative") == 0) {
 			if (vrep) {
 				cerr << "Keyword `" << buffer << "' not valid in vrep mode."
 						<< endl;
 				THROW_LATTE(LattException::ue_BadFileOption, 0);
 			}
-			int num_nonnegative;
-			f >> num_nonnegative;
-			check_stream(f, fileName, "ReadLatteStyleMatrix");
-			vector<int> nonnegatives(num_nonnegative);
-			int k;
-			for (k = 0; k < num_nonnegative; k++) {
-				int index; /* 1-based */
-				f >> index;
-				check_stream(f, fileName, "ReadLatteStyleMatrix");
-				nonnegatives[k] = index;
-			}
+			vector<int> nonnegatives = read_indices(f, numOfVars - 1, fileName);
 			// Create a new matrix that includes non-negativity
 			// inequalities.
 			dd_MatrixPtr new_matrix = add_nonnegativity(matrix, nonnegatives,
diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 634c292..a6a3c8f 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -588,6 +588,19 @@ static dd_MatrixPtr ReadCddStyleMatrix(const string &filename) {
 	return M;
 }
 
+/* The H-representation must have rows, variables and integer entries. */
+static void check_inequality_matrix(dd_MatrixPtr M, const string &filename) {
+	bool ok = M->rowsize >= 1 && M->colsize >= 2;
+	for (int i = 0; ok && i < M->rowsize; i++)
+		for (int j = 0; ok && j < M->colsize; j++)
+			ok = mpz_cmp_ui(mpq_denref(M->matrix[i][j]), 1) == 0;
+	if (!ok) {
+		cerr << "The H-representation in " << filename
+				<< " is not an integer matrix with rows and variables." << endl;
+		THROW_LATTE(LattException::fe_Parse, 0);
+	}
+}
+
 Polyhedron *
 ReadPolyhedronData::read_polyhedron_hairy(BarvinokParameters *params) {
 	Polyhedron *Poly = NULL;
@@ -615,6 +628,8 @@ ReadPolyhedronData::read_polyhedron_hairy(BarvinokParameters *params) {
 				<< "because it is unimplemented for the CDD-style input format. "
 				<< endl;
 		M = ReadCddStyleMatrix(filename);
+		if (M->representation == dd_Inequality)
+			check_inequality_matrix(M, filename);
 	} else {
 		/* Read an input file in LattE format. */
 		if (Vrepresentation[0] == 'y') {
@@ -643,10 +658,12 @@ ReadPolyhedronData::read_polyhedron_hairy(BarvinokParameters *params) {
 			/* homogenize: */false);
 		} else {
 			/* Not VREP. */
-			CheckEmpty(filename.c_str());
 			M = ReadLatteStyleMatrix(filename.c_str(), /* vrep: */false,
 			/* homogenize: */false,
 			/* nonnegative: */nonneg[0] == 'y');
+			/* CheckEmpty assumes a well-formed integer matrix. */
+			check_inequality_matrix(M, filename);
+			CheckEmpty(filename.c_str());
 		}
 	}
 
-- 
2.43.0


From 972304c166da07e26144429f7785b32df5c0a08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 18/35] fix: read LattE-style V-representations independently
 of line breaks

---
 code/latte/ReadPolyhedron.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index a6a3c8f..bf8a79f 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -647,8 +647,10 @@ ReadPolyhedronData::read_polyhedron_hairy(BarvinokParameters *params) {
 				 */
 				/* Don't homogenize. */
 				Polyhedron *P = new Polyhedron;
-				P->cones = computeVertexConesFromVrep(filename.c_str(),
-						P->numOfVars);
+				M = ReadLatteStyleMatrix(filename.c_str(), /* vrep: */true,
+				/* homogenize: */false);
+				P->cones = computeVertexConesFromVrep(M, P->numOfVars);
+				dd_FreeMatrix(M);
 
 				P->dualized = false;
 				P->homogenized = false;
-- 
2.43.0


From 2d86ac14bc0eafe9ee51eb6542d01ec54518332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 19/35] fix: reduce fractions read from LattE-style files

---
 code/latte/ReadLatteStyle.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/latte/ReadLatteStyle.cpp b/code/latte/ReadLatteStyle.cpp
index 1e5cf73..07e0090 100644
--- a/code/latte/ReadLatteStyle.cpp
+++ b/code/latte/ReadLatteStyle.cpp
@@ -132,6 +132,7 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 			check_stream(f, fileName, "ReadLatteStyleMatrix");
 			if (x.get_den() == 0)
 				format_error(fileName, "Zero denominator");
+			x.canonicalize();
 			dd_set(matrix->matrix[i][j + num_homog], x.get_mpq_t());
 		}
 	}
-- 
2.43.0


From f6e0327afe4225b8366b9205252e1d27342220bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 20/35] fix: do not allocate the matrix a LattE-style header
 announces before reading it

---
 code/latte/ReadLatteStyle.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/code/latte/ReadLatteStyle.cpp b/code/latte/ReadLatteStyle.cpp
index 07e0090..818851b 100644
--- a/code/latte/ReadLatteStyle.cpp
+++ b/code/latte/ReadLatteStyle.cpp
@@ -118,24 +118,30 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 		format_error(fileName, "Bad number of rows or columns");
 	int num_homog = homogenize ? 1 : 0;
 	int numOfVars_hom = numOfVars + num_homog;
-	dd_MatrixPtr matrix = dd_CreateMatrix(numOfVectors, numOfVars_hom);
-	matrix->numbtype = dd_Rational;
-	if (vrep)
-		matrix->representation = dd_Generator;
-	else
-		matrix->representation = dd_Inequality;
 	int i, j;
-	mpq_class x;
+	/* Read all entries before allocating a matrix of the announced size. */
+	vector<mpq_class> entries;
 	for (i = 0; i < numOfVectors; i++) {
 		for (j = 0; j < numOfVars; j++) {
+			mpq_class x;
 			f >> x;
 			check_stream(f, fileName, "ReadLatteStyleMatrix");
 			if (x.get_den() == 0)
 				format_error(fileName, "Zero denominator");
 			x.canonicalize();
-			dd_set(matrix->matrix[i][j + num_homog], x.get_mpq_t());
+			entries.push_back(x);
 		}
 	}
+	dd_MatrixPtr matrix = dd_CreateMatrix(numOfVectors, numOfVars_hom);
+	matrix->numbtype = dd_Rational;
+	if (vrep)
+		matrix->representation = dd_Generator;
+	else
+		matrix->representation = dd_Inequality;
+	for (i = 0; i < numOfVectors; i++)
+		for (j = 0; j < numOfVars; j++)
+			dd_set(matrix->matrix[i][j + num_homog],
+					entries[(size_t) i * numOfVars + j].get_mpq_t());
 	// Skip whitespace
 	while (isspace(f.peek())) {
 		char c;
-- 
2.43.0


From 7d836847cae6574eeff1953cb2c08413f6489761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 21/35] fix: integrating the zero polynomial or a zero sum of
 powers of linear forms crashed

---
 code/latte/integration/PolyTrie.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/latte/integration/PolyTrie.cpp b/code/latte/integration/PolyTrie.cpp
index 0d1a9cd..80dca41 100644
--- a/code/latte/integration/PolyTrie.cpp
+++ b/code/latte/integration/PolyTrie.cpp
@@ -84,7 +84,8 @@ void insertMonomial(const RationalNTL& coefficient, int* exponents,
 {
 	BurstTrie<RationalNTL, int>* curTrie;
 
-	if ( coefficient == 0)
+	//a zero term is only kept as the first one, so that the zero polynomial has a (valid) trie.
+	if ( coefficient == 0 && monomials.termCount > 0)
 		return;
 
 	if (monomials.termCount == 0) //need to construct the first burst trie (sorted on the first variable) and first container 
@@ -255,7 +256,8 @@ void insertLinForm(const RationalNTL& coef, int degree, const vec_ZZ& coeffs,
 	BurstTrie<RationalNTL, ZZ> *curTrie;
 	//cout << "inserting into linear form with " << formSum.varCount << " variables" << endl;
 
-	if (coef == 0)
+	//a zero term is only kept as the first one, so that the zero sum has a (valid) trie.
+	if (coef == 0 && formSum.termCount > 0)
 		return;
 
 	if (formSum.termCount == 0) //need to construct the first burst trie (sorted on the first variable) and first container 
-- 
2.43.0


From 3a95c9499e965b9471840dcac14ce54628f3a7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 22/35] fix: read products of linear forms with zero powers,
 repeated factors or zero coefficients

---
 code/latte/integration/PolyTrie.cpp        | 38 +++++++++++++++++-----
 code/latte/valuation/PolytopeValuation.cpp |  3 ++
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/code/latte/integration/PolyTrie.cpp b/code/latte/integration/PolyTrie.cpp
index 80dca41..29880a4 100644
--- a/code/latte/integration/PolyTrie.cpp
+++ b/code/latte/integration/PolyTrie.cpp
@@ -365,7 +365,9 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 	int degree;
 	RationalNTL coefficient;
 
-	int productIndex = 0;
+	//the factors of the current product: distinct linear forms and their (positive) powers.
+	vector<vec_ZZ> productForms;
+	vector<int> productDegrees;
 	for (int i = 1; i < line.length() - 1; i++) //ignore outermost square brackets
 	{
 		if (line[i] == '[')
@@ -382,8 +384,8 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 					flag = 1;
 					break;
 				case 1: //start of a product of linear forms [[p, [l]], ...],
-					productIndex = consumer->initializeNewProduct();
-					//cout << "new index:" << productIndex << endl;
+					productForms.clear();
+					productDegrees.clear();
 					flag = 2;
 					break;
 				case 2: //start of a power of linear form [p, [l]]
@@ -409,12 +411,19 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 						}
 					}//end of exponent vector.
 
-					//cout << "inserting " << coefficient << " ";
-					//for(int w = 0; w < coefs.length(); ++w)
-					//	cout << coefs[w] << ", ";
-					//cout << "into " << productIndex << endl;
-					consumer->ConsumeLinForm(productIndex, coefficient, degree, coefs);
-					coefficient = 1; //the other coefficients in this product are 1.
+					//l^0 is one, and l^a * l^b is l^(a+b).
+					if (degree > 0)
+					{
+						size_t w = 0;
+						while (w < productForms.size() && productForms[w] != coefs)
+							++w;
+						if (w == productForms.size())
+						{
+							productForms.push_back(coefs);
+							productDegrees.push_back(0);
+						}
+						productDegrees[w] += degree;
+					}
 
 					for(; line[i] != ']'; ++i); //end of linear form list: [[p, [l]] ]
 					//for(; line[i] != ']'; ++i); //end of linear form list: [[[p, [l]] ]
@@ -430,6 +439,17 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 						else if ( line[i] == ']')
 						{
 							flag = 0; //new product
+							if (coefficient != 0)
+							{
+								int productIndex = consumer->initializeNewProduct();
+								if (productForms.empty()) //a constant.
+									consumer->ConsumeLinForm(productIndex, coefficient, 0, coefs);
+								for (size_t w = 0; w < productForms.size(); ++w)
+								{
+									consumer->ConsumeLinForm(productIndex, coefficient, productDegrees[w], productForms[w]);
+									coefficient = 1; //the other coefficients in this product are 1.
+								}
+							}
 							break;
 						}
 					}
diff --git a/code/latte/valuation/PolytopeValuation.cpp b/code/latte/valuation/PolytopeValuation.cpp
index 2fbb95a..60cfbc2 100644
--- a/code/latte/valuation/PolytopeValuation.cpp
+++ b/code/latte/valuation/PolytopeValuation.cpp
@@ -952,6 +952,9 @@ RationalNTL PolytopeValuation::findIntegralPolynomialToPLF(const monomialSum& po
 	for (oneMonomial = polynomialIterator->nextTerm(); oneMonomial; oneMonomial
 			= polynomialIterator->nextTerm())
 	{
+		if (oneMonomial->coef == 0)
+			continue; //terms of the input which cancelled.
+
 		int productIndex = consumer->initializeNewProduct();
 		numTermsAdded = 0;
 
-- 
2.43.0


From 734db8d0ff70b9ef9a2311cd4874a191e4c22dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 23/35] fix: Smith normal form elimination multiplied by the
 sign of the pivot twice, leaving off-diagonal entries

---
 code/latte/genFunction/matrix_ops.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/latte/genFunction/matrix_ops.cpp b/code/latte/genFunction/matrix_ops.cpp
index d1bd595..92919cd 100644
--- a/code/latte/genFunction/matrix_ops.cpp
+++ b/code/latte/genFunction/matrix_ops.cpp
@@ -214,7 +214,7 @@ static void eliminationRow(mat_ZZ& A, mat_ZZ& R, int offset)
   {
     if (!IsZero(A[offset][j]))
     {
-      ZZ tmp = (A[offset][j] / g) * sign(A[offset][offset]);
+      ZZ tmp = A[offset][j] / g; // A[offset][offset] is g now
       for (int i = 0; i < A.NumRows(); i++)
       {
 	R[i][j] -= tmp * R[i][offset];
@@ -277,7 +277,7 @@ static void eliminationCol(mat_ZZ& A, mat_ZZ& L, int offset)
   {
     if (!IsZero(A[i][offset]))
     {
-      s = (A[i][offset] / g) * sign(A[offset][offset]);
+      s = A[i][offset] / g; // A[offset][offset] is g now
       L[i] -= s * L[offset];
       A[i] -= s * A[offset];
     }
-- 
2.43.0


From b296dc98879ca7ec2ae8272314b40fd37e39748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 24/35] fix: sums of monomials or linear forms whose terms
 cancel crashed or gave 0/0 in the batch integration routines

---
 code/latte/integration/PolyTrie.cpp       | 12 ++++++------
 code/latte/integration/newIntegration.cpp |  8 ++++++++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/code/latte/integration/PolyTrie.cpp b/code/latte/integration/PolyTrie.cpp
index 29880a4..ad19b45 100644
--- a/code/latte/integration/PolyTrie.cpp
+++ b/code/latte/integration/PolyTrie.cpp
@@ -119,7 +119,7 @@ string printMonomials(const monomialSum &myPoly)
 	int i = 0;
 	stringstream output(stringstream::in | stringstream::out);
 	temp = it->nextTerm();
-	do
+	while (temp)
 	{
 		if (output.str() != "")
 		{
@@ -136,7 +136,7 @@ string printMonomials(const monomialSum &myPoly)
 		}
 		output << "]]";
 		temp = it->nextTerm();
-	} while (temp);
+	}
 	delete it;
 	return "[" + output.str() + "]";
 }
@@ -292,7 +292,7 @@ string printLinForms(const linFormSum &myForm)
 
 	stringstream output(stringstream::in | stringstream::out);
 	temp = it->nextTerm();
-	do
+	while (temp)
 	{
 		if (output.str() != "")
 		{
@@ -309,7 +309,7 @@ string printLinForms(const linFormSum &myForm)
 		}
 		output << "]]]";
 		temp = it->nextTerm();
-	} while (temp);
+	}
 	delete it;
 	return "[" + output.str() + "]";
 }
@@ -512,7 +512,7 @@ void decompose(BTrieIterator<RationalNTL, int>* it, linFormSum &lForm)
 	//cout << "in decompost()::\n";
 	temp = it->nextTerm();
 
-	do
+	while (temp)
 	{
 		//cout << "monomial " << temp->coef;
 		//for(int i = 0; i < temp->length; ++i)
@@ -520,7 +520,7 @@ void decompose(BTrieIterator<RationalNTL, int>* it, linFormSum &lForm)
 		//cout << "\n";
 		decompose(temp, lForm);
 		temp = it->nextTerm();
-	} while (temp);
+	}
 
 	//delete myPoly.myMonomials;
 }
diff --git a/code/latte/integration/newIntegration.cpp b/code/latte/integration/newIntegration.cpp
index 4aa0387..68b3a2d 100644
--- a/code/latte/integration/newIntegration.cpp
+++ b/code/latte/integration/newIntegration.cpp
@@ -274,6 +274,8 @@ void integrateLinFormSum(ZZ& numerator, ZZ& denominator,
 		denominator *= to_ZZ(-1);
 		numerator *= to_ZZ(-1);
 	}
+	if (denominator == 0) //there are no terms (left): the integral is 0/1.
+		denominator = 1;
 }//integrateLinFormSum
 
 /* computes the integral of a product of powers of linear forms over a  simplex
@@ -511,6 +513,12 @@ void integrateMonomialSum(ZZ &a, ZZ &b, monomialSum &monomials,
 	it->setTrie(monomials.myMonomials, monomials.varCount);
 	decompose(it, forms); //decomposition
 	delete it;
+	if (forms.termCount == 0) //all terms cancelled
+	{
+		a = 0;
+		b = 1;
+		return;
+	}
 	BTrieIterator<RationalNTL, ZZ>* it2 = new BTrieIterator<RationalNTL, ZZ> ();
 	it2->setTrie(forms.myForms, forms.varCount);
 	integrateLinFormSum(a, b, it2, mySimplex);
-- 
2.43.0


From 06bc6d6e71ad90b6f69f50186770201a83c82dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 25/35] fix: the power 0 of a linear form that vanishes on the
 whole simplex integrated to 0 instead of the volume

---
 code/latte/integration/residue.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/latte/integration/residue.cpp b/code/latte/integration/residue.cpp
index a6bc614..b42f107 100644
--- a/code/latte/integration/residue.cpp
+++ b/code/latte/integration/residue.cpp
@@ -74,10 +74,11 @@ void computeResidue(int d, int M, const vec_ZZ &innerProDiff, const ZZ &p,
 	//cout << "d=" << d << "M=" << M << " innerprod=" << innerProDiff << "p= " << p << endl;
 	if (p == 0)
 	{
-		a = 0;
+		//the vertex vanishes: return 0, except for the power 0 of a form that vanishes everywhere, which is 1.
+		a = (M == 0 && IsZero(innerProDiff)) ? 1 : 0;
 		b = 1;
 		return;
-	}; //vertex vanishes, return 0;
+	};
 	int k, i, j;
 	int *counter = new int[d];
 					//counter counts number of appearances of each index[i]
-- 
2.43.0


From 0834ab2de9e78771707bfc9d95bc718974b912be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 26/35] fix: BlockIntegrate overflowed the factorial of linear
 form degrees above 12

---
 code/latte/integration/PolyRep.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/latte/integration/PolyRep.cpp b/code/latte/integration/PolyRep.cpp
index 28d0cef..1b7d136 100644
--- a/code/latte/integration/PolyRep.cpp
+++ b/code/latte/integration/PolyRep.cpp
@@ -174,7 +174,7 @@ void _parseLinForms(_FormSumConsumer<RationalNTL>* consumer, const string& line)
 	{
 		if (line[i] == '[')
 		{
-			int degreeFactorial;
+			ZZ degreeFactorial;
 			switch (flag)
 			{
 				case 0: //coefficient
@@ -210,7 +210,7 @@ void _parseLinForms(_FormSumConsumer<RationalNTL>* consumer, const string& line)
 						degreeFactorial *= j;
 						//coefficient *= j;
 					} //in _linFormSum, coefficient is assumed to be divided by the factorial of the form degree
-					coefficient *= to_ZZ(degreeFactorial);
+					coefficient *= degreeFactorial;
 					consumer->ConsumeLinForm(coefficient, degree, coefs);
 					flag = 0;
 					break;
-- 
2.43.0


From 8a49e8f2431b3b2fce86aa1659352f1bd7a7935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 27/35] fix: aggregate homogenized its input and used zero
 multipliers when all right-hand sides or coefficients are zero

---
 code/latte/aggregation/aggregation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/latte/aggregation/aggregation.cpp b/code/latte/aggregation/aggregation.cpp
index b706742..d3940b0 100644
--- a/code/latte/aggregation/aggregation.cpp
+++ b/code/latte/aggregation/aggregation.cpp
@@ -84,6 +84,10 @@ dd_MatrixPtr KannanAggregation(dd_MatrixPtr matrix,
   matrix->representation = dd_Inequality;
   int aggrow_index = new_num_rows - 1; // 0-based
   set_addelem(new_matrix->linset, aggrow_index + 1);
+  /* The multipliers must stay nonzero and distinct when all coefficients
+     (without the slacks) or all right-hand sides are zero. */
+  if (A_max < 1) A_max = 1;
+  if (b_max < 1) b_max = 1;
   mpz_class lambda = 3 * num_aggrows * (num_cols - 1) * A_max * b_max;
   cerr << "Kannan aggregation: Using lambda = " << lambda << endl;
   mpz_class lmp1 = pow(lambda, num_aggrows + 1);
@@ -133,7 +137,7 @@ int main(int argc, const char **argv)
 {
   if(argc < 2) usage();
 
-  dd_MatrixPtr matrix = ReadLatteStyleMatrix(cin, false, "standard input");
+  dd_MatrixPtr matrix = ReadLatteStyleMatrix(cin, false, false, "standard input");
 
   dd_rowset aggset;
   set_initialize(&aggset, matrix->rowsize);
-- 
2.43.0


From bf64368a26c8fd05e4edfbb33d6997ecb0278b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:37 +0000
Subject: [PATCH 28/35] fix: binary search optimisation rounded the LP bounds
 to floating point and gave wrong optima when they are attained on the whole
 polytope or large

---
 code/latte/binarySearchIP.cpp | 36 ++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index 08e1e0d..5fa3925 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -250,13 +250,32 @@ ZZ OptimalCheck(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs, vec
 
 /* ----------------------------------------------------------------- */
 
+/* The exact value of the linear function COST at POINT, rounded up. */
+static ZZ CeilOfValue(const rationalVector *point, const vec_ZZ &cost, int numOfVars)
+{
+  ZZ num, den;
+  num = 0;
+  den = 1;
+  for (int i = 0; i < numOfVars; i++) {
+    num = num * point->denominators()[i] + cost[i] * point->numerators()[i] * den;
+    den *= point->denominators()[i];
+  }
+  if (den < 0) {
+    num = -num;
+    den = -den;
+  }
+  return -((-num) / den);
+}
+
+/* ----------------------------------------------------------------- */
+
 ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars, char * min)
 {
       int i = 0, counter = 0;
       ZZ low, high, mid, Opt, TotalNumOfUniCones;
       rationalVector *Low_opt, *High_opt;
-      vec_RR Low_solution, High_solution, tmp_den, tmp_num, Rat_cost, Rat_cost2;
-      RR Rat_low, Rat_high;
+      vec_RR High_solution, tmp_den, tmp_num, Rat_cost;
+      RR Rat_high;
       vec_ZZ low_cost;
       // cerr << cost << endl;
       low_cost = -cost;
@@ -272,12 +291,10 @@ ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars
       //cerr << Low_opt ->denominators() << " " << High_opt->denominators()<< endl;
       cerr << "A optimal solution for LP relax.: ";
       printRationalVector(High_opt, numOfVars);
-      Low_solution.SetLength(numOfVars);
       High_solution.SetLength(numOfVars);
       tmp_den.SetLength(numOfVars);
       tmp_num.SetLength(numOfVars);
       Rat_cost.SetLength(numOfVars);
-      Rat_cost2.SetLength(numOfVars);
 
       for (i = 0; i < numOfVars; i++){
       	 conv(tmp_num[i], High_opt->numerators()[i]);
@@ -286,20 +303,13 @@ ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars
 	 conv(Rat_cost[i], cost[i]);
      		}
 
-      for (i = 0; i < numOfVars; i++){
-      	 conv(tmp_num[i], Low_opt->numerators()[i]);
-          conv(tmp_den[i], Low_opt->denominators()[i]);
-       	 Low_solution[i] = tmp_num[i]/tmp_den[i];
-     		}
-
       Rat_high = Rat_cost * High_solution;
-      Rat_low = (Rat_cost) * Low_solution;
       cerr << "The optimal value for LP relax.: " << Rat_high << endl << endl;
-      high = CeilToZZ(Rat_high);
+      high = CeilOfValue(High_opt, cost, numOfVars);
       Opt = OptimalCheckEqu(matrix, ineq, numOfVars, high, cost);
 
       high += 1;
-      low = CeilToZZ(Rat_low);
+      low = CeilOfValue(Low_opt, cost, numOfVars);
 
       if(high < low) {
         ZZ tmp_ZZ;
-- 
2.43.0


From c3613dad34b3c4338e4cd17b2731a635a6494ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:36 +0000
Subject: [PATCH 29/35] fix: cdd triangulation used non-simplicial cones when
 the random heights were not generic

---
 code/latte/barvinok/Triangulation.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/code/latte/barvinok/Triangulation.cpp b/code/latte/barvinok/Triangulation.cpp
index dfcad75..1496f24 100644
--- a/code/latte/barvinok/Triangulation.cpp
+++ b/code/latte/barvinok/Triangulation.cpp
@@ -246,6 +246,8 @@ int Triangulation_Load_Save (const mat_ZZ & Mat, const int & m, const int & n, c
   			system_with_error_check("rm -f tri.out");
 	}	
   
+  int count;
+  for (;;) {
   int face3 = 0, dim3 = 0;
   
   /////  read stuff from file
@@ -257,7 +259,7 @@ int Triangulation_Load_Save (const mat_ZZ & Mat, const int & m, const int & n, c
   /////// read stuff from file
   readCDDicdFileRudy(face2,numOfPoints,Result);
 
-  int count = 0;
+  count = 0;
   int ZZToInt = 0;
   for(int i = 0; i < face2; i++){
     if(neg[i] == 1 ){
@@ -282,6 +284,15 @@ int Triangulation_Load_Save (const mat_ZZ & Mat, const int & m, const int & n, c
       }
     }
   }
+    /* If the random heights were not generic, some cones are not simplicial; try other heights. */
+    if (List.size() <= (size_t) count * n || ((Flags & LOAD) && File_Present))
+      break;
+    cerr << "Triangulation: Heights were not generic, trying others." << endl;
+    List.clear();
+    writeCDDextFileRudy(m,n,Mat);
+    system_with_error_check(shell_quote(relocated_pathname(CDD_PATH)) + " tri.ext > tri.out");
+    system_with_error_check("rm -f tri.out");
+  }
 	
   	if ( (Flags & SAVE)  && ( !(Flags & LOAD) || File_Present == 0)  )
 	{
-- 
2.43.0


From c2bdcbb0948213228888b74653031819ef34e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:27 +0000
Subject: [PATCH 30/35] fix: count reported 0 lattice points for single points
 whose remaining inequalities hold trivially, when no full redundancy check is
 made

---
 code/latte/preprocess.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/code/latte/preprocess.cpp b/code/latte/preprocess.cpp
index 70a0b5c..be69f66 100644
--- a/code/latte/preprocess.cpp
+++ b/code/latte/preprocess.cpp
@@ -615,14 +615,19 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 	/*    printListVector(inequalities,(*numOfVars)+1); */
 	cerr << "New inequalities:\n";
 	printListVectorToFile(cerr, newInequalities, newNumOfVars + 1);
-	checkListVector(newInequalities, newNumOfVars);
 	if (newInequalities == NULL) {
-
-		cerr << "\n\n****  Total number of lattice points is: 0 ****\n" << endl;
-		ofstream out("numOfLatticePoints");
-		out << 0 << endl;
-		exit(0);
+		/* All inequalities hold on the whole affine hull. */
+		if (newNumOfVars == 1) {
+			cerr << "The number of lattice points is 1." << endl;
+			ofstream out("numOfLatticePoints");
+			out << 1 << endl;
+			exit(0);
+		} else {
+			cerr << "The polytope is not bounded." << endl;
+			exit(1);
+		}
 	}
+	checkListVector(newInequalities, newNumOfVars);
 	(*numOfVars) = newNumOfVars - 1;
 	return (newInequalities);
 }
-- 
2.43.0


From a38f49ad91a3747b51715d1fc1528814231f9403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:06 +0000
Subject: [PATCH 31/35] fix: count --dilation ignored the factor for cdd-style
 vertex input and for cone input

---
 code/latte/ReadPolyhedron.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index bf8a79f..93e3a79 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -418,6 +418,11 @@ ReadPolyhedronData::read_polyhedron(BarvinokParameters *params) {
 		THROW_LATTE(LattException::ue_FileNameMissing, 0);
 	}
 
+	if (dilation_const != 1 && (input_homog_cone || input_vertex_cones)) {
+		cerr << "Dilation unimplemented for cone input" << endl;
+		THROW_LATTE(LattException::ue_BadCommandLineOption, 0);
+	}
+
 	if (input_homog_cone)
 		return read_polyhedron_from_homog_cone_input(params);
 	else if (input_vertex_cones)
@@ -601,6 +606,14 @@ static void check_inequality_matrix(dd_MatrixPtr M, const string &filename) {
 	}
 }
 
+/* Multiply the coordinates of all generators by the dilation factor. */
+static void dilateVrepMatrix(dd_MatrixPtr M, int dilation_const) {
+	mpq_class factor = dilation_const;
+	for (int i = 0; i < M->rowsize; i++)
+		for (int j = 1; j < M->colsize; j++)
+			mpq_mul(M->matrix[i][j], M->matrix[i][j], factor.get_mpq_t());
+}
+
 Polyhedron *
 ReadPolyhedronData::read_polyhedron_hairy(BarvinokParameters *params) {
 	Polyhedron *Poly = NULL;
@@ -673,6 +686,7 @@ ReadPolyhedronData::read_polyhedron_hairy(BarvinokParameters *params) {
 
 	switch (M->representation) {
 	case dd_Generator: /* V-representation */
+		dilateVrepMatrix(M, dilation_const);
 		return PolyhedronFromVrepMatrix(M, /* homogenize: */dualApproach[0]
 				== 'y');
 	case dd_Inequality: /* H-representation */
-- 
2.43.0


From 0a5666d7002fe0656d82e463dfbd6d0a5aacfbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:24 +0000
Subject: [PATCH 32/35] fix: dilation factors that do not fit were taken for
 other ones

---
 code/latte/ReadPolyhedron.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 93e3a79..618a497 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -22,6 +22,9 @@
  */
 
 #include <cstring>
+#include <cstdlib>
+#include <cerrno>
+#include <climits>
 
 #include "CheckEmpty.h"
 #include "ReadLatteStyle.h"
@@ -135,6 +138,19 @@ void ReadPolyhedronData::show_options(ostream &stream) {
 			<< endl;
 }
 
+/* Factors that do not fit must not be taken for others. */
+static int parse_dilation_factor(const char *arg) {
+	char *end;
+	errno = 0;
+	long factor = strtol(arg, &end, 10);
+	if (end == arg || *end != 0 || errno != 0 || factor < 0
+			|| factor > INT_MAX) {
+		cerr << "Invalid dilation factor: " << arg << endl;
+		THROW_LATTE(LattException::ue_BadCommandLineOption, 0);
+	}
+	return factor;
+}
+
 bool ReadPolyhedronData::parse_option(const char *arg) {
 	/* Parse traditional LattE options. */
 	if (strncmp(arg, "vrep", 3) == 0)
@@ -172,7 +188,7 @@ bool ReadPolyhedronData::parse_option(const char *arg) {
 	/* Parse new options. */
 	else if (strncmp(arg, "--dilation=", 11) == 0) {
 		strcpy(dilation, "yes");
-		dilation_const = atoi(arg + 11);
+		dilation_const = parse_dilation_factor(arg + 11);
 	} else if (strcmp(arg, "--interior") == 0) {
 		cerr
 				<< "WARNING: Options `--interior' and `int' are broken for most methods."
@@ -245,7 +261,7 @@ bool ReadPolyhedronData::parse_option(const char *arg) {
 	} else if (strncmp(arg, "--", 2) != 0) {
 		// Regular argument, see if we expect one
 		if (expect_dilation_factor) {
-			dilation_const = atoi(arg);
+			dilation_const = parse_dilation_factor(arg);
 			expect_dilation_factor = false;
 		} else if (expect_filename) {
 			filename = arg;
-- 
2.43.0


From 440e642abd3ecc6d956805e2e07c170afee2ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:28 +0000
Subject: [PATCH 33/35] fix: linear forms with large coefficients exhausted
 memory

The trie that stores linear forms kept a child for every integer between
the smallest and the largest coefficient. Keep children only for the
coefficients that occur.
---
 code/latte/integration/burstTrie.hpp | 88 +++++++---------------------
 code/latte/integration/iterators.hpp | 16 ++---
 2 files changed, 30 insertions(+), 74 deletions(-)

diff --git a/code/latte/integration/burstTrie.hpp b/code/latte/integration/burstTrie.hpp
index 1f8d8b1..6137108 100644
--- a/code/latte/integration/burstTrie.hpp
+++ b/code/latte/integration/burstTrie.hpp
@@ -2,10 +2,13 @@
 
 
 
+//the children of a trie are kept in a list sorted by exponent; only exponents that occur have a child.
+template <class S>
 struct trieElem
 {
 	bool isTrie;
 	void* myVal;
+	S exponent;
 
 	trieElem* next;
 };
@@ -215,19 +218,14 @@ public:
 	BurstTrie()
 	{
 		//curIndex = -1;
-		range = NULL;
 		firstElem = NULL;
 	}
 
 	~BurstTrie()
 	{
 		//cout << "Destroying trie" << endl;
-		if (range)
-		{
-			delete[] range;
-		}
-			trieElem *temp = firstElem;
-			trieElem *old;
+			trieElem<S> *temp = firstElem;
+			trieElem<S> *old;
 			while (temp != NULL)
 			{
 				//cout << "Destroying trie element.." << endl;
@@ -241,7 +239,7 @@ public:
 				}
 				old = temp->next;
 				//destroy trieElem
-				free(temp);
+				delete temp;
 				temp = old;
 			}//while
 
@@ -258,24 +256,7 @@ public:
 		 cout << ", " << newExps[i];
 		 }
 		 cout << endl;*/
-		if (range == NULL)
-		{
-			range = new S[2];
-			range[0] = range[1] = newExps[0];
-			firstElem = (trieElem*) malloc(sizeof(trieElem));
-			firstElem->next = NULL;
-			firstElem->myVal = new BurstContainer<T, S> ();
-			firstElem->isTrie = false;
-		} else
-		{
-			checkRange(newExps[start]);
-		}
-
-		trieElem *curElem = firstElem;
-		for (S i = range[0]; i < newExps[start]; i++)
-		{
-			curElem = curElem->next;
-		}
+		trieElem<S> *curElem = findElem(newExps[start]);
 
 		if (curElem->isTrie)
 		{
@@ -303,52 +284,27 @@ public:
 		}
 	}
 
-	void checkRange(const S& myVal)
+	//returns the child for the exponent myVal, which is created if there is none.
+	trieElem<S>* findElem(const S& myVal)
 	{
-		if (myVal < range[0]) //new minimum
+		trieElem<S> **place = &firstElem;
+		while (*place && (*place)->exponent < myVal)
 		{
-			trieElem *temp = (trieElem*) malloc(sizeof(trieElem)); //new first element for myVal
-			trieElem *old = temp;
-			temp->next = NULL;
-			temp->myVal = new BurstContainer<T, S> ();
-			temp->isTrie = false;
-			for (S i = myVal + 1; i < range[0]; i++)
-			{
-				//create new element
-				temp->next = (trieElem*) malloc(sizeof(trieElem));
-				//advance to it
-				temp = temp->next;
-				//set pointer
-				temp->next = NULL;
-				//allocate container
-				temp->myVal = new BurstContainer<T, S> ();
-				temp->isTrie = false;
-			}
-			temp->next = firstElem;
-			//set new first element
-			firstElem = old;
-			range[0] = myVal;
-		} else if (myVal > range[1]) //new maximum
+			place = &(*place)->next;
+		}
+		if (*place == NULL || (*place)->exponent != myVal)
 		{
-			trieElem *temp = firstElem;
-			for (S i = range[0]; i < range[1]; i++)
-			{
-				temp = temp->next;
-			}
-			for (S i = range[1]; i < myVal; i++)
-			{
-				temp->next = (trieElem*) malloc(sizeof(trieElem));
-				temp = temp->next;
-				temp->next = NULL;
-				temp->myVal = new BurstContainer<T, S> ();
-				temp->isTrie = false;
-			}
-			range[1] = myVal;
+			trieElem<S> *temp = new trieElem<S> ();
+			temp->isTrie = false;
+			temp->myVal = new BurstContainer<T, S> ();
+			temp->exponent = myVal;
+			temp->next = *place;
+			*place = temp;
 		}
+		return *place;
 	}
 
 	friend class BTrieIterator<T, S> ;
 private:
-	S* range; //S can be a class or a primitive
-	trieElem *firstElem; //first element in the trie
+	trieElem<S> *firstElem; //first element in the trie; S can be a class or a primitive
 }; //BurstTrie
diff --git a/code/latte/integration/iterators.hpp b/code/latte/integration/iterators.hpp
index 3fe0158..af4f73b 100644
--- a/code/latte/integration/iterators.hpp
+++ b/code/latte/integration/iterators.hpp
@@ -15,7 +15,7 @@ public:
 		assert(myDim > 0);
 		myTrie = trie;
 		dimension = myDim;
-		triePath = new trieElem*[dimension];
+		triePath = new trieElem<S>*[dimension];
 		curTerm.exps = new S[dimension];
 		curTerm.length = dimension;
 	}
@@ -30,19 +30,20 @@ public:
 	BurstContainer<T, S>* nextContainer()
 	{
 		//cout << "Next container at depth " << curDepth << endl;
-		trieElem* nextElem;
+		trieElem<S>* nextElem;
 		if (curDepth < 0)
 		{
 			curDepth++;
 			nextElem = triePath[0] = myTrie->firstElem;
-			curTerm.exps[0] = myTrie->range[0];
+			if (nextElem)
+				curTerm.exps[0] = nextElem->exponent;
 			//cout << "!exp 0: " << curTerm.exps[0] << endl;
 		} else
 		{
 			nextElem = triePath[curDepth]->next;
-			curTerm.exps[curDepth]++;
 			while (nextElem)
 			{
+				curTerm.exps[curDepth] = nextElem->exponent;
 				//cout << "exp " << curDepth << ": " << curTerm.exps[curDepth] << endl;
 				if (nextElem->isTrie)
 				{
@@ -57,7 +58,6 @@ public:
 				}
 				//cout << "Skipping trie element " << curTerm.exps[curDepth] << endl;
 				nextElem = nextElem->next;
-				curTerm.exps[curDepth]++;
 			}
 			triePath[curDepth] = nextElem;
 		}
@@ -76,7 +76,7 @@ public:
 		return firstContainer(nextElem);
 	}
 
-	BurstContainer<T, S>* firstContainer(trieElem* myElem)
+	BurstContainer<T, S>* firstContainer(trieElem<S>* myElem)
 	{
 		//cout << "Looking for container at depth " << curDepth << endl;
 		if (myElem->isTrie)
@@ -84,7 +84,7 @@ public:
 			curDepth++;
 			triePath[curDepth] = ((BurstTrie<T, S>*) myElem->myVal)->firstElem;
 			curTerm.exps[curDepth]
-					= ((BurstTrie<T, S>*) myElem->myVal)->range[0];
+					= triePath[curDepth]->exponent;
 			return firstContainer(((BurstTrie<T, S>*) myElem->myVal)->firstElem);
 		} else
 		{
@@ -148,7 +148,7 @@ private:
 	int dimension;
 
 	BurstTerm<T, S>* storedTerm; //pointer to next stored term in current container
-	trieElem** triePath;		 //array of pointers (not a table)
+	trieElem<S>** triePath;		 //array of pointers (not a table)
 	int curDepth;
 };
 
-- 
2.43.0


From b1cc7ea004a5805be0e7ab98b49ee4dbf590afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:28 +0000
Subject: [PATCH 34/35] fix: constant heights on rays without a common
 hyperplane were taken for a trivial subdivision

Equal heights give the trivial subdivision only if they are a linear
function on the rays; otherwise 4ti2 has to compute it.
---
 code/latte/triangulation/RegularTriangulationWith4ti2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/triangulation/RegularTriangulationWith4ti2.cpp b/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
index c102158..d814c05 100644
--- a/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
+++ b/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
@@ -130,7 +130,7 @@ void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 
 	int rank;
 	bool lindep_height = lindep_heights_p(cone, Parameters, heights, rank, false);
-	if (!seen_different_heights)
+	if (!seen_different_heights && lindep_height)
 	{
 		/* This will be a trivial polyhedral subdivision. */
 		//cerr << "Trivial test: Lifting heights yield trivial polyhedral subdivision." << endl;
-- 
2.43.0


From 860efd2f8c545b32b6a693cd89c18c0692c3ce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:48 +0000
Subject: [PATCH 35/35] fix: linearly dependent equations without an integer
 solution were taken for solvable

Without a redundancy check the equations may be dependent; the test
whether they have an integer solution was then skipped (and read beyond
the matrices when there are more equations than variables).
---
 code/latte/preprocess.cpp | 49 ++++++++++++---------------------------
 1 file changed, 15 insertions(+), 34 deletions(-)

diff --git a/code/latte/preprocess.cpp b/code/latte/preprocess.cpp
index be69f66..0541b07 100644
--- a/code/latte/preprocess.cpp
+++ b/code/latte/preprocess.cpp
@@ -358,10 +358,9 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 	 U contains the unimodular transformation matrix, and
 	 H contains the Hermite normal form.
 	 We have A.U = H. */
-	mat_ZZ UU, HH, HHH;
+	mat_ZZ UU, HH;
 	UU.SetDims(*numOfVars, *numOfVars);
 	HH.SetDims(numOfRows, *numOfVars);
-	HHH.SetDims(numOfRows, numOfRows);
 
 	int counter = 0;
 	for (i = 0; i < *numOfVars; i++) {
@@ -379,26 +378,9 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 		}
 	}
 
-	for (i = 0; i < numOfRows; i++) {
-		for (j = 0; j < numOfRows; j++) {
-			HHH[i][j] = HH[i][j];
-		}
-	}
-
 	// cerr << HH << UU << endl;
 	//  cerr << rhs << endl;
-	ZZ DD, zeros;
-	mat_ZZ invHH;
-	inv(DD, invHH, HHH);
-	//  cerr <<  invHH <<endl << rhs << endl << DD << endl;
-	vec_ZZ sol2;
 	sol = createVector(*numOfVars);
-	sol2 = createVector(*numOfVars);
-	if (DD != 0) {
-	  vec_ZZ solb = invHH * rhs;
-	  for (i = 0; i < solb.length(); i++)
-	    sol2[i] = solb[i];
-	}
 
 	for (i = 0; i < (*numOfVars); i++)
 		sol[i] = 0;
@@ -408,8 +390,10 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 	//    cerr << "numOfVars " << *numOfVars << endl;
 
 	indSol = 0;
+	/* Dependent equations come last in the Hermite normal form. */
+	bool solvable = true;
 	for (i = 0; i < numOfRows; i++) {
-		if (H[(*numOfVars) * i + i] != 0) {
+		if (i < numOfIndependentRows && H[(*numOfVars) * i + i] != 0) {
 			//    cerr << "numOfRows " << numOfRows << endl;
 			//    cerr << "numOfVars " << *numOfVars << endl;
 			//    cerr << "lenOfMatrix " << lenOfMatrix << endl;
@@ -418,29 +402,26 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 			//  	   << H[(*numOfVars)*i+i] << endl;
 			// cerr << "Mmm..." << endl;
 			sol[i] = rhs[i] / H[(*numOfVars) * i + i];
+			if (sol[i] * H[(*numOfVars) * i + i] != rhs[i])
+				solvable = false;
 			indSol++;
 			for (j = i + 1; j < numOfRows; j++) {
 				rhs[j] = rhs[j] - sol[i] * H[j * (*numOfVars) + i];
 				//	H[j*(*numOfVars)+i]=0;
 			}
-		}
+		} else if (rhs[i] != 0)
+			solvable = false;
 	}
 	cerr << "sol:\n";
 	//    int flag_sol = 0;
 	printVectorToFile(cerr, sol, *numOfVars);
-	if (DD != 0) {
-		for (i = 0; i < *numOfVars; i++) {
-			zeros = abs(sol2[i] - sol[i] * DD);
-			if (zeros != 0) {
-				cerr << "Integrally empty polytope." << endl;
-				cerr << "\n\n**** Total number of lattice points: 0 ****"
-						<< endl << endl;
-				ofstream OutZero("numOfLatticePoints");
-				OutZero << 0 << endl;
-				exit(0);
-			}
-			zeros = 0;
-		}
+	if (!solvable) {
+		cerr << "Integrally empty polytope." << endl;
+		cerr << "\n\n**** Total number of lattice points: 0 ****"
+				<< endl << endl;
+		ofstream OutZero("numOfLatticePoints");
+		OutZero << 0 << endl;
+		exit(0);
 	}//cerr << sol << endl;
 	particularSolution = createVector(*numOfVars);
 	for (i = 0; i < (*numOfVars); i++)
-- 
2.43.0

