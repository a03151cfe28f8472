From 301cbce05211f45f3c41d6a7ea9ae08b346320db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 01/18] fix: learnClause returned no value from a non-void
 function

---
 bitvec/Formula.cc | 2 ++
 src/Formula.cc    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 7d23ad9..2d6c2a1 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -369,6 +369,8 @@ Clause* Formula::learnClause ( Clause * clause ) {
 			VARLIST[i] -> VSIDS_SCORE[j] /=2;
 		}
 	}
+
+	return clause;
 }
 
 // Corresponding functions for watched literals version of the algorithm:
diff --git a/src/Formula.cc b/src/Formula.cc
index 289c321..c61f55a 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -832,6 +832,8 @@ Clause* Formula::learnClause ( Clause * clause ) {
 			}
 		}
 	}
+
+	return clause;
 }
 
 int Formula::backtrackLevel ( Clause * learnedClause ) {
-- 
2.43.0


From cae2b28045d34ae772e89d11b1ea3d407af9fcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 02/18] fix: repeated literals in an input clause made -wl
 report UNSAT for satisfiable input

---
 src/Formula.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Formula.cc b/src/Formula.cc
index c61f55a..78dc447 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -144,6 +144,9 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 					{
 						//add it to clause_list's atom_list
 						temp_atom = Literal(var, ch, val);
+						//a literal repeated in the line occurs once in the clause
+						if(hasAtom(temp_clause, temp_atom))
+							continue;
 						temp_clause->addAtom(temp_atom);
 
 						//increment the index representing value so that
-- 
2.43.0


From d86a8ca99ff78a91b36b451ec3ea9d646a2a146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 03/18] fix: an input clause without literals was reported SAT
 or crashed the solver

---
 bitvec/Formula.cc | 8 ++++++++
 src/Formula.cc    | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 2d6c2a1..b0ccf29 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -167,6 +167,14 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 			}while(*lp);
 			CLAUSELIST.push_back(temp_clause);
 
+			//a clause without literals cannot be satisfied
+			if (temp_clause->ATOM_LIST.size() == 0) {
+				CONFLICT = true;
+				CONFLICTINGCLAUSE = clause_num;
+				++clause_num;
+				continue;
+			}
+
 			for (int i=0;i<temp_clause->ATOM_LIST.size();i++) {
 				Literal lit = temp_clause->ATOM_LIST[i];
 				for (int j=0;j<VARLIST[lit.VAR]->DOMAINSIZE;j++) {
diff --git a/src/Formula.cc b/src/Formula.cc
index 78dc447..e620d60 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -183,6 +183,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 			}while(*lp);
 			CLAUSELIST.push_back(temp_clause);
 
+			//a clause without literals cannot be satisfied
+			if (temp_clause->ATOM_LIST.size() == 0) {
+				CONFLICT = true;
+				CONFLICTINGCLAUSE = clause_num;
+			}
+
 			if (temp_clause->ATOM_LIST.size() == 1) {
 				UNITLIST.push_back(clause_num);
 			}
@@ -190,7 +196,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 			// with watched literals option, assign first two literals in the clause to watched1 and watched2
 
 
-			if ( WATCH ) {
+			if ( WATCH && temp_clause -> ATOM_LIST.size() > 0 ) {
 
 				Literal watched1 = temp_clause -> ATOM_LIST[0];
 				temp_clause -> WATCHED[0] = watched1;
-- 
2.43.0


From 9ccdbd22c7c1950c1ae7592da0b03ce62793283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 04/18] fix: blank input lines were read as empty clauses

---
 bitvec/Formula.cc      | 6 ++++++
 src/Boolean2Finite.cc  | 6 ++++++
 src/Formula.cc         | 6 ++++++
 src/LinearEncode.cc    | 6 ++++++
 src/QuadraticEncode.cc | 6 ++++++
 5 files changed, 30 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index b0ccf29..3484172 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -117,6 +117,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 				cout << "Error: domain exceeds MAX_DOMAIN"<<endl;
 			}
 		}
+		//else if line is blank
+		else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+		{
+			//do nothing
+			;
+		}
 		//else its clause lines
 		else
 		{
diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 89aef7b..0700be4 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -62,6 +62,12 @@ void Boolean2Finite(CommandLine * cline)
 	  outfile.write(line_buffer, strlen(line_buffer));
 	  outfile.put('\n');
 	}
+      //else if line is blank
+      else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+	{
+	  //do nothing
+	  ;
+	}
       //else its variables
       else
 	{
diff --git a/src/Formula.cc b/src/Formula.cc
index e620d60..fa02467 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -115,6 +115,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 			temp_var = new Variable(var, val);
 			VARLIST.push_back(temp_var);
 		}
+		//else if line is blank
+		else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+		{
+			//do nothing
+			;
+		}
 		//else its clause lines
 		else
 		{
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index cede5b9..53ecad1 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -87,6 +87,12 @@ void LinearEncode(CommandLine * cline)
 	  new_num_clause += 4*(val-2)+3+1;
 	  domain[var] = val;
 	}
+      //else if line is blank
+      else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+	{
+	  //do nothing
+	  ;
+	}
       //else its variables
       else
 	{
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 27e539c..b276e62 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -88,6 +88,12 @@ void QuadraticEncode(CommandLine * cline)
 	  num_clause += (Fact(val)/(Fact(val-2)*Fact(2)));
 	  num_clause += 1;
 	}
+      //else if line is blank
+      else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+	{
+	  //do nothing
+	  ;
+	}
       //else its variables
       else
 	{
-- 
2.43.0


From 03daf79dd99485753782a397cca9c8580f58c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 05/18] fix: variables with a single domain value were left
 open, or assigned no value at all, in models reported SAT

---
 src/Formula.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/Formula.cc b/src/Formula.cc
index fa02467..8f87e3d 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -223,6 +223,27 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		}
 	}
 
+	//a variable with a single domain value has to take that value
+	for(unsigned int i = 1; i < VARLIST.size(); i++)
+	{
+		if(VARLIST[i]->DOMAINSIZE == 1)
+		{
+			temp_clause = new Clause(1);
+			temp_atom = Literal(i, true, 0);
+			temp_clause->addAtom(temp_atom);
+			if(WATCH)
+			{
+				temp_clause->WATCHED[0] = temp_atom;
+				VARLIST[i]->addRecord(clause_num, 0, true);
+			}
+			else
+				VARLIST[i]->ATOMRECPOS[0].push_back(clause_num);
+			CLAUSELIST.push_back(temp_clause);
+			UNITLIST.push_back(clause_num);
+			++clause_num;
+		}
+	}
+
 	//closing file
 	infile.close();
 	TIME_E = GetTime();
-- 
2.43.0


From 0e6e370e92334f16db2254fa531cac3645dbb179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 06/18] fix: bitvec: literals over single-valued variables that
 no value satisfies led to wrong SAT answers

---
 bitvec/Formula.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 3484172..f3c9602 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -159,8 +159,10 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 						}
 
 						//add it to clause_list's atom_list
+						//a literal that no value satisfies adds nothing to the clause
 						temp_atom = Literal(var, vals);
-						temp_clause->addAtom(temp_atom);
+						if(vals.any())
+							temp_clause->addAtom(temp_atom);
 
 						//increment the index representing value so that
 						//we can keep track of number of occurrences of each
-- 
2.43.0


From 1765f5e2da498d55b01291e7a801d45c0904f03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 07/18] fix: bitvec: unit clauses have no second watched
 literal; reading it indexed VARLIST out of bounds

---
 bitvec/Formula.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index f3c9602..a9276dc 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -406,12 +406,12 @@ inline void Formula::watchedUpdateVar ( int var ) {
 		next = current->next;
 
 		if (sat(CLAUSELIST[current->c_num]->WATCHED[0])!=1) {
-			if (sat(CLAUSELIST[current->c_num]->WATCHED[1])==1) {
+			if (CLAUSELIST[current->c_num]->ATOM_LIST.size() > 1 && sat(CLAUSELIST[current->c_num]->WATCHED[1])==1) {
 				Literal lit = CLAUSELIST[current->c_num]->WATCHED[1];
 				CLAUSELIST[current->c_num]->WATCHED[1] = CLAUSELIST[current->c_num]->WATCHED[0];
 				CLAUSELIST[current->c_num]->WATCHED[0] = lit;
 			} else {
-				if (CLAUSELIST[current->c_num]->WATCHED[1].VAR == var) {
+				if (CLAUSELIST[current->c_num]->ATOM_LIST.size() > 1 && CLAUSELIST[current->c_num]->WATCHED[1].VAR == var) {
 					Literal lit = CLAUSELIST[current->c_num]->WATCHED[1];
 					CLAUSELIST[current->c_num]->WATCHED[1] = CLAUSELIST[current->c_num]->WATCHED[0];
 					CLAUSELIST[current->c_num]->WATCHED[0] = lit;
@@ -588,7 +588,7 @@ void Formula::SwapPointer ( VARRECORD* current ) {
 
 	bool unitClause = true;
 
-	if ( sat ( watched2 )  == 2 ) {
+	if ( clause->ATOM_LIST.size() > 1 && sat ( watched2 )  == 2 ) {
 
 		// if watched2 unassigned, watched1 falsified
 
-- 
2.43.0


From 33d71ebe11e987575ba257f88bd892e2179a9e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 08/18] fix: bitvec: watchedUndoTheory ignored its level
 parameter, so restarts undid too little

---
 bitvec/Formula.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index a9276dc..4250c99 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -429,7 +429,7 @@ void Formula::watchedUndoTheory ( int level ) { // FIXME  fixed ?
 
 	for ( unsigned int  i = 1; i < VARLIST.size(); i++ ) {
 
-		while (!VARLIST[i]->graphNodes.empty() && VARLIST[i]->graphNodes.back().level>LEVEL) {
+		while (!VARLIST[i]->graphNodes.empty() && VARLIST[i]->graphNodes.back().level>level) {
 
 			VARLIST[i]->CURRENT_DOMAIN = VARLIST[i]->CURRENT_DOMAIN | VARLIST[i]->graphNodes.back().values;
 
-- 
2.43.0


From b19eeacbf2d19c0988e80ac385ead726585b8e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 09/18] fix: LinearEncode dropped the negation of literals of
 two-valued variables and miscounted their variables and clauses

---
 src/LinearEncode.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 53ecad1..6ec9abc 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -82,9 +82,13 @@ void LinearEncode(CommandLine * cline)
       else if(line_buffer[0] == 'd')
 	{
 	  temp = sscanf(line_buffer, "d %d %d", &var, &val);
-	  count++;
-	  new_num_var += 2*val-1;
-	  new_num_clause += 4*(val-2)+3+1;
+	  //variables with two values take one boolean variable and no extra clause
+	  if(val > 2)
+	    {
+	      count++;
+	      new_num_var += 2*val-1;
+	      new_num_clause += 4*(val-2)+3+1;
+	    }
 	  domain[var] = val;
 	}
       //else if line is blank
@@ -183,7 +187,7 @@ void LinearEncode(CommandLine * cline)
 			}
 		      else
 			{
-			  if(val == 1)
+			  if((val == 1) == (ch == '='))
 			    {
 			      var = index[var];
 			      outfile<<var<<" ";
-- 
2.43.0


From 01b4a694fffc06d5042b2d79999b582c6fb4e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 10/18] fix: LinearEncode let a variable with a single domain
 value take another one

---
 src/LinearEncode.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 6ec9abc..5702ba7 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -89,6 +89,8 @@ void LinearEncode(CommandLine * cline)
 	      new_num_var += 2*val-1;
 	      new_num_clause += 4*(val-2)+3+1;
 	    }
+	  else if(val == 1)
+	    new_num_clause++;
 	  domain[var] = val;
 	}
       //else if line is blank
@@ -145,6 +147,11 @@ void LinearEncode(CommandLine * cline)
 			  outfile<<var_t1<<" "<<var_t2<<" 0\n";
 			}
 		    }
+		  //the only value of a variable has to be taken
+		  else if(domain[i] == 1)
+		    {
+		      outfile<<-(index[i])<<" 0"<<endl;
+		    }
 		  else
 		    {
 		      //do nothing
-- 
2.43.0


From 54733d0563d1f01ca6874fbfc8146c5b2f3f7ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 11/18] fix: QuadraticEncode counted clauses with overflowing
 factorials: wrong header from domain size 13, division by zero later

---
 src/QuadraticEncode.cc | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index b276e62..9b76b0f 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -9,16 +9,6 @@
 #include <cstring>
 using namespace std;
 //**********************************************************************//
-//Factorial
-//Computes the factorial of a number
-inline int Fact(int n)
-{
-  int temp = 1;
-  for(int x=1; x<n+1; x++)
-    temp *= x;
-  return temp;
-}
-
 //QuadraticEncode
 //This function converts a finite domain file into a boolean domain
 //using the Quadratic Encoding technique
@@ -85,7 +75,7 @@ void QuadraticEncode(CommandLine * cline)
 	  temp_var = new Variable(var, val);
 	  VAR_LIST.push_back(temp_var);
 	  num_var += val;
-	  num_clause += (Fact(val)/(Fact(val-2)*Fact(2)));
+	  num_clause += val*(val-1)/2;
 	  num_clause += 1;
 	}
       //else if line is blank
-- 
2.43.0


From ec674f65aff09751fbfd4a91f227c2374655c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 12/18] fix: Boolean2Finite wrote no domain line for variables
 without occurrences, which the solver then indexed out of bounds

---
 src/Boolean2Finite.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 0700be4..f4421ff 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -20,6 +20,7 @@ void Boolean2Finite(CommandLine * cline)
   char word_buffer[MAX_LINE];
   int line_num = 0;
   int variable = 0;
+  int num_var = 0;
   set<int> variables;
   vector <vector<int> > data;
 
@@ -59,6 +60,7 @@ void Boolean2Finite(CommandLine * cline)
       //else if line is p cnf var_num clause_num - just write
       else if(line_buffer[0] == 'p')
 	{
+	  sscanf(line_buffer, "p %*s %d", &num_var);
 	  outfile.write(line_buffer, strlen(line_buffer));
 	  outfile.put('\n');
 	}
@@ -120,13 +122,12 @@ void Boolean2Finite(CommandLine * cline)
     }
 
   //now writing back the domain information
-  set<int>::iterator start = variables.begin();
-  set<int>::iterator end = variables.end();
-  end--;
-  for( ; start != end; )
+  //every variable needs a domain line, also those that occur in no clause
+  if(!variables.empty() && *variables.rbegin() > num_var)
+    num_var = *variables.rbegin();
+  for(int x=1; x<=num_var; x++)
     {
-      ++start;
-      outfile<<"d "<<*start<<" 2"<<endl;
+      outfile<<"d "<<x<<" 2"<<endl;
     }
 
   int ovsize = data.size();
-- 
2.43.0


From 1bc1cdcf1df707d7b9163bc2636e287b2996fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 13/18] fix: Boolean2Finite did not terminate the clauses it
 writes with 0

---
 src/Boolean2Finite.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index f4421ff..930a4ce 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -149,7 +149,7 @@ void Boolean2Finite(CommandLine * cline)
 	      outfile<<var<<"=1 ";
 	    }
 	}
-      outfile<<endl;
+      outfile<<"0"<<endl;
     }
   //closing file
   infile.close();
-- 
2.43.0


From b41f02bca3ad147bc302b1710da257994a5ca9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 14/18] fix: -genben -drand 1 divided by zero when it drew
 domain size 0

---
 src/GenBenFunc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 5a9b324..e578b95 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -56,7 +56,7 @@ void GenBenFin(CommandLine * cline)
       for(x=0; x<cline->NUM_VAR; x++)
 	{
 	  VARIABLES[x].VAR = x;
-	  VARIABLES[x].VAL = rand() % cline->DOMAIN_SIZE;
+	  VARIABLES[x].VAL = rand() % cline->DOMAIN_SIZE + 1;
 	}
     }
 
-- 
2.43.0


From 128e3d80a6eddc5b3f3cc3e26ff693cecc05738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 15/18] fix: -genben -bool 1 -sat 1 could generate
 unsatisfiable problems

---
 src/GenBenFunc.cc | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index e578b95..f20b3dd 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -178,15 +178,8 @@ void GenBenBool(CommandLine * cline)
 	  //if satisfiable
 	  if(cline->SAT_UNSAT && x==0)
 	    {
-	      //assigning variable to clause
-	      if(rand()%2)
-		{
-		  BCLAUSE_LIST[y][x] = BSOLN[(rand() % cline->NUM_VAR)+1];
-		}
-	      else
-		{
-		  BCLAUSE_LIST[y][x] = -1 * BSOLN[(rand() % cline->NUM_VAR)+1];
-		}
+	      //assigning a literal that the solution satisfies to clause
+	      BCLAUSE_LIST[y][x] = BSOLN[(rand() % cline->NUM_VAR)+1];
 	    }
 
 	  //else unsatisfiable
-- 
2.43.0


From 74fe0271a8afb35637b3d96f5e78eb970a18c2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 16/18] fix: the documented option -restarts was ignored

---
 bitvec/Global.cc | 2 +-
 src/Global.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitvec/Global.cc b/bitvec/Global.cc
index 13de27b..1ac33e1 100644
--- a/bitvec/Global.cc
+++ b/bitvec/Global.cc
@@ -125,7 +125,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 		{
 			for(current = 2; current < argc; current++)
 			{
-				if (!strcmp(argv[current], "-restart"))
+				if (!strcmp(argv[current], "-restart") || !strcmp(argv[current], "-restarts"))
 					cline->RESTARTS = atoi(argv[++current]);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
diff --git a/src/Global.cc b/src/Global.cc
index 666b4d3..4ff0ad0 100644
--- a/src/Global.cc
+++ b/src/Global.cc
@@ -315,7 +315,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 		{
 			for(current = 2; current < argc; current++)
 			{
-				if (!strcmp(argv[current], "-restart"))
+				if (!strcmp(argv[current], "-restart") || !strcmp(argv[current], "-restarts"))
 					cline->RESTARTS = atoi(argv[++current]);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
-- 
2.43.0


From 31977740211972a6ebfe04c7ef83c9efd6fec4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 17/18] fix: the encoders did not read the documented problem
 line p mvcnf

---
 src/LinearEncode.cc    | 2 +-
 src/QuadraticEncode.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 5702ba7..d50877b 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -69,7 +69,7 @@ void LinearEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer, "p cnf %d %d", &var, &val);
+	  temp = sscanf(line_buffer, "p %*s %d %d", &var, &val);
 	  num_var = var;
 	  num_clause = val;
 	  domain = new int[var+1];
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 9b76b0f..efee4ae 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -65,7 +65,7 @@ void QuadraticEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer, "p cnf %d %d", &var, &val);
+	  temp = sscanf(line_buffer, "p %*s %d %d", &var, &val);
 	  num_clause += val;
 	}
       //else if line is d var# domsize
-- 
2.43.0


From 443d1ba65aff12b2a4286323217cf33c70700434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 18/18] fix: input from the first line of 3000 characters on
 was silently ignored

---
 bitvec/Formula.cc      | 10 +++++++---
 src/Boolean2Finite.cc  | 10 +++++++---
 src/Formula.cc         | 10 +++++++---
 src/LinearEncode.cc    | 10 +++++++---
 src/QuadraticEncode.cc | 10 +++++++---
 5 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 4250c99..2139a9f 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -61,8 +61,8 @@ Formula::Formula ( CommandLine * cline ) {
 void Formula::BuildFormula ( CommandLine* cline ) {
 	//local variables
 	ifstream infile;
-	char line_buffer[3000];
-	char word_buffer[3000];
+	string line;
+	string word;
 	int clause_num = 0;
 	int atom_num = 0;
 	int var, val;
@@ -91,8 +91,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//now reading each line from the infile and if needed to convert
 	//then converting it and writing to outfile or just writing directly
-	while(infile.getline(line_buffer, 3000))
+	while(getline(infile, line))
 	{
+		//lines may have any length
+		word.assign(line.size() + 1, '\0');
+		char * line_buffer = &line[0];
+		char * word_buffer = &word[0];
 		temp_clause = new Clause(cline->CLAUSE_SIZE);
 		//if line is comment - just write
 		if(line_buffer[0] == 'c')
diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 930a4ce..606af54 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -16,8 +16,8 @@ void Boolean2Finite(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[MAX_LINE];
-  char word_buffer[MAX_LINE];
+  string line;
+  string word;
   int line_num = 0;
   int variable = 0;
   int num_var = 0;
@@ -48,8 +48,12 @@ void Boolean2Finite(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, MAX_LINE))
+  while(getline(infile, line))
     {
+      //lines may have any length
+      word.assign(line.size() + 1, '\0');
+      char * line_buffer = &line[0];
+      char * word_buffer = &word[0];
       ++line_num;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
diff --git a/src/Formula.cc b/src/Formula.cc
index 8f87e3d..8b05c11 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -63,8 +63,8 @@ Formula::Formula ( CommandLine * cline ) {
 void Formula::BuildFormula ( CommandLine* cline ) {
 	//local variables
 	ifstream infile;
-	char line_buffer[3000];
-	char word_buffer[3000];
+	string line;
+	string word;
 	int clause_num = 0;
 	int atom_num = 0;
 	int var, val;
@@ -93,8 +93,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//now reading each line from the infile and if needed to convert
 	//then converting it and writing to outfile or just writing directly
-	while(infile.getline(line_buffer, 3000))
+	while(getline(infile, line))
 	{
+		//lines may have any length
+		word.assign(line.size() + 1, '\0');
+		char * line_buffer = &line[0];
+		char * word_buffer = &word[0];
 		temp_clause = new Clause(cline->CLAUSE_SIZE);
 		//if line is comment - just write
 		if(line_buffer[0] == 'c')
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index d50877b..63b26e8 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -19,8 +19,8 @@ void LinearEncode(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[3000];
-  char word_buffer[3000];
+  string line;
+  string word;
   int num_clause = 0;
   int num_var = 0;
   int new_num_clause = 0;
@@ -57,8 +57,12 @@ void LinearEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, 3000))
+  while(getline(infile, line))
     {
+      //lines may have any length
+      word.assign(line.size() + 1, '\0');
+      char * line_buffer = &line[0];
+      char * word_buffer = &word[0];
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index efee4ae..fd548eb 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -17,8 +17,8 @@ void QuadraticEncode(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[3000];
-  char word_buffer[3000];
+  string line;
+  string word;
   int num_clause = 0;
   int num_var = 0;
   int var, val;
@@ -53,8 +53,12 @@ void QuadraticEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, 3000))
+  while(getline(infile, line))
     {
+      //lines may have any length
+      word.assign(line.size() + 1, '\0');
+      char * line_buffer = &line[0];
+      char * word_buffer = &word[0];
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
-- 
2.43.0

