From c6473d5c1f5ca84dc15374665ab83adda78a1db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:48 +0000
Subject: [PATCH 01/30] fix: keep the constraint terms in the right-hand side
 of Benders cuts

When the objective is nonlinear, getBendersCut overwrote the right-hand side
accumulated from the dual-weighted constraint linearizations with -f, yielding
an invalid cut that could remove the optimum in B-QG/B-Hyb/B-Ecp.
---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 7271c30..890788d 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2176,7 +2176,7 @@ OsiTMINLPInterface::getBendersCut(OsiCuts &cs,
     double f;
     problem_to_optimize_->eval_f(n, x, 1, f);
 
-    ub = -f;
+    ub -= f;
     //double minCoeff = 1e50;
     for(int i = 0; i<n ; i++) {
       if(cleanNnz(obj[i],colLower[i], colUpper[i], -getInfinity(), 0,
-- 
2.43.0


From b8963b7a47bdfd2f46f14e120660f4e436f08379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:48 +0000
Subject: [PATCH 02/30] fix: do not fathom a node whose LP solution is merely
 close to the checked integer point

OaFeasibilityChecker compared the LP solution to the NLP solution with a
tolerance of 0.1, so an LP solution with a fractional integer variable (e.g.
0.09) was taken for the same integer point and the node was fathomed.
---
 src/Algorithms/OaGenerators/BonOaFeasChecker.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index 1149a5d..6955c40 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -101,7 +101,11 @@ namespace Bonmin
       //	  if(!fixed)//fathom on bounds
       //           milpBound = 1e200;
       if (feasible) {
-        changed = isDifferentOnIntegers(*nlp_, objects_, nObjects_,
+        //a fractional lp solution is not the integer point which was just checked
+        branch_info.solution_ = lp->getColSolution();
+        changed = !integerFeasible(*lp,branch_info, parameters_.cbcIntegerTolerance_,
+                                   objects_, nObjects_) ||
+                  isDifferentOnIntegers(*nlp_, objects_, nObjects_,
                                         0.1,
                                         nlp_->getColSolution(), lp->getColSolution());
       }
-- 
2.43.0


From 3f57bb73b782325a6fb64e789024fc32931e1734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:33 +0000
Subject: [PATCH 03/30] fix: keep a node infeasible when a strong branching
 candidate is infeasible both ways

---
 src/Algorithms/Branching/BonChooseVariable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 02f0b9d..3a464cd 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -919,6 +919,8 @@ namespace Bonmin
         //break; // exit loop
       } else if (status0==1||status1==1) {
         numberStrongFixed_++;
+        // a candidate infeasible both ways makes the node infeasible
+        if (returnCode >= 0)
   	returnCode=1;
       }
       bool hitMaxTime = ( CoinCpuTime()-timeStart > info->timeRemaining_)
-- 
2.43.0


From c36bb012e302348a578deda198086b33a69af77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:31 +0000
Subject: [PATCH 04/30] fix: do not abort in the strong branching look-ahead
 when a branch is infeasible or unfinished

---
 src/Algorithms/Branching/BonChooseVariable.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 3a464cd..f7b4c50 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -930,8 +930,7 @@ namespace Bonmin
         break;
       }
       // stop if look ahead heuristic tells us so
-      if (!isRoot && numberLookAhead_) {
-	assert(status0==0 && status1==0);
+      if (!isRoot && numberLookAhead_ && status0==0 && status1==0) {
 	double upEstimate = result->upChange();
 	double downEstimate = result->downChange();
 	double MAXMIN_CRITERION = maxminCrit(info);
-- 
2.43.0


From 2b818aef7fb4133f3173921971f6025e716a2228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:31 +0000
Subject: [PATCH 05/30] fix: order nodes in the enlarging phase of
 dfs-dive-dynamic instead of throwing

---
 src/CbcBonmin/BonDiver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 2f3054e..ebac1b4 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -817,7 +817,7 @@ namespace Bonmin
     assert(comparisonDive_);
     assert(comparisonBound_);
     CbcDfsDiver::ComparisonModes mode = diver_->getComparisonMode();
-    if (mode == CbcDfsDiver::FindSolutions) {
+    if (mode == CbcDfsDiver::Enlarge || mode == CbcDfsDiver::FindSolutions) {
       return comparisonDive_->test(x,y);
     }
     else if (mode == CbcDfsDiver::CloseBound) {
-- 
2.43.0


From ca2546b9f43e1a0b51405589f7cec53060ea970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:59 +0000
Subject: [PATCH 06/30] fix: do not drop a node in dfs-dive-dynamic once diving
 has stopped

---
 src/CbcBonmin/BonDiver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index ebac1b4..949811e 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -599,7 +599,7 @@ namespace Bonmin
     }
     if (mode_ != CbcDfsDiver::FindSolutions) {
       assert(dive_.empty());
-      CbcTree::bestNode(cutoff);
+      return CbcTree::bestNode(cutoff);
     }
     assert(nBacktracks_ < maxDiveBacktracks_);
     CbcNode * node = NULL;
-- 
2.43.0


From 76eef39199d81c8f8d8b4a753317ce5344017b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:53 +0000
Subject: [PATCH 07/30] fix: outer approximation decomposition aborts when the
 problem has nothing nonlinear or its optimum is zero

---
 src/Algorithms/OaGenerators/BonOACutGenerator2.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index 33d9c80..eec71ab 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -147,7 +147,7 @@ namespace Bonmin
         // Update the cutoff
         ub = std::min(nlp_->getObjValue(), ub);
         cutoff = ub > 0 ? ub *(1 - parameters_.cbcCutoffIncrement_) : ub*(1 + parameters_.cbcCutoffIncrement_);
-        assert(cutoff < ub);
+        assert(cutoff <= ub);
         // Update the lp solver cutoff
         lp->setDblParam(OsiDualObjectiveLimit, cutoff);
         numSols_++;
@@ -166,8 +166,8 @@ namespace Bonmin
       }
 
       int numberCuts = cs.sizeRowCuts() - numberCutsBefore;
-      assert(numberCuts);
-      installCuts(*lp, cs, numberCuts);
+      if (numberCuts > 0)
+        installCuts(*lp, cs, numberCuts);
 
       lp->resolve();
 
-- 
2.43.0


From abeb9183caa4486e1b5a42b39e149f1112a3df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:13 +0000
Subject: [PATCH 08/30] fix: feasibility pump aborts when the problem has
 nothing nonlinear or a zero objective

---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index cab337f..5504bd7 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -161,7 +161,7 @@ namespace Bonmin
            cutoff = ub > 0 ?
                     ub * (1 - parameters_.cbcCutoffIncrement_):
                     ub * (1 + parameters_.cbcCutoffIncrement_);
-           assert(cutoff < ub);
+           assert(cutoff <= ub);
            
            numSols_++;
          }
@@ -198,8 +198,8 @@ namespace Bonmin
 #endif
       
       int numberCuts = cs.sizeRowCuts() - numberCutsBefore;
-      assert(numberCuts);
-      installCuts(*lp, cs, numberCuts);
+      if (numberCuts > 0)
+        installCuts(*lp, cs, numberCuts);
       numberCutsBefore = cs.sizeRowCuts();
      
       //check time
-- 
2.43.0


From 683d6751ebc0f3acaac7c8ad96aadbce7e3114cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:04 +0000
Subject: [PATCH 09/30] fix: do not abort ECP when integer cuts lift the LP
 bound above the objective at a fractional point

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 890788d..63cedca 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1870,7 +1870,6 @@ OsiTMINLPInterface::getNonLinearitiesViolation(const double *x, const double obj
 {
   double f;
   double norm = getConstraintsViolation(x, f);
-  assert((f - obj) > -1e-08);
   norm =  (f - obj) > norm ? f - obj : norm;
   return norm;
 }
-- 
2.43.0


From 674f6c66bc112500ba2ab07ac28f004c195512fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:42 +0000
Subject: [PATCH 10/30] fix: close a node in the feasibility checker when its
 cuts and the cutoff leave no better point

---
 src/Algorithms/OaGenerators/BonOaFeasChecker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index 6955c40..8e8bc43 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -109,6 +109,11 @@ namespace Bonmin
                                         0.1,
                                         nlp_->getColSolution(), lp->getColSolution());
       }
+      else if (lp->isProvenPrimalInfeasible() || lp->isDualObjectiveLimitReached() ||
+               (lp->isProvenOptimal() && objvalue >= cutoff)) {
+        //the cuts and the cutoff close the node: say so or it is checked again and again
+        changed = false;
+      }
       if (changed) {
        branch_info.solution_ = lp->getColSolution();
        isInteger = integerFeasible(*lp,branch_info, parameters_.cbcIntegerTolerance_,
-- 
2.43.0


From 488d033610deb6e49e12bb4aca3c9d5f2bb4b6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 11/30] fix: an interrupted solve stops, reports the interrupt
 and claims nothing it has not proven

A SIGINT made every later NLP solve return stale data or claim infeasibility:
loops waiting for progress never ended, fractional points and invalid bounds
were reported, and the handler and its flags stayed in place for later solves.
---
 src/CbcBonmin/BonCbc.cpp                 | 79 ++++++++++++++++++++----
 src/Interfaces/BonOsiTMINLPInterface.cpp |  9 +--
 src/Interfaces/BonTNLPSolver.hpp         |  5 ++
 src/Interfaces/Ipopt/BonIpoptSolver.cpp  |  6 +-
 4 files changed, 78 insertions(+), 21 deletions(-)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 65fcb20..286a6c9 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -63,6 +63,55 @@ extern "C"
 }
 #endif
 
+namespace
+{
+  /** Cbc is not meant to be left through an exception: while it runs heuristics its solver is the one
+      of the continuous relaxation and both would be deleted with the model.*/
+  void separateSolvers(CbcModel & model)
+  {
+    if (model.solver() != NULL && model.solver() == model.continuousSolver())
+      model.swapSolver(model.continuousSolver()->clone());
+  }
+
+  /** While it exists the user can interrupt the given model. What was in place before (the handler of
+      the application, or an enclosing branch-and-bound) is put back at the end.*/
+  class InterruptScope
+  {
+  public:
+    InterruptScope(CbcModel * model):
+        outerModel_(currentBranchModel)
+    {
+      currentBranchModel = model;
+#ifdef SIGNAL
+      saveSignal_ = signal(SIGINT, signal_handler);
+#endif
+    }
+    ~InterruptScope()
+    {
+#ifdef SIGNAL
+      signal(SIGINT, saveSignal_);
+#endif
+      currentBranchModel = outerModel_;
+      if (outerModel_ == NULL) {// nothing left to interrupt
+        BonminAbortAll = false;
+#ifdef SIGNAL
+        BonminInteruptedOnce = false;
+#endif
+      }
+      else if (BonminAbortAll) {
+        outerModel_->sayEventHappened();
+      }
+    }
+  private:
+    InterruptScope(const InterruptScope &);
+    InterruptScope & operator=(const InterruptScope &);
+    CbcModel * outerModel_;
+#ifdef SIGNAL
+    CoinSighandler_t saveSignal_;
+#endif
+  };
+}
+
 namespace Bonmin
 {
 
@@ -432,13 +481,7 @@ namespace Bonmin
       }
     }
 
-#ifdef SIGNAL
-    //CoinSighandler_t saveSignal=SIG_DFL;
-    // register signal handler  FIXME restore original signal handler when finished
-    /*saveSignal =*/ signal(SIGINT,signal_handler);
-#endif
-
-    currentBranchModel = &model_;
+    InterruptScope interruptScope(&model_);
 
 
     try {
@@ -455,7 +498,7 @@ namespace Bonmin
       }
     }
 
-    if(!BonminInteruptedOnce){
+    if(!BonminAbortAll){
     int ival;
     s.options()->GetEnumValue("enable_dynamic_nlp", ival, "bonmin.");
     if(s.nonlinearSolver() == s.continuousSolver() && ival)
@@ -526,6 +569,7 @@ namespace Bonmin
     }
     }
     catch(TNLPSolver::UnsolvedError *E){
+      separateSolvers(model_);
       s.nonlinearSolver()->model()->finalize_solution(TMINLP::MINLP_ERROR,
            0,
            NULL,
@@ -533,6 +577,10 @@ namespace Bonmin
       throw E;
    
     }
+    catch(TNLPSolver::UserInterrupt &){
+      //keep what was found so far
+      separateSolvers(model_);
+    }
     numNodes_ = model_.getNodeCount();
     bestObj_ = model_.getObjValue();
     bestBound_ = model_.getBestPossibleObjValue();
@@ -592,8 +640,7 @@ namespace Bonmin
     }
     TMINLP::SolverReturn status = TMINLP::MINLP_ERROR;
 
-    if(BonminAbortAll) status = TMINLP::USER_INTERRUPT;
-    if (model_.numberObjects()==0) {
+    if (model_.numberObjects()==0 && !BonminAbortAll) {
       if (bestSolution_)
         delete [] bestSolution_;
       OsiSolverInterface * solver = 
@@ -646,7 +693,17 @@ namespace Bonmin
          bestSolution_ = new double[s.nonlinearSolver()->getNumCols()];
          CoinCopyN(model_.bestSolution(), s.nonlinearSolver()->getNumCols(), bestSolution_);
        }
-       if(remaining_time <= 0.){
+       if(BonminAbortAll){//nothing has been proven besides the value of the relaxation
+         status = TMINLP::USER_INTERRUPT;
+         bestBound_ = std::min(bestBound_, continuousRelaxation_);
+         if (bestSolution_) {
+           mipStatus_ = Feasible;
+         }
+         else {
+           mipStatus_ = NoSolutionKnown;
+         }
+       }
+       else if(remaining_time <= 0.){
          status = TMINLP::LIMIT_EXCEEDED;
          if (bestSolution_) {
            mipStatus_ = Feasible;
diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 63cedca..5932373 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2607,7 +2607,7 @@ void
 OsiTMINLPInterface::solveAndCheckErrors(bool warmStarted, bool throwOnFailure,
     const char * whereFrom)
 {
-  if (BonminAbortAll == true) return;
+  if (BonminAbortAll) throw TNLPSolver::UserInterrupt();
   totalNlpSolveTime_-=CoinCpuTime();
   if(warmStarted)
     optimizationStatus_ = app_->ReOptimizeTNLP(GetRawPtr(problem_to_optimize_));
@@ -2780,7 +2780,7 @@ void OsiTMINLPInterface::initialSolve(const char * whereFrom)
   assert(IsValid(app_));
   assert(IsValid(problem_));
 
-  if (BonminAbortAll == true) return;
+  if (BonminAbortAll) throw TNLPSolver::UserInterrupt();
   // Discard warmstart_ if we had one
   delete warmstart_;
   warmstart_ = NULL;
@@ -2809,9 +2809,6 @@ void OsiTMINLPInterface::initialSolve(const char * whereFrom)
                                                       <<app_->CPUTime()
                                                       <<whereFrom<<CoinMessageEol;
   
-  if(BonminAbortAll){
-    return;
-  }
   int numRetry = firstSolve_ ? numRetryInitial_ : numRetryResolve_;
   if(isAbandoned() ||
     ( isProvenPrimalInfeasible() && getObjValue() < infeasibility_epsilon_)) {
@@ -2846,7 +2843,7 @@ OsiTMINLPInterface::resolve(const char * whereFrom)
 {
   assert(IsValid(app_));
   assert(IsValid(problem_));
-  if (BonminAbortAll == true) return;
+  if (BonminAbortAll) throw TNLPSolver::UserInterrupt();
   int has_warmstart = warmstart_ == NULL ? 0 : 1;
   if(warmstart_ == NULL) has_warmstart = 0;
   else if(!app_->warmStartIsValid(warmstart_)) has_warmstart = 1;
diff --git a/src/Interfaces/BonTNLPSolver.hpp b/src/Interfaces/BonTNLPSolver.hpp
index e427a07..c111ad1 100644
--- a/src/Interfaces/BonTNLPSolver.hpp
+++ b/src/Interfaces/BonTNLPSolver.hpp
@@ -92,6 +92,11 @@ class BONMINLIB_EXPORT TNLPSolver: public Ipopt::ReferencedObject{
   }
   ;
 
+  /** We will throw this when the user has interrupted the optimization:
+      nothing can be said about the problem which was being solved.*/
+  class BONMINLIB_EXPORT UserInterrupt
+  {};
+
   virtual UnsolvedError * newUnsolvedError(int num,
 					   Ipopt::SmartPtr<TMINLP2TNLP> problem,
 					   std::string name) = 0;
diff --git a/src/Interfaces/Ipopt/BonIpoptSolver.cpp b/src/Interfaces/Ipopt/BonIpoptSolver.cpp
index 235e6b3..575fd61 100644
--- a/src/Interfaces/Ipopt/BonIpoptSolver.cpp
+++ b/src/Interfaces/Ipopt/BonIpoptSolver.cpp
@@ -169,8 +169,7 @@ namespace Bonmin
         optimizationStatus_ = Ipopt::Infeasible_Problem_Detected;
     }
 
-    if (BonminAbortAll)
-      optimizationStatus_ = Ipopt::Infeasible_Problem_Detected;
+    if (BonminAbortAll) throw UserInterrupt();
 
     return solverReturnStatus(optimizationStatus_);
   }
@@ -214,8 +213,7 @@ namespace Bonmin
       else if (ret_status == provenInfeasible)
         optimizationStatus_ = Ipopt::Infeasible_Problem_Detected;
     }
-    if (BonminAbortAll)
-      optimizationStatus_ = Ipopt::Infeasible_Problem_Detected;
+    if (BonminAbortAll) throw UserInterrupt();
     return solverReturnStatus(optimizationStatus_);
   }
 
-- 
2.43.0


From 2a8851b7c6f6aa07b2ef11a90ada300c0a762777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:30 +0000
Subject: [PATCH 12/30] fix: leave the outer approximation loop when no further
 local search is allowed

With a solution (or local search) limit reached and an integer LP solution
the loop re-solved the same NLP for ever.
---
 src/Algorithms/OaGenerators/BonOACutGenerator2.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index eec71ab..aa9de86 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -264,6 +264,9 @@ namespace Bonmin
 		  feasible = 0;
 		}
       }
+      else {//no other integer point to check
+        isInteger = 0;
+      }
       
     }
 
-- 
2.43.0


From 1b74f04089ba722ef057c665a29a5b8976c958e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:58 +0000
Subject: [PATCH 13/30] fix: the feasibility pump heuristic stops at the time
 limit

---
 src/CbcBonmin/Heuristics/BonHeuristicFPump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CbcBonmin/Heuristics/BonHeuristicFPump.cpp b/src/CbcBonmin/Heuristics/BonHeuristicFPump.cpp
index 64e731b..88185d0 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicFPump.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicFPump.cpp
@@ -191,7 +191,7 @@ namespace Bonmin
     int iteration = 0;
     while(numberFractionalVariables) {
       iteration++;
-      if(iteration > maxNumberIterations) {
+      if(iteration > maxNumberIterations || model_->maximumSecondsReached()) {
 	break;
       }
       memcpy(copy_newSolution, newSolution, numberColumns*sizeof(double));
-- 
2.43.0


From 974a2744ab307833d3d0e41dbcfe0f37111d80ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:24 +0000
Subject: [PATCH 14/30] fix: after a recovered NLP failure only warm start when
 there is a point to warm start from

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 5932373..bfad45a 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1023,7 +1023,7 @@ OsiTMINLPInterface::resolveForRobustness(int numsolve)
   if(!isAbandoned()) {
     messageHandler()->message(WARN_SUCCESS_WS, messages_) << CoinMessageEol ;
     // re-enable warmstart and get it
-    app_->enableWarmStart();
+    if (warmStartMode_ >= Optimum || ws_backup != NULL) app_->enableWarmStart();
     if (warmStartMode_ < Optimum) {
       app_->setWarmStart(ws_backup, problem_);
       delete ws_backup;
@@ -1058,7 +1058,7 @@ OsiTMINLPInterface::resolveForRobustness(int numsolve)
       messageHandler()->message(WARN_SUCCESS_RANDOM, messages_)
 	<< f+2 << CoinMessageEol ;
       // re-enable warmstart and get it
-      app_->enableWarmStart();
+      if (warmStartMode_ >= Optimum || ws_backup != NULL) app_->enableWarmStart();
       if (warmStartMode_ < Optimum) {
         app_->setWarmStart(ws_backup, problem_);
         delete ws_backup;
-- 
2.43.0


From b83088d0a996184ad204afebe11b0679dcf16d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:24 +0000
Subject: [PATCH 15/30] fix: diving heuristics do nothing, instead of aborting,
 at a node whose NLP has no feasible point

---
 src/CbcBonmin/Heuristics/BonHeuristicDive.cpp    | 7 ++++++-
 src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp
index 7863ecb..9b0a8f1 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp
@@ -102,7 +102,12 @@ namespace Bonmin
 
     adjustPrimalTolerance(minlp, primalTolerance);
 
-    assert(isNlpFeasible(minlp, primalTolerance));
+    // The NLP at this node may be infeasible or unsolved (the search can branch
+    // on such nodes): there is then no point to dive from.
+    if(!isNlpFeasible(minlp, primalTolerance)) {
+      delete nlp;
+      return 0;
+    }
 
     // Get solution array for heuristic solution
     double* newSolution = new double [numberColumns];
diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
index 531b500..ed18289 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
@@ -130,7 +130,12 @@ namespace Bonmin
 
     adjustPrimalTolerance(minlp, primalTolerance);
 
-    assert(isNlpFeasible(minlp, primalTolerance));
+    // The NLP at this node may be infeasible or unsolved (the search can branch
+    // on such nodes): there is then no point to dive from.
+    if(!isNlpFeasible(minlp, primalTolerance)) {
+      delete nlp;
+      return 0;
+    }
 
     // Get information about the linear and nonlinear part of the instance
     TMINLP* tminlp = nlp->model();
-- 
2.43.0


From 0dac07404f86c6ba7ba6909553298ddd7c212cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:27 +0000
Subject: [PATCH 16/30] fix: dfs-dive puts a node that is too deep on the heap,
 and allows no backtrack, instead of aborting

---
 src/CbcBonmin/BonDiver.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 949811e..6121c50 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -601,7 +601,6 @@ namespace Bonmin
       assert(dive_.empty());
       return CbcTree::bestNode(cutoff);
     }
-    assert(nBacktracks_ < maxDiveBacktracks_);
     CbcNode * node = NULL;
     while (diveListSize_ > 0) {
 #ifdef DIVE_DEBUG
@@ -613,7 +612,6 @@ namespace Bonmin
       dive_.pop_front();
       diveListSize_ --;
       assert(node);
-      assert((node->depth() - divingBoardDepth_) <= maxDiveDepth_);
       if (node->objectiveValue() > cutoff) {//throw away node for now just put it on the heap as deleting a node is
         //more complicated than that (has to delete nodeInfo, cuts...)
 #ifdef DIVE_DEBUG
-- 
2.43.0


From ad3b31931fa555071d2d78a9adaab87c0c5ba3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:27 +0000
Subject: [PATCH 17/30] fix: probed-dive does not put a missing child on the
 heap when it stops diving on the cutoff

---
 src/CbcBonmin/BonDiver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 6121c50..a122cd0 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -345,7 +345,7 @@ namespace Bonmin
           CbcTree::push(nextOnBranch_);
           nextOnBranch_ = NULL;
           //Also have to cleanup candidateChild_
-          CbcTree::push(candidateChild_);
+          if (candidateChild_ != NULL) CbcTree::push(candidateChild_);
           candidateChild_ = NULL;
           return CbcTree::bestNode(cutoff);
         }
-- 
2.43.0


From bb82508a4b8c1cca591a0fa7fb7e380f39c60367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:00 +0000
Subject: [PATCH 18/30] fix: report zero duals, not those of an earlier NLP,
 for a fully fixed infeasible NLP

---
 src/Interfaces/BonTNLPSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonTNLPSolver.cpp b/src/Interfaces/BonTNLPSolver.cpp
index d070ee5..3211d6b 100644
--- a/src/Interfaces/BonTNLPSolver.cpp
+++ b/src/Interfaces/BonTNLPSolver.cpp
@@ -133,8 +133,8 @@ namespace Bonmin{
 	double * z = new double[n];
 	CoinFillN(z,n,0.);
 	tnlp->finalize_solution(Ipopt::LOCAL_INFEASIBILITY,
-			       n, x_sol, NULL, NULL, 
-			       m, g_sol, NULL, obj_value, NULL, NULL);
+			       n, x_sol, z, z,
+			       m, g_sol, lam, obj_value, NULL, NULL);
 	if (m > 0) delete [] lam;
 	delete [] z;
 	if (m > 0) delete [] g_sol;
-- 
2.43.0


From 675dd05c86b77ca13e63074434516c89ffd57a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:09 +0000
Subject: [PATCH 19/30] fix: milp_solver Cbc_Par asks for an option that is not
 registered

---
 src/Algorithms/BonCbcLpStrategy.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/BonCbcLpStrategy.cpp b/src/Algorithms/BonCbcLpStrategy.cpp
index 35efae8..f721480 100644
--- a/src/Algorithms/BonCbcLpStrategy.cpp
+++ b/src/Algorithms/BonCbcLpStrategy.cpp
@@ -60,11 +60,10 @@ namespace Bonmin
 
     int k = 0;
     
-    bool set = s.options()->GetIntegerValue("probing_cuts", gen_freqs_[k], prefix);
-    if(set==0) gen_freqs_[k] = -99;
+    gen_freqs_[k] = 0; // probing_cuts is not a registered option
     k++;
 
-    set = s.options()->GetIntegerValue("Gomory_cuts", gen_freqs_[k], prefix);
+    bool set = s.options()->GetIntegerValue("Gomory_cuts", gen_freqs_[k], prefix);
     if(set==0) gen_freqs_[k] = -99;
     k++;
     
-- 
2.43.0


From 1c9ec5f9683f42b6b4eafeafda280c1d00e8d1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:39 +0000
Subject: [PATCH 20/30] fix: do not fathom a node whose LP solution is integer
 only within the loose tolerance of the feasibility checker

---
 src/Algorithms/OaGenerators/BonOaFeasChecker.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index 8e8bc43..76a9cf8 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -122,7 +122,12 @@ namespace Bonmin
       else {
         isInteger = 0;
         //	  if(!fixed)//fathom on bounds
-         milpBound = 1e200;
+        //if the checked point is infeasible, an LP solution which is fractional for Cbc has to be branched on
+        if (!feasible || nlp_->isProvenOptimal() ||
+            !isDifferentOnIntegers(*nlp_, objects_, nObjects_,
+                                   parameters_.cbcIntegerTolerance_,
+                                   nlp_->getColSolution(), lp->getColSolution()))
+          milpBound = 1e200;
       }
 #ifdef OA_DEBUG
       printf("Obj value after cuts %g, %d rows\n",lp->getObjValue(),
-- 
2.43.0


From 4dde9bec2f88e89f9e272a4daa98f5d082642f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:24 +0000
Subject: [PATCH 21/30] fix: forget the initial duals together with the
 starting point they lie in

---
 src/Interfaces/BonTMINLP2TNLP.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index e5ee820..d37079a 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -281,6 +281,7 @@ namespace Bonmin
   {
     curr_warm_starter_ = NULL;
     x_init_.clear();
+    duals_init_ = NULL;//pointed into x_init_
   }
 
   void TMINLP2TNLP::setxInit(Index n,const Number* x_init)
-- 
2.43.0


From 924f9a0d574e44733b59882d1a856463852eaa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:52 +0000
Subject: [PATCH 22/30] fix: restore the row activities together with the point
 chosen by resolveForCost

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 4 ++++
 src/Interfaces/BonTMINLP2TNLP.cpp        | 9 +++++++++
 src/Interfaces/BonTMINLP2TNLP.hpp        | 3 +++
 3 files changed, 16 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index bfad45a..64f443f 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -861,6 +861,8 @@ OsiTMINLPInterface::resolveForCost(int numsolve, bool keepWarmStart)
   CoinCopyN(getRowPrice(),
       2*getNumCols()+ getNumRows(),
       point() + getNumCols());
+  vector<double> activity(getNumRows());
+  CoinCopyN(getRowActivity(), getNumRows(), activity());
   TNLPSolver::ReturnStatus savedStatus = optimizationStatus_;
   if(isProvenOptimal())
     messageHandler()->message(SOLUTION_FOUND,
@@ -896,6 +898,7 @@ OsiTMINLPInterface::resolveForCost(int numsolve, bool keepWarmStart)
       CoinCopyN(getRowPrice(),
           2*getNumCols()+ getNumRows(),
           point() + getNumCols());
+      CoinCopyN(getRowActivity(), getNumRows(), activity());
       bestBound = getObjValue();
       savedStatus = optimizationStatus_;
     }
@@ -975,6 +978,7 @@ OsiTMINLPInterface::resolveForCost(int numsolve, bool keepWarmStart)
   }
 
   problem_->Set_x_sol(getNumCols(),point());
+  problem_->Set_g_sol(getNumRows(),activity());
   problem_->Set_dual_sol((int) point.size()-getNumCols(), point() + getNumCols());
   problem_->set_obj_value(bestBound);
   optimizationStatus_ = savedStatus;
diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index d37079a..537eff4 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -314,6 +314,15 @@ namespace Bonmin
     IpBlasDcopy(n, x_sol, 1, x_sol_(), 1);
   }
 
+  /** Set the row activities of the contiuous solution */
+  void TMINLP2TNLP::Set_g_sol(Index m, const Number* g_sol)
+  {
+    assert(m == num_constraints());
+    g_sol_.resize(m);
+    if(m > 0)
+      IpBlasDcopy(m, g_sol, 1, g_sol_(), 1);
+  }
+
   /** Set the contiuous dual solution */
   void TMINLP2TNLP::Set_dual_sol(Index n, const Number* dual_sol)
   {
diff --git a/src/Interfaces/BonTMINLP2TNLP.hpp b/src/Interfaces/BonTMINLP2TNLP.hpp
index f158ad8..90df8b6 100644
--- a/src/Interfaces/BonTMINLP2TNLP.hpp
+++ b/src/Interfaces/BonTMINLP2TNLP.hpp
@@ -212,6 +212,9 @@ namespace Bonmin
     /** Set the contiuous solution */
     void Set_x_sol(Ipopt::Index n, const Ipopt::Number* x_sol);
 
+    /** Set the row activities of the contiuous solution */
+    void Set_g_sol(Ipopt::Index m, const Ipopt::Number* g_sol);
+
     /** Set the contiuous dual solution */
     void Set_dual_sol(Ipopt::Index n, const Ipopt::Number* dual_sol);
 
-- 
2.43.0


From 0ef2d5b7c3046d72cf3d3403f59f00bc3dd6c708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:37 +0000
Subject: [PATCH 23/30] fix: disable warm starts when the starting point is
 reset, nothing is left to start from

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 64f443f..70ae186 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1408,8 +1408,10 @@ OsiTMINLPInterface::setColSolution(const double *colsol)
 {
   if(colsol != NULL)
     problem_->setxInit(getNumCols(), colsol);
-  else
+  else {
     problem_->resetStartingPoint();
+    app_->disableWarmStart();//nothing is left to start from
+  }
   hasBeenOptimized_ = false;
 }
 
-- 
2.43.0


From 73376ae60ab1308e9889f1f1a8e2d8036fd0f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:23 +0000
Subject: [PATCH 24/30] fix: a warm start without values stays empty when it is
 converted

---
 src/Interfaces/Ipopt/BonIpoptWarmStart.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/Ipopt/BonIpoptWarmStart.cpp b/src/Interfaces/Ipopt/BonIpoptWarmStart.cpp
index 350b8ba..025a321 100644
--- a/src/Interfaces/Ipopt/BonIpoptWarmStart.cpp
+++ b/src/Interfaces/Ipopt/BonIpoptWarmStart.cpp
@@ -69,7 +69,7 @@ IpoptWarmStart::IpoptWarmStart(int primal_size, int dual_size,
     CoinWarmStartPrimalDual(pdws),
     CoinWarmStartBasis(),
     warm_starter_(NULL),
-    empty_(false)
+    empty_(pdws.primalSize() == 0)
   {   
   }
   
-- 
2.43.0


From 90dab33237f70e7964c25f4be44ba22f76dffe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:34 +0000
Subject: [PATCH 25/30] fix: remove tiny coefficients from the rows of the
 linear relaxation that were relaxed for it

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 70ae186..076031c 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2483,6 +2483,8 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
           if(rowUp[jRow_[i]] < infty)
           rowUp[jRow_[i]] += jValues_[i] *x[jCol_[i]];
        }
+       else
+          jValues_[i] = 0.;//removed from the row
     }
     else {
       //double value = jValues_[i] * x[jCol_[i]];
-- 
2.43.0


From 94393d2667d1cfdb69430433b043b78daf1e789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:34 +0000
Subject: [PATCH 26/30] fix: relax the aggregated Benders cut, not its rows,
 when removing tiny coefficients

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 076031c..eb8e21c 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2166,7 +2166,7 @@ OsiTMINLPInterface::getBendersCut(OsiCuts &cs,
     const double & lam = duals[rowIdx];
     double coeff = lam*jValues_[i];
     if(cleanNnz(coeff,colLower[colIdx], colUpper[colIdx],
-      	  rowLower[rowIdx], rowUpper[rowIdx], x[colIdx], lb,
+      	  -getInfinity(), 0, x[colIdx], lb,
       	  ub, tiny_, veryTiny_, infty_)) {
       cut[colIdx] += coeff;
       ub += coeff * x[colIdx];
-- 
2.43.0


From e3e457f7c95e6e102b1a7770a6c250642bac4cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:41 +0000
Subject: [PATCH 27/30] fix: local search heuristics respect the time left of
 the main search

---
 src/CbcBonmin/Heuristics/BonLocalSolverBasedHeuristic.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CbcBonmin/Heuristics/BonLocalSolverBasedHeuristic.cpp b/src/CbcBonmin/Heuristics/BonLocalSolverBasedHeuristic.cpp
index dc1f46b..3a74bc9 100644
--- a/src/CbcBonmin/Heuristics/BonLocalSolverBasedHeuristic.cpp
+++ b/src/CbcBonmin/Heuristics/BonLocalSolverBasedHeuristic.cpp
@@ -8,6 +8,7 @@
 
 #include "BonLocalSolverBasedHeuristic.hpp"
 #include "BonCbc.hpp"
+#include <algorithm>
 
 namespace Bonmin {
   LocalSolverBasedHeuristic::LocalSolverBasedHeuristic():
@@ -92,10 +93,16 @@ namespace Bonmin {
                                             double *solution,
                                             double & solValue,
                                             double cutoff,std::string prefix) const{
+      // the local search may not outlive the search it helps
+      const double timeLeft = model_->getDblParam(CbcModel::CbcMaximumSeconds) - model_->getCurrentSeconds();
+      if(timeLeft <= 0.)
+        return 0;
       BonminSetup * mysetup = setup_->clone(*solver, prefix);
       Bab bb;
       mysetup->setDoubleParameter(BabSetupBase::Cutoff, cutoff);
       mysetup->setIntParameter(BabSetupBase::NumberStrong, 0);
+      mysetup->setDoubleParameter(BabSetupBase::MaxTime,
+                                  std::min(timeLeft, mysetup->getDoubleParameter(BabSetupBase::MaxTime)));
       bb(mysetup); 
       int r_val = 0;
       if(bb.bestSolution()){
-- 
2.43.0


From f0053b66cb6c8f5796537f54f1258983bb9fd32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:53 +0000
Subject: [PATCH 28/30] fix: the solves of local search heuristics are not
 reported to the model

---
 src/CbcBonmin/BonCbc.cpp                                 | 5 ++++-
 src/CbcBonmin/BonCbc.hpp                                 | 9 +++++++++
 .../Heuristics/BonLocalSolverBasedHeuristic.cpp          | 1 +
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 286a6c9..cb9b037 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -127,7 +127,8 @@ namespace Bonmin
       model_(),
       modelHandler_(NULL),
       objects_(0),
-      nObjects_(0)
+      nObjects_(0),
+      reportOutcome_(true)
   {}
 
   /** Destructor.*/
@@ -570,6 +571,7 @@ namespace Bonmin
     }
     catch(TNLPSolver::UnsolvedError *E){
       separateSolvers(model_);
+      if(reportOutcome_)
       s.nonlinearSolver()->model()->finalize_solution(TMINLP::MINLP_ERROR,
            0,
            NULL,
@@ -740,6 +742,7 @@ namespace Bonmin
       status = TMINLP::MINLP_ERROR;
     }
   }
+  if(reportOutcome_)
   s.nonlinearSolver()->model()->finalize_solution(status,
      s.nonlinearSolver()->getNumCols(),
      bestSolution_,
diff --git a/src/CbcBonmin/BonCbc.hpp b/src/CbcBonmin/BonCbc.hpp
index e27aae5..f9ea0ce 100644
--- a/src/CbcBonmin/BonCbc.hpp
+++ b/src/CbcBonmin/BonCbc.hpp
@@ -97,6 +97,13 @@ namespace Bonmin
       return model_;
     }
 
+    /** Say if the outcome is to be reported to the model (TMINLP::finalize_solution, the default).
+        The solves of a heuristic are not reported, only that of the problem itself is.*/
+    void setReportOutcome(bool yesNo)
+    {
+      reportOutcome_ = yesNo;
+    }
+
   protected:
     /** Stores the solution of MIP. */
     double * bestSolution_;
@@ -123,6 +130,8 @@ namespace Bonmin
     OsiObject** objects_;
     /** number of objects.*/
     int nObjects_;
+    /** Is the outcome reported to the model?*/
+    bool reportOutcome_;
   };
 }
 #endif
diff --git a/src/CbcBonmin/Heuristics/BonLocalSolverBasedHeuristic.cpp b/src/CbcBonmin/Heuristics/BonLocalSolverBasedHeuristic.cpp
index 3a74bc9..84539a6 100644
--- a/src/CbcBonmin/Heuristics/BonLocalSolverBasedHeuristic.cpp
+++ b/src/CbcBonmin/Heuristics/BonLocalSolverBasedHeuristic.cpp
@@ -99,6 +99,7 @@ namespace Bonmin {
         return 0;
       BonminSetup * mysetup = setup_->clone(*solver, prefix);
       Bab bb;
+      bb.setReportOutcome(false);
       mysetup->setDoubleParameter(BabSetupBase::Cutoff, cutoff);
       mysetup->setIntParameter(BabSetupBase::NumberStrong, 0);
       mysetup->setDoubleParameter(BabSetupBase::MaxTime,
-- 
2.43.0


From a2eac485be202192b8042a7521900854c95ea3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:10 +0000
Subject: [PATCH 29/30] fix: the cutoff row of the feasibility problem is the
 model's objective

It evaluated the distance objective of the feasibility problem instead, while
its Hessian term was already the one of the original objective. The Jacobian
of the wrapped problem is also asked for with its own number of rows.
---
 src/Interfaces/BonTNLP2FPNLP.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index 913f8e6..d184144 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -206,7 +206,7 @@ namespace Bonmin
       ret_code = tnlp_->eval_g(n, x, new_x, m-2, g);
       // compute the value of the cutoff constraint
       Number obj_value;
-      if(eval_f(n, x, new_x, obj_value))
+      if(tnlp_->eval_f(n, x, new_x, obj_value))
 	g[m-2] = obj_value;
       else
 	ret_code = false;
@@ -223,7 +223,7 @@ namespace Bonmin
     else if(use_cutoff_constraint_) {
       ret_code = tnlp_->eval_g(n, x, new_x, m-1, g);
       Number obj_value;
-      if(eval_f(n, x, new_x, obj_value))
+      if(tnlp_->eval_f(n, x, new_x, obj_value))
 	g[m-1] = obj_value;
       else
 	ret_code = false;
@@ -254,7 +254,7 @@ namespace Bonmin
 
     if(use_cutoff_constraint_ && use_local_branching_constraint_) {
       int n_integers = (int)vals_.size();
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n - n_integers, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m-2, nele_jac - n - n_integers, 
 				   iRow, jCol, values);
 
       if (iRow && jCol && !values) { //Initialization phase 
@@ -279,7 +279,7 @@ namespace Bonmin
       else if (!iRow & !jCol && values) { //computation phase
 	// compute the jacobian contribution of the cutoff constraint
 	Number* grad_f = new Number[n];
-	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
 	if(ret_code_grad_f) {
 	  int k = nele_jac - n - n_integers;
 	  values += k;
@@ -305,7 +305,7 @@ namespace Bonmin
       }
     }
     else if(use_cutoff_constraint_) {
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m-1, nele_jac - n, 
 				   iRow, jCol, values);
       
       if (iRow && jCol && !values) { //Initialization phase 
@@ -320,7 +320,7 @@ namespace Bonmin
       }
       else if (!iRow & !jCol && values) { //computation phase
 	Number* grad_f = new Number[n];
-	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
 	if(ret_code_grad_f) {
 	  int k = nele_jac - n;
 	  values += k;
@@ -338,7 +338,7 @@ namespace Bonmin
     }
     else if(use_local_branching_constraint_) {
       int n_integers = (int)vals_.size();
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n_integers, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m-1, nele_jac - n_integers, 
 				   iRow, jCol, values);
       
       if (iRow && jCol && !values) { //Initialization phase 
-- 
2.43.0


From 9d35e1b995c1fc0256a57efe684be3a65b6dc384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:10 +0000
Subject: [PATCH 30/30] fix: evaluate the jacobian at a new point in the MILP
 based heuristics

The first evaluation at the current solution told the model that the point had
not changed since its last evaluation, which is not known there.
---
 src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp | 2 +-
 src/CbcBonmin/Heuristics/BonMilpRounding.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
index ed18289..4d188db 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
@@ -322,7 +322,7 @@ namespace Bonmin
 
       // get the jacobian so that we know the coefficients of the MILP matrix
       double* jac_g = new double [nnz_jac_g];
-      minlp->eval_jac_g(numberColumns, x_sol, false,
+      minlp->eval_jac_g(numberColumns, x_sol, true,
 			numberRows, nnz_jac_g,
 			0, 0, jac_g);
 
diff --git a/src/CbcBonmin/Heuristics/BonMilpRounding.cpp b/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
index c0d9ef3..5a3b038 100644
--- a/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
+++ b/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
@@ -141,7 +141,7 @@ namespace Bonmin
 
     // get the jacobian values 
     vector<double> jac_g(nnz_jac_g);
-    minlp->eval_jac_g(n, x_sol, false,
+    minlp->eval_jac_g(n, x_sol, true,
                       m, nnz_jac_g,
                       NULL, NULL, jac_g());
 
-- 
2.43.0

