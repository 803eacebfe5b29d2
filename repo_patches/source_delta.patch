From 5c9bf12e011624d51396b954d0ec8b30f18a4120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 01/40] fix: counterstrategy extraction took the first file
 name as its output file

The output file name was consumed in the constructor, i.e. before the
specification file name: 'slugs --counterStrategy in out' read 'out' and
overwrote 'in', and a missing file name was undefined behaviour.
---
 src/extensionExtractExplicitCounterstrategy.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 30163b5..8d2198c 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -41,8 +41,11 @@ protected:
     using T::postOutputVars;
     using T::doesVariableInheritType;
 
-    XExtractExplicitCounterStrategy<T>(std::list<std::string> &filenames) : T(filenames) {
-        if (filenames.size()==1) {
+    XExtractExplicitCounterStrategy<T>(std::list<std::string> &filenames) : T(filenames) {}
+
+    void init(std::list<std::string> &filenames) {
+        T::init(filenames);
+        if (filenames.size()==0) {
             outputFilename = "";
         } else {
             outputFilename = filenames.front();
-- 
2.43.0


From 243b66f7d090bbb1d1e57ec631a4065c7ac23c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 02/40] fix: counterstrategies without output variables
 confused deadlocks with ordinary states

The successor-less state for a deadlock was looked up under the same key as
an ordinary state with the same valuation, so one could replace the other.
---
 src/extensionExtractExplicitCounterstrategy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 8d2198c..11f6ee1 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -245,7 +245,9 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
     
     newCombination  = (newCombination.ExistAbstract(varCubePostOutput).ExistAbstract(varCubePre)).SwapVariables(varVectorPre,varVectorPost);
     
-    std::pair<size_t, std::pair<unsigned int, unsigned int> > target = std::pair<size_t, std::pair<unsigned int, unsigned int> >(newCombination.getHashCode(),std::pair<unsigned int, unsigned int>(current.second.first, current.second.second));
+    // Deadlocked "states" are looked up with an otherwise unused guarantee number, as without output
+    // variables, they have the same variable valuations as ordinary states.
+    std::pair<size_t, std::pair<unsigned int, unsigned int> > target = std::pair<size_t, std::pair<unsigned int, unsigned int> >(newCombination.getHashCode(),std::pair<unsigned int, unsigned int>(current.second.first, livenessGuarantees.size() + current.second.second));
     unsigned int tn;
     
     if (lookupTableForPastStates.count(target)==0) {
-- 
2.43.0


From 2d98d848dfbce9e0a12f9fd68149c696dc1660fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 03/40] fix: counterstrategies could satisfy every system
 guarantee

The environment moved on to the cyclically next (or, at the start, the first)
guarantee instead of to one it can prevent from there.
---
 ...xtensionExtractExplicitCounterstrategy.hpp | 34 ++++++++++++++-----
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 11f6ee1..ef74f39 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -103,21 +103,32 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
     
     // Prepare positional strategies for the individual goals
     std::vector<std::vector<BF> > positionalStrategiesForTheIndividualGoals(livenessAssumptions.size());
+    // For every liveness assumption, the positions from which to start preventing a guarantee. A position is
+    // assigned to the guarantee for which it was found to be winning first. This way, whenever the
+    // guarantee currently prevented is satisfied, the environment moves to an earlier iteration of
+    // the outermost fixed point and thus can only be forced to switch finitely often.
+    std::vector<std::vector<BF> > preferredPositionsForTheIndividualGuarantees(livenessAssumptions.size());
     for (unsigned int i=0;i<livenessAssumptions.size();i++) {
         //BF casesCovered = mgr.constantFalse();
         std::vector<BF> strategy(livenessGuarantees.size()+1);
         for (unsigned int j=0;j<livenessGuarantees.size()+1;j++) {
             strategy[j] = mgr.constantFalse();
         }
+        std::vector<BF> preferredPositions(livenessGuarantees.size(),mgr.constantFalse());
+        BF positionsCovered = mgr.constantFalse();
         for (auto it = strategyDumpingData.begin();it!=strategyDumpingData.end();it++) {
             if (boost::get<0>(*it) == i) {
                 //Have to cover each guarantee (since the winning strategy depends on which guarantee is being pursued)
                 //Essentially, the choice of which guarantee to pursue can be thought of as a system "move".
                 //The environment always to chooses that prevent the appropriate guarantee.
                 strategy[boost::get<1>(*it)] |= boost::get<2>(*it).UnivAbstract(varCubePostOutput) & !(strategy[boost::get<1>(*it)].ExistAbstract(varCubePost));
+                BF newPositions = boost::get<2>(*it).ExistAbstract(varCubePost) & !positionsCovered;
+                preferredPositions[boost::get<1>(*it)] |= newPositions;
+                positionsCovered |= newPositions;
             }
         }
         positionalStrategiesForTheIndividualGoals[i] = strategy;
+        preferredPositionsForTheIndividualGuarantees[i] = preferredPositions;
     }
     
     // Prepare initial to-do list from the allowed initial states. Select a single initial input valuation.
@@ -127,11 +138,11 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
     while (!(todoInit.isFalse())) {
         BF concreteState = determinize(todoInit,preVars);
         
-        //find which liveness guarantee is being prevented (finds the first liveness in order specified)
+        //find which liveness guarantee is being prevented
         // Note by Ruediger here: Removed "!livenessGuarantees[j]" as condition as it is non-positional
         unsigned int found_j_index = 0;
         for (unsigned int j=0;j<livenessGuarantees.size();j++) {
-            if (!(concreteState & positionalStrategiesForTheIndividualGoals[0][j]).isFalse()) {
+            if (!(concreteState & preferredPositionsForTheIndividualGuarantees[0][j]).isFalse()) {
                 found_j_index = j;
                 break;
             }
@@ -193,19 +204,24 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
                     nextLivenessAssumption  = (nextLivenessAssumption + 1) % livenessAssumptions.size();
                     firstTry = false;
                 }
-                unsigned int nextLivenessGuarantee = current.second.second;
-                firstTry = true;
-                while (((nextLivenessGuarantee != current.second.second) | firstTry) && !((livenessGuarantees[nextLivenessGuarantee] & newCombination).isFalse())) {
-                    nextLivenessGuarantee  = (nextLivenessGuarantee + 1) % livenessGuarantees.size();
-                    firstTry = false;
-                }
-
                 //Mark which input has been captured by this case. Use the same input for other successors
                 remainingTransitions &= !newCombination;
 
                 // We don't need the pre information from the point onwards anymore.
+                bool guaranteeSatisfied = !((livenessGuarantees[current.second.second] & newCombination).isFalse());
                 newCombination = newCombination.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost);
 
+                // If the guarantee currently prevented has been satisfied, find the one to prevent from here
+                unsigned int nextLivenessGuarantee = current.second.second;
+                if (guaranteeSatisfied) {
+                    for (unsigned int j=0;j<livenessGuarantees.size();j++) {
+                        if (!(newCombination & preferredPositionsForTheIndividualGuarantees[nextLivenessAssumption][j]).isFalse()) {
+                            nextLivenessGuarantee = j;
+                            break;
+                        }
+                    }
+                }
+
                 unsigned int tn;
 
                 std::pair<size_t, std::pair<unsigned int, unsigned int> > target;
-- 
2.43.0


From 69747513b0622ae84a6d829e22f4e4c0205b16be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 04/40] fix: interleaving analysis listed a signal that must
 not be set before the input

The variable information was not recomputed after the last unsuccessful
attempt, and foundOne was used uninitialized.
---
 src/extensionInterleave.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensionInterleave.hpp b/src/extensionInterleave.hpp
index 004d9e4..7583099 100644
--- a/src/extensionInterleave.hpp
+++ b/src/extensionInterleave.hpp
@@ -190,7 +190,7 @@ public:
             std::cout << "Starting point is a realizable specification.\n\n";
 
             // Try to "pre" Some variables
-            bool foundOne;
+            bool foundOne = false;
             for (unsigned int i=0;i<variables.size();i++) {
                 if (doesVariableInheritType(i,PreOutput)) {
                     variableTypes[i] = PreOutputBefore;
@@ -201,6 +201,7 @@ public:
                     if (!realizable) {
                         variableTypes[i] = PreOutputAfter;
                         variableTypes[i+1] = PostOutputAfter;
+                        computeVariableInformation();
                     } else {
                         foundOne = true;
                     }
-- 
2.43.0


From b76b139c877daa44b2bb0cad9b27c4fbf79b26b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 05/40] fix: initial position analysis printed nan for the
 number of losing inputs

The variable limits may refer to output variables, which were not abstracted
before counting input assignments.
---
 src/extensionAnalyzeInitialPositions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index fe0cad2..53f3216 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -210,7 +210,7 @@ public:
         double nofWPosAG = (initEnv & initSys & winningPositions & variableLimits).getNofSatisfyingAssignments(varCubePre);
 
         double nofInputs = variableLimits.ExistAbstract(varCubePreOutput).getNofSatisfyingAssignments(varCubePreInput);
-        double nofInputsSystemLosing = (initEnv & variableLimits & !((winningPositions & initSys).ExistAbstract(varCubePreOutput))).getNofSatisfyingAssignments(varCubePreInput);
+        double nofInputsSystemLosing = (initEnv & variableLimits.ExistAbstract(varCubePreOutput) & !((winningPositions & initSys).ExistAbstract(varCubePreOutput))).getNofSatisfyingAssignments(varCubePreInput);
         double nofAllowedInitialInputs = (initEnv & variableLimits.ExistAbstract(varCubePreOutput)).getNofSatisfyingAssignments(varCubePreInput);
 
         std::cout << "Number of winning positions: " << nofWPos << " out of " << nofPos << std::endl;
-- 
2.43.0


From 7f4d3855c018241302c37667be55482966aa9335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 06/40] fix: weakened safety assumptions lost literals that are
 needed

---
 src/extensionWeakenSafetyAssumptions.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/extensionWeakenSafetyAssumptions.hpp b/src/extensionWeakenSafetyAssumptions.hpp
index 95783e4..b1c14ea 100644
--- a/src/extensionWeakenSafetyAssumptions.hpp
+++ b/src/extensionWeakenSafetyAssumptions.hpp
@@ -117,9 +117,9 @@ public:
             for (auto it = clausesFoundSoFarInt.begin();it!=clausesFoundSoFarInt.end();it++) {
                 BF thisClauseBF = mgr.constantFalse();
                 for (unsigned int i=0;i<variables.size();i++) {
-                    if (thisClause[i]>0) {
+                    if ((*it)[i]>0) {
                         thisClauseBF |= variables[i];
-                    } else if (thisClause[i]<0) {
+                    } else if ((*it)[i]<0) {
                         thisClauseBF |= !variables[i];
                     }
                 }
@@ -143,8 +143,10 @@ public:
                 BF literal;
                 if (thisClause[i]>0) {
                     literal = variables[i];
-                } else {
+                } else if (thisClause[i]<0) {
                     literal = !variables[i];
+                } else {
+                    literal = mgr.constantFalse();
                 }
 
                 if ((clausesSoFar & nextClauses & restOfClause) == (clausesSoFar & nextClauses & (restOfClause | literal))) {
-- 
2.43.0


From de6bf0d2179bd2a9859b4684c770715382be5cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 07/40] fix: liveness assumptions were analyzed without the
 safety assumptions

Also, removing the only liveness assumption left no liveness assumption at
all, for which every position is losing.
---
 src/extensionAnalyzeAssumptions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index f9941e9..f4a3605 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -376,11 +376,11 @@ protected:
 
             //if (i==1) throw "Aaargh!";
 
-            safetyEnv = mgr.constantTrue();
             livenessAssumptions.clear();
             for (unsigned int j=0;j<oldLivenessAssumptions.size();j++) {
                 if (i!=j) livenessAssumptions.push_back(oldLivenessAssumptions[j]);
             }
+            if (livenessAssumptions.size()==0) livenessAssumptions.push_back(mgr.constantTrue());
             std::cout << "\"" << livenessEnvPartNames.at(i) << "\" ";
 
             std::vector<std::vector<BF> > newDistances;
-- 
2.43.0


From bd04d8471d646b414e174d884878a33e7337b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 08/40] fix: non-strict and falsification results ignored
 initial conditions

With robotics semantics, the extra output that remembers a violated guarantee
was allowed to be set initially. The environment was moreover allowed to
start with an input that violates its own initial condition.
---
 src/extensionAnalyzeSafetyLivenessInteraction.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensionAnalyzeSafetyLivenessInteraction.hpp b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
index e7d0693..ec5a3a9 100644
--- a/src/extensionAnalyzeSafetyLivenessInteraction.hpp
+++ b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
@@ -118,7 +118,7 @@ protected:
             computeWinningPositions();
 
             bool isWinningTraditionalSemantics = initEnv.Implies((winningPositions & initSys).ExistAbstract(varCubePreOutput)).UnivAbstract(varCubePreInput).isTrue();
-            bool isWinningRoboticsSemantics = (initEnv & initSys).Implies(winningPositions).UnivAbstract(varCubePreOutput).UnivAbstract(varCubePreInput).isTrue();
+            bool isWinningRoboticsSemantics = (initEnv & initSys & !variables[varGuaFailPre]).Implies(winningPositions).UnivAbstract(varCubePreOutput).UnivAbstract(varCubePreInput).isTrue();
 
 
             std::cout << "With a non-strict implication,\n";
@@ -151,7 +151,7 @@ protected:
                 winningPositions |= (safetyEnv & (winningPositions.SwapVariables(varVectorPre,varVectorPost) | !safetySys).UnivAbstract(varCubePostOutput)).ExistAbstract(varCubePostInput);
                 round++;
                 if ((roundFoundInitPos==-1) &&
-                        ((!initSys) | (initEnv & winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
+                        (initEnv & ((!initSys) | winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
                     roundFoundInitPos = round;
                 }
             }
-- 
2.43.0


From 50ab5d44a467fb9a6e0e3373387307883b32b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 09/40] fix: weakened safety assumptions were not as weak as
 possible

Removing literals can make further clauses dispensable.
---
 src/extensionWeakenSafetyAssumptions.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/extensionWeakenSafetyAssumptions.hpp b/src/extensionWeakenSafetyAssumptions.hpp
index b1c14ea..f0b8617 100644
--- a/src/extensionWeakenSafetyAssumptions.hpp
+++ b/src/extensionWeakenSafetyAssumptions.hpp
@@ -160,6 +160,27 @@ public:
             clausesFoundSoFarIntAfterFiltering.insert(filteredLiterals);
         }
 
+        // With fewer literals, some clauses can have become dispensable.
+        for (auto it = clausesFoundSoFarIntAfterFiltering.begin();it!=clausesFoundSoFarIntAfterFiltering.end();) {
+            safetyEnv = mgr.constantTrue();
+            for (auto it2 = clausesFoundSoFarIntAfterFiltering.begin();it2!=clausesFoundSoFarIntAfterFiltering.end();it2++) {
+                BF thisClauseBF = mgr.constantFalse();
+                for (unsigned int i=0;i<variables.size();i++) {
+                    if ((*it2)[i]>0) {
+                        thisClauseBF |= variables[i];
+                    } else if ((*it2)[i]<0) {
+                        thisClauseBF |= !variables[i];
+                    }
+                }
+                if (it!=it2) safetyEnv &= thisClauseBF;
+            }
+            checkRealizability();
+            if (realizable) {
+                it = clausesFoundSoFarIntAfterFiltering.erase(it);
+            } else {
+                it++;
+            }
+        }
 
         // Print the final set of clauses to stdout
         std::cout << "# Simplified safety assumption CNF clauses:\n";
-- 
2.43.0


From a22583eb350d82f6b6c291b797c6d56b592ecff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 10/40] fix: analyses and the interactive mode wrote debugging
 files to fixed paths in /tmp

Besides overwriting whatever is there, the program gave up when such a file
was not writable, e.g. because it belonged to another user.
---
 src/extensionAbstractWinningTraceGenerator.hpp    |  1 -
 src/extensionAnalyzeAssumptions.hpp               |  3 ---
 src/extensionAnalyzeInitialPositions.hpp          |  4 ----
 src/extensionComputeInterestingRunOfTheSystem.hpp |  2 --
 ...ionIncompleteInformationEstimatorSynthesis.hpp |  4 ----
 src/extensionInteractiveStrategy.hpp              | 15 ---------------
 src/extensionInterleave.hpp                       |  1 -
 src/extensionNondeterministicMotion.hpp           |  3 ---
 8 files changed, 33 deletions(-)

diff --git a/src/extensionAbstractWinningTraceGenerator.hpp b/src/extensionAbstractWinningTraceGenerator.hpp
index c09daa6..96adfd8 100644
--- a/src/extensionAbstractWinningTraceGenerator.hpp
+++ b/src/extensionAbstractWinningTraceGenerator.hpp
@@ -136,7 +136,6 @@ protected:
                 }
             }
         }
-        BF_newDumpDot(*this,winningPositions,NULL,"/tmp/winningPos.dot");
         // std::cerr << "RoundWinningPos: " << roundFoundInitPos << std::endl;
 
         // Debugging output
diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index f4a3605..df27a2a 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -279,7 +279,6 @@ protected:
                 casesCovered |= newCases;
             }
             goalStrategies.push_back(strategy);
-            BF_newDumpDot(*this,strategy,"PreInput PreOutput PostInput PostOutput","/tmp/generalStrategy.dot");
         }
 
         // Now compute the set of reachable positions
@@ -299,8 +298,6 @@ protected:
             mu.update(all);
         }
         BF reachablePositionsInMostGeneralStrategy = mu.getValue();
-        BF_newDumpDot(*this,mu.getValue(),NULL,"/tmp/testing.dot");
-        BF_newDumpDot(*this,transitionPoints,NULL,"/tmp/tps.dot");
 
 
 
diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index 53f3216..2547141 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -222,12 +222,8 @@ public:
 
         std::cout << "\nSome cubes of winning positions: \n";
         printLargePreCubes(winningPositions, variableLimits);
-        BF_newDumpDot(*this,winningPositions,"PreOutput PreInput","/tmp/winningInitialPositions.dot");
-        BF_newDumpDot(*this,variableLimits,"PreOutput PreInput","/tmp/variableLimits.dot");
         std::cout << "\nSome cubes of non-winning positions: \n";
         printLargePreCubes(!winningPositions, variableLimits);
-        BF_newDumpDot(*this,winningPositions,NULL,"/tmp/w.dot");
-        BF_newDumpDot(*this,!winningPositions,NULL,"/tmp/nw.dot");
         std::cout << "\nSome cubes of winning positions satisfying the initialization assumptions: \n";
         printLargePreCubes(winningPositions & initEnv, variableLimits);
         std::cout << "\nSome cubes of non-winning positions satisfying the initialization assumptions: \n";
diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index 48dba8d..5a7fc9b 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -92,8 +92,6 @@ public:
                 winning = newMoves.ExistAbstract(varCubePostInput);
                 moves |= winning & !oldWinning & newMoves;
             } while (winning!=oldWinning);
-            BF_newDumpDot(*this,winning,NULL,"/tmp/uga.dot");
-            BF_newDumpDot(*this,moves,NULL,"/tmp/moves.dot");
             environmentStrategyForAchievingTheLivenessAssumptions.push_back(moves | !winning);
         }
 
diff --git a/src/extensionIncompleteInformationEstimatorSynthesis.hpp b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
index f3bccec..a4101e4 100644
--- a/src/extensionIncompleteInformationEstimatorSynthesis.hpp
+++ b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
@@ -368,16 +368,12 @@ protected:
             std::cerr << "============================================================\n";
             std::cerr << "WARNING! There are environment dead-ends in the abstraction!\n";
             std::cerr << "============================================================\n";
-            BF_newDumpDot(*this,deadEnds,NULL,"/tmp/envDeadEnd.dot");
-            BF_newDumpDot(*this,weakDeterminize(deadEnds,preVars),NULL,"/tmp/envDeadEndDet.dot");
         }
         deadEnds = (!deadEnds) & ((!strategy).UnivAbstract(varCubeEstimationPost)) & reachableStates;
         if (!(deadEnds.isFalse())) {
             std::cerr << "============================================================\n";
             std::cerr << "WARNING! There are system dead-ends in the abstraction!\n";
             std::cerr << "============================================================\n";
-            BF_newDumpDot(*this,deadEnds,NULL,"/tmp/envDeadEnd.dot");
-            BF_newDumpDot(*this,weakDeterminize(deadEnds,preVars),NULL,"/tmp/envDeadEndDet.dot");
         }
 
         //========================================================
diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 9c56b3a..1492bae 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -75,9 +75,6 @@ public:
                     }
                 }
                 positionalStrategiesForTheIndividualGoals.push_back(strategy);
-                std::ostringstream filename;
-                filename << "/tmp/realizableStratForSystemGoal" << i << ".dot";
-                BF_newDumpDot(*this,strategy,"Pre Post",filename.str().c_str());
             }
         } else {
 
@@ -127,9 +124,6 @@ public:
                     }
                 }
                 positionalStrategiesForTheIndividualGoals.push_back(strategy);
-                std::ostringstream filename;
-                filename << "/tmp/realizableStratForEnvironmentGoal" << i << ".dot";
-                BF_newDumpDot(*this,strategy,"Pre Post",filename.str().c_str());
             }
         }
 
@@ -315,7 +309,6 @@ public:
                         if (allowedInputs.isFalse()) {
                             std::cout << "No move possible. There is no allowed next input!\n";
                         } else {
-                            BF_newDumpDot(*this,allowedInputs,"Pre Post","/tmp/allowedInputs.dot");
 
                             std::cout << "To: \n";
                             BF to = mgr.constantTrue();
@@ -638,7 +631,6 @@ public:
                 if (possibleInitialPositions.isFalse()) {
                     std::cout << "FAILASSUMPTIONS" << std::endl;
                 } else {
-                    BF_newDumpDot(*this,possibleInitialPositions,NULL,"/tmp/init.dot");
 
                     // Find the newly forced values
                     BF oldInitialPositions = possibleInitialPositions;
@@ -654,7 +646,6 @@ public:
 
                             resultPtr = 0;
                             // Print variable assignment that satisfies forced and assumptions
-                            BF_newDumpDot(*this,oldInitialPositions,NULL,"/tmp/init.dot");
                             for (const VariableType &type: {PreInput, PreOutput}) {
                                 for (unsigned int i=0;i<variables.size();i++) {
                                     if (doesVariableInheritType(i,type)) {
@@ -717,7 +708,6 @@ public:
                                 std::cout << "FAILGUARANTEES" << std::endl;
 
                                 resultPtr = 0;
-                                BF_newDumpDot(*this,oldInitialPositions,NULL,"/tmp/init.dot");
                                 // Print variable assignment that satisfies forced and assumptions
                                 for (const VariableType &type: {PreInput, PreOutput}) {
                                     for (unsigned int i=0;i<variables.size();i++) {
@@ -748,7 +738,6 @@ public:
                             }
                         } else {
 
-                            BF_newDumpDot(*this,possibleInitialPositions,NULL,"/tmp/afterInitSys.dot");
 
                             // Determinize part 3
                             resultPtr = 0;
@@ -790,7 +779,6 @@ public:
                                     }
                                 }
                             }
-                            BF_newDumpDot(*this,possibleInitialPositions,NULL,"/tmp/finalPossibleInitialPositions.dot");
                             assert(!(possibleInitialPositions.isFalse()));
                             assert(determinize(possibleInitialPositions,preVars)==possibleInitialPositions);
 
@@ -949,7 +937,6 @@ public:
                         assert(resultPtr==postVars.size());
 
                         // Then combine with the strategy (or safetySys)
-                        BF_newDumpDot(*this,allSoFar,NULL,"/tmp/allSoFarPre.dot");
                         oldAllSoFar = allSoFar;
                         if (realizable) {
                             allSoFar &= positionalStrategiesForTheIndividualGoals[livenessGuarantee];
@@ -957,7 +944,6 @@ public:
                             allSoFar &= safetySys;
                         }
 
-                        BF_newDumpDot(*this,allSoFar,NULL,"/tmp/allSoFarIncludingStrategy.dot");
 
                         if (allSoFar.isFalse()) {
                             if (realizable) {
@@ -1043,7 +1029,6 @@ public:
                                 }
                             }
 
-                            BF_newDumpDot(*this,allSoFar,NULL,"/tmp/finalTransitionChosen.dot");
 
                             // Print position result
                             for (unsigned int i=0;i<preVars.size();i++) {
diff --git a/src/extensionInterleave.hpp b/src/extensionInterleave.hpp
index 7583099..952c6f6 100644
--- a/src/extensionInterleave.hpp
+++ b/src/extensionInterleave.hpp
@@ -166,7 +166,6 @@ public:
 
         // We found the set of winning positions
         winningPositions = nu2.getValue();
-        BF_newDumpDot(*this,winningPositions,NULL,"/tmp/wp.dot");
     }
 
     void execute() {
diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 1e4cb03..170fe0e 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -436,7 +436,6 @@ public:
 
         // We found the set of winning positions
         winningPositions = nu2.getValue();
-        BF_newDumpDot(*this,winningPositions,NULL,"/tmp/winningPositions.dot");
 
         // Check if for every possible environment initial position the system has a good system initial position
         BF result;
@@ -476,14 +475,12 @@ public:
         if (!(newLivenessAssumption.isTrue())) {
             std::cerr << "Note: Added a liveness assumption that always eventually, we are moving if an action is taken at allows moving.\n";
         }
-        BF_newDumpDot(*this,newLivenessAssumption,"PreMotionState PostMotionControlOutput PostMotionState","/tmp/changeMotionStateLivenessAssumption.dot");
 
         // Make sure that there is at least one liveness assumption and one liveness guarantee
         // The synthesis algorithm might be unsound otherwise
         if (livenessGuarantees.size()==0) livenessGuarantees.push_back(mgr.constantTrue());
         if (livenessAssumptions.size()==0) livenessAssumptions.push_back(mgr.constantTrue());
 
-        BF_newDumpDot(*this,robotBDD,"PreMotionState PostMotionControlOutput PostMotionState","/tmp/sometestbdd.dot");
     }
 
 
-- 
2.43.0


From c8efbacd6118678dfdd72cc979fa1c44e2f57975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 11/40] fix: abstract winning traces ended early when some
 inputs are excluded initially

The environment's initial choice has to satisfy the initialization assumptions
even if the system has no initial output for it. Also repair the message for the
case that there is no suitable initial position.
---
 src/extensionAbstractWinningTraceGenerator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensionAbstractWinningTraceGenerator.hpp b/src/extensionAbstractWinningTraceGenerator.hpp
index 96adfd8..fc8395e 100644
--- a/src/extensionAbstractWinningTraceGenerator.hpp
+++ b/src/extensionAbstractWinningTraceGenerator.hpp
@@ -118,7 +118,7 @@ protected:
                 winningPositions |= (safetyEnv & (winningPositions.SwapVariables(varVectorPre,varVectorPost) | !safetySys).UnivAbstract(varCubePostOutput)).ExistAbstract(varCubePostInput);
                 round++;
                 if ((roundFoundInitPos==-1) &&
-                        ((!initSys) | (initEnv & winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
+                        (initEnv & ((!initSys) | winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
                     roundFoundInitPos = round;
                 }
             }
@@ -203,7 +203,7 @@ protected:
                 } else {
                     std::cout << "system";
                 }
-                std::cout << " environment to win in finite time from an initial position.\n\n";
+                std::cout << " to win in finite time from an initial position.\n\n";
                 return;
             }
         } else {
-- 
2.43.0


From 8d66c637ba99a7db0e18811bca47cc78d2938988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:47 +0000
Subject: [PATCH 12/40] fix: interesting runs marked goals for other
 transitions than the ones shown

The next position was chosen independently of the edge that the liveness marks are
computed for, edges equal to a goal were not recognized, and the flags of the last
row were read out of bounds.
---
 ...tensionComputeInterestingRunOfTheSystem.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index 5a7fc9b..05fc9d3 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -127,7 +127,7 @@ public:
             //BF_newDumpDot(*this,currentPosition,"Pre Post",flexname.str().c_str());
 
             // Sys Liveness progress
-            if (edge < livenessGuarantees[systemGoals.back()]) {
+            if (!edge.isFalse() && edge <= livenessGuarantees[systemGoals.back()]) {
                 systemGoals.push_back((systemGoals.back() + 1) % livenessGuarantees.size());
                 systemGoalsSat.push_back(true);
             } else {
@@ -137,7 +137,7 @@ public:
             }
 
             // Env Liveness progress
-            if (edge < livenessAssumptions[environmentGoals.back()]) {
+            if (!edge.isFalse() && edge <= livenessAssumptions[environmentGoals.back()]) {
                 environmentGoals.push_back((environmentGoals.back() + 1) % livenessAssumptions.size());
                 environmentGoalsSat.push_back(true);
             } else {
@@ -147,12 +147,12 @@ public:
             }
 
             // Violations
-            safetyEnvViolation.push_back(!(edge < safetyEnv));
-            safetySysViolation.push_back(!(edge < safetySys));
+            safetyEnvViolation.push_back(!(edge <= safetyEnv));
+            safetySysViolation.push_back(!(edge <= safetySys));
 
             // Compute next position
-            assert(nextPosition < safetySys);
-            nextPosition = determinizeRandomized(nextPosition.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost),preVars);
+            assert(nextPosition <= safetySys);
+            nextPosition = edge.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost);
             trace.push_back(nextPosition);
 
             //std::ostringstream npname;
@@ -160,7 +160,11 @@ public:
             //BF_newDumpDot(*this,nextPosition,NULL,npname.str().c_str());
         }
 
+        // There is no outgoing edge for the last element of the trace
         systemGoalsSat.push_back(false);
+        environmentGoalsSat.push_back(false);
+        safetyEnvViolation.push_back(false);
+        safetySysViolation.push_back(false);
 
         //========================
         // Compute variable groups
@@ -231,7 +235,7 @@ public:
             std::ostringstream systemGoalNumber;
             systemGoalNumber << systemGoals[runPart];
             systemGoalNumber << ((systemGoalsSat[runPart])?"+":" ");
-            if (safetySysViolation[runPart]) environmentGoalNumber << " (safety prop. violation)";
+            if (safetySysViolation[runPart]) systemGoalNumber << " (safety prop. violation)";
             thisLine.push_back(systemGoalNumber.str());
             thisLine.push_back("|");
 
-- 
2.43.0


From a53d08a3e5538bd01206cc9296a8e41fb7694397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 13/40] fix: interesting runs stopped early when the
 environment planned inputs it must not use

Inputs that violate the safety assumptions were considered as progress towards the
liveness assumptions if the system has no allowed answer to them.
---
 src/extensionComputeInterestingRunOfTheSystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index 05fc9d3..526fc51 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -88,7 +88,7 @@ public:
             BF moves = mgr.constantFalse();
             do {
                 oldWinning = winning;
-                BF newMoves = (((livenessAssumptions[i] | oldWinning.SwapVariables(varVectorPre,varVectorPost)) & nonDeadlockingTransitions) | (!safetySys)).UnivAbstract(varCubePostOutput);
+                BF newMoves = (((livenessAssumptions[i] | oldWinning.SwapVariables(varVectorPre,varVectorPost)) & nonDeadlockingTransitions) | (!safetySys)).UnivAbstract(varCubePostOutput) & safetyEnv;
                 winning = newMoves.ExistAbstract(varCubePostInput);
                 moves |= winning & !oldWinning & newMoves;
             } while (winning!=oldWinning);
-- 
2.43.0


From b24e924e2099c09f19099abb475e4603a52beea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 14/40] fix: interactive commands read beyond the environment
 strategies of unrealizable specifications

For unrealizable specifications there is one strategy per liveness assumption, not
one per guarantee.
---
 src/extensionInteractiveStrategy.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 1492bae..74cfd91 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -254,7 +254,7 @@ public:
                 // Analyse if it is part of a possible strategy
                 std::cout << "- The transition is a possible transition in a strategy for the following goals: ";
                 foundOne = false;
-                for (unsigned int i=0;i<livenessGuarantees.size();i++) {
+                for (unsigned int i=0;i<positionalStrategiesForTheIndividualGoals.size();i++) {
                     if (!(positionalStrategiesForTheIndividualGoals[i] & from & to).isFalse()) {
                         if (foundOne) std::cout << ", ";
                         foundOne = true;
@@ -301,7 +301,7 @@ public:
                     std::cin >> guarantee;
                     if (std::cin.fail()) {
                         std::cout << "    -> Error reading value. Aborting \n";
-                    } else if (guarantee>=livenessGuarantees.size()) {
+                    } else if (guarantee>=positionalStrategiesForTheIndividualGoals.size()) {
                         std::cout << "    -> Number too large. Aborting \n";
                     } else {
 
@@ -392,7 +392,7 @@ public:
                                 // Analyse if it is part of a possible strategy
                                 std::cout << "- The transition is a possible transition in a strategy for the following goals: ";
                                 foundOne = false;
-                                for (unsigned int i=0;i<livenessGuarantees.size();i++) {
+                                for (unsigned int i=0;i<positionalStrategiesForTheIndividualGoals.size();i++) {
                                     if (!(positionalStrategiesForTheIndividualGoals[i] & transition).isFalse()) {
                                         if (foundOne) std::cout << ", ";
                                         foundOne = true;
@@ -477,6 +477,7 @@ public:
                 std::cout.flush();
             } else if (command=="XMAKETRANSRANDOM") {
                 std::cout << "\n"; // Get rid of the prompt
+                if (!realizable) throw "Error: XMAKETRANSRANDOM is only supported for realizable specifications";
                 BF postInput = mgr.constantTrue();
                 for (unsigned int i=0;i<variables.size();i++) {
                     if (doesVariableInheritType(i,PostInput)) {
-- 
2.43.0


From e7cc7ead93af51f6d5d1293e40ad4506a027c4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 15/40] fix: MOVE left a next input undefined if a value other
 than 0 or 1 is entered

---
 src/extensionInteractiveStrategy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 74cfd91..706aef0 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -332,6 +332,7 @@ public:
                                     } else {
                                         std::cout << "    -> Value != 0 or 1. Assuming 1.\n";
                                         to &= variables[i];
+                                        nextPosition &= variables[i];
                                     }
                                 }
                             }
-- 
2.43.0


From e6998d214254a3f04dfa7ccff384f9393b55d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 16/40] fix: XGETINIT announced the first guarantee but kept
 the current one

---
 src/extensionInteractiveStrategy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 706aef0..7f21200 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -579,6 +579,7 @@ public:
                 }
                 std::cout << ",0" << std::endl; // Flushes, too.
                 currentPosition = initialPosition;
+                currentLivenessGuarantee = 0;
             } else if (command=="XCOMPLETEINIT") {
 
                 // This command takes a set of forced values and completes it such that
-- 
2.43.0


From 55e543853123663863b596a0280dbef6cff42507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 17/40] fix: STARTPOS and XGETINIT made up a position if no
 initial one is winning

---
 src/extensionInteractiveStrategy.hpp | 61 ++++++++++++++++------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 7f21200..b2ab75a 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -151,19 +151,22 @@ public:
                 return;
             } else if (command=="STARTPOS") {
                 BF initialPosition = winningPositions & initEnv & initSys;
-                assert(!(initialPosition.isFalse()));
-                initialPosition = determinize(initialPosition,preVars);
-                for (unsigned int i=0;i<variables.size();i++) {
-                    if (doesVariableInheritType(i, Pre)) {
-                        std::cout << " - " << variableNames[i] << ": ";
-                        if ((variables[i] & initialPosition).isFalse()) {
-                            std::cout << "0\n";
-                        } else {
-                            std::cout << "1\n";
+                if (initialPosition.isFalse()) {
+                    std::cout << "Error: There is no winning initial position." << std::endl;
+                } else {
+                    initialPosition = determinize(initialPosition,preVars);
+                    for (unsigned int i=0;i<variables.size();i++) {
+                        if (doesVariableInheritType(i, Pre)) {
+                            std::cout << " - " << variableNames[i] << ": ";
+                            if ((variables[i] & initialPosition).isFalse()) {
+                                std::cout << "0\n";
+                            } else {
+                                std::cout << "1\n";
+                            }
                         }
                     }
+                    currentPosition = initialPosition;
                 }
-                currentPosition = initialPosition;
             } else if (command=="CHECKTRANS") {
 
                 std::cout << "From: \n";
@@ -558,28 +561,32 @@ public:
             } else if (command=="XGETINIT") {
                 std::cout << "\n"; // Get rid of the prompt
                 BF initialPosition = winningPositions & initEnv & initSys;
-                initialPosition = determinize(initialPosition,preVars);
-                for (unsigned int i=0;i<variables.size();i++) {
-                    if (doesVariableInheritType(i,PreInput)) {
-                        if ((variables[i] & initialPosition).isFalse()) {
-                            std::cout << "0";
-                        } else {
-                            std::cout << "1";
+                if (initialPosition.isFalse()) {
+                    std::cout << "ERROR" << std::endl;
+                } else {
+                    initialPosition = determinize(initialPosition,preVars);
+                    for (unsigned int i=0;i<variables.size();i++) {
+                        if (doesVariableInheritType(i,PreInput)) {
+                            if ((variables[i] & initialPosition).isFalse()) {
+                                std::cout << "0";
+                            } else {
+                                std::cout << "1";
+                            }
                         }
                     }
-                }
-                for (unsigned int i=0;i<variables.size();i++) {
-                    if (doesVariableInheritType(i,PreOutput)) {
-                        if ((variables[i] & initialPosition).isFalse()) {
-                            std::cout << "0";
-                        } else {
-                            std::cout << "1";
+                    for (unsigned int i=0;i<variables.size();i++) {
+                        if (doesVariableInheritType(i,PreOutput)) {
+                            if ((variables[i] & initialPosition).isFalse()) {
+                                std::cout << "0";
+                            } else {
+                                std::cout << "1";
+                            }
                         }
                     }
+                    std::cout << ",0" << std::endl; // Flushes, too.
+                    currentPosition = initialPosition;
+                    currentLivenessGuarantee = 0;
                 }
-                std::cout << ",0" << std::endl; // Flushes, too.
-                currentPosition = initialPosition;
-                currentLivenessGuarantee = 0;
             } else if (command=="XCOMPLETEINIT") {
 
                 // This command takes a set of forced values and completes it such that
-- 
2.43.0


From 0cfc4710c5798c06821ff1259e4b0b07e85791a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 18/40] fix: XMAKETRANS made up a successor for positions that
 are not winning

---
 src/extensionInteractiveStrategy.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index b2ab75a..fc7dd51 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -435,12 +435,10 @@ public:
                     }
                 }
                 BF trans = currentPosition & postInput & safetyEnv;
+                trans &= positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
                 if (trans.isFalse()) {
                     std::cout << "ERROR\n";
-                    if (currentPosition.isFalse()) {
-                    }
                 } else {
-                    trans &= positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
 
                     // Switching goals
                     BF newCombination = determinize(trans,postVars);
@@ -497,12 +495,10 @@ public:
                     }
                 }
                 BF trans = currentPosition & postInput & safetyEnv;
+                trans &= positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
                 if (trans.isFalse()) {
                     std::cout << "ERROR\n";
-                    if (currentPosition.isFalse()) {
-                    }
                 } else {
-                    trans &= positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
 
                     // Switching goals
                     BF newCombination = determinizeRandomized(trans,postVars);
-- 
2.43.0


From 9d1ee256abba44f0300eafebdfb4c33dc45ccb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 19/40] fix: XSTRATEGYTRANSITION missed a goal that only the
 printed transition satisfies

---
 src/extensionInteractiveStrategy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index fc7dd51..95423b5 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -1043,8 +1043,8 @@ public:
                             std::cout << std::endl;
 
                             // Print new assumption and guarantee goal counters
-                            if (allSoFar < livenessAssumptions[livenessAssumption]) livenessAssumption++;
-                            if (allSoFar < livenessGuarantees[livenessGuarantee]) livenessGuarantee++;
+                            if (allSoFar <= livenessAssumptions[livenessAssumption]) livenessAssumption++;
+                            if (allSoFar <= livenessGuarantees[livenessGuarantee]) livenessGuarantee++;
                             std::cout << livenessAssumption % livenessAssumptions.size() << std::endl;
                             std::cout << livenessGuarantee % livenessGuarantees.size() << std::endl;
 
-- 
2.43.0


From c5b9722440d2e4e77527430c127804eefb2ae093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 20/40] fix: XSTRATEGYTRANSITION read beyond the strategies for
 goal numbers that do not exist

---
 src/extensionInteractiveStrategy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 95423b5..1467ee1 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -855,7 +855,9 @@ public:
                 //   finite time correctly.
                 BF allSoFar = startingPoint & safetyEnv & forced;
 
-                if (allSoFar.isFalse()) {
+                if ((livenessAssumption>=livenessAssumptions.size()) || (livenessGuarantee>=livenessGuarantees.size())) {
+                    std::cout << "ERROR" << std::endl;
+                } else if (allSoFar.isFalse()) {
                     std::cout << "FAILASSUMPTIONS" << std::endl;
                 } else {
 
-- 
2.43.0


From 60ba8d89c9ec87473293c87c2ac9239624452646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 21/40] fix: interactive mode hung after a value that is not a
 number

---
 src/extensionInteractiveStrategy.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 1467ee1..367d93c 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -179,6 +179,9 @@ public:
                         std::cin >> value;
                         if (std::cin.fail()) {
                             std::cout << "    -> Error reading value. Assuming 0.\n";
+                            std::cin.clear();
+                            std::string restOfLine;
+                            std::getline(std::cin,restOfLine);
                             value = 0;
                         }
                         if (value==0) {
@@ -202,6 +205,9 @@ public:
                         std::cin >> value;
                         if (std::cin.fail()) {
                             std::cout << "    -> Error reading value. Assuming 0.\n";
+                            std::cin.clear();
+                            std::string restOfLine;
+                            std::getline(std::cin,restOfLine);
                             value = 0;
                         }
                         if (value==0) {
@@ -279,6 +285,9 @@ public:
                         std::cin >> value;
                         if (std::cin.fail()) {
                             std::cout << "    -> Error reading value. Assuming 0.\n";
+                            std::cin.clear();
+                            std::string restOfLine;
+                            std::getline(std::cin,restOfLine);
                             value = 0;
                         }
                         if (value==0) {
@@ -304,6 +313,9 @@ public:
                     std::cin >> guarantee;
                     if (std::cin.fail()) {
                         std::cout << "    -> Error reading value. Aborting \n";
+                        std::cin.clear();
+                        std::string restOfLine;
+                        std::getline(std::cin,restOfLine);
                     } else if (guarantee>=positionalStrategiesForTheIndividualGoals.size()) {
                         std::cout << "    -> Number too large. Aborting \n";
                     } else {
@@ -324,6 +336,9 @@ public:
                                     std::cin >> value;
                                     if (std::cin.fail()) {
                                         std::cout << "    -> Error reading value. Assuming 0.\n";
+                                        std::cin.clear();
+                                        std::string restOfLine;
+                                        std::getline(std::cin,restOfLine);
                                         value = 0;
                                     }
                                     if (value==0) {
-- 
2.43.0


From 3ca4ad46cdc493d673255231d50e00c5612d52af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 22/40] fix: reject empty memory buffers and recalls of
 elements not stored yet

---
 src/extensionNondeterministicMotion.hpp | 12 +++++++++---
 src/synthesisContextBasics.cpp          | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 170fe0e..0e0fbe5 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -75,11 +75,17 @@ public:
                 e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number of memory elements.";
                 throw e;
             }
-            std::vector<BF> memoryNew(nofElements);
+            if (nofElements==0) {
+                SlugsException e(false);
+                e << "Error reading line " << lineNumberCurrentlyRead << ". A memory buffer must have at least one element.";
+                throw e;
+            }
+            // Elements are added one after the other so that only those already stored can be recalled
+            std::vector<BF> memoryNew;
             for (unsigned int i=0;i<nofElements;i++) {
-                memoryNew[i] = parseBooleanFormulaRecurseEx(is,allowedTypes,memoryNew,readBDDs);
+                memoryNew.push_back(parseBooleanFormulaRecurseEx(is,allowedTypes,memoryNew,readBDDs));
             }
-            return memoryNew[nofElements-1];
+            return memoryNew.back();
         }
 
         // Memory Functionality - Recall from Buffer
diff --git a/src/synthesisContextBasics.cpp b/src/synthesisContextBasics.cpp
index d14ada0..a100866 100644
--- a/src/synthesisContextBasics.cpp
+++ b/src/synthesisContextBasics.cpp
@@ -43,11 +43,17 @@ BF GR1Context::parseBooleanFormulaRecurse(std::istringstream &is,std::set<Variab
             e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number of memory elements.";
             throw e;
         }
-        std::vector<BF> memoryNew(nofElements);
+        if (nofElements==0) {
+            SlugsException e(false);
+            e << "Error reading line " << lineNumberCurrentlyRead << ". A memory buffer must have at least one element.";
+            throw e;
+        }
+        // Elements are added one after the other so that only those already stored can be recalled
+        std::vector<BF> memoryNew;
         for (unsigned int i=0;i<nofElements;i++) {
-            memoryNew[i] = parseBooleanFormulaRecurse(is,allowedTypes,memoryNew);
+            memoryNew.push_back(parseBooleanFormulaRecurse(is,allowedTypes,memoryNew));
         }
-        return memoryNew[nofElements-1];
+        return memoryNew.back();
     }
 
     // Memory Functionality - Recall from Buffer
-- 
2.43.0


From 7314e9c0fee090addf44414a65aebb97bea9ded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 23/40] fix: refuse cost file lines that consist of a cost
 value only

---
 src/extensionTwoDimensionalCost.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index 55b1caa..b1d20a0 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -188,7 +188,7 @@ public:
                 if (nextLine[0]=='#') {
                     // Pass
                 } else {
-                    unsigned int spaceIndex = nextLine.find(" ");
+                    std::string::size_type spaceIndex = nextLine.find(" ");
                     if (spaceIndex==std::string::npos) {
                         std::cerr << "Error: Cannot read line'" << nextLine << "' from the input file - expecting space-separated cost value (floating point number) in front of the line.\n";
                         throw "Terminated.";
-- 
2.43.0


From bc0033926ec786aae0460656d4b846303bb59ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 24/40] fix: report standard exceptions (e.g. an output file
 that cannot be opened) as errors

---
 src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 792b039..c26ca71 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -370,6 +370,9 @@ int main(int argc, const char **args) {
     } catch (BFDumpDotException e) {
         std::cerr << "Error: " << e.getMessage() << std::endl;
         return 1;
+    } catch (const std::exception &e) {
+        std::cerr << "Error: " << e.what() << std::endl;
+        return 1;
     }
 
 }
-- 
2.43.0


From 01c9cee831cdef7c6f937b1c4e98e5e9e1e80ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 25/40] fix: report read errors on specification files (e.g. a
 directory given as input file)

---
 src/extensionAnalyzeAssumptions.hpp                      | 1 +
 src/extensionAnalyzeInitialPositions.hpp                 | 1 +
 src/extensionIROSfastslow.hpp                            | 1 +
 src/extensionIncompleteInformationEstimatorSynthesis.hpp | 1 +
 src/extensionNondeterministicMotion.hpp                  | 1 +
 src/synthesisContextBasics.cpp                           | 1 +
 6 files changed, 6 insertions(+)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index df27a2a..7f8e878 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -161,6 +161,7 @@ protected:
                 }
             }
         }
+        if (inFile.bad()) throw "Error while reading from the input file.";
 
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index 2547141..7155303 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -355,6 +355,7 @@ public:
                 }
             }
         }
+        if (inFile.bad()) throw "Error while reading from the input file.";
 
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
diff --git a/src/extensionIROSfastslow.hpp b/src/extensionIROSfastslow.hpp
index 50b81ad..0c948a4 100644
--- a/src/extensionIROSfastslow.hpp
+++ b/src/extensionIROSfastslow.hpp
@@ -189,6 +189,7 @@ void init(std::list<std::string> &filenames) {
             }
         }
     }
+    if (inFile.bad()) throw "Error while reading from the input file.";
 
     // Check if variable names have been used twice
     std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
diff --git a/src/extensionIncompleteInformationEstimatorSynthesis.hpp b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
index a4101e4..e576ffa 100644
--- a/src/extensionIncompleteInformationEstimatorSynthesis.hpp
+++ b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
@@ -145,6 +145,7 @@ protected:
                 }
             }
         }
+        if (inFile.bad()) throw "Error while reading from the input file.";
 
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 0e0fbe5..f0e5315 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -334,6 +334,7 @@ public:
                 }
             }
         }
+        if (inFile.bad()) throw "Error while reading from the input file.";
 
         std::vector<BF> varsBDDread;
         // Invert all order to get the least significant bit first
diff --git a/src/synthesisContextBasics.cpp b/src/synthesisContextBasics.cpp
index a100866..d00ea76 100644
--- a/src/synthesisContextBasics.cpp
+++ b/src/synthesisContextBasics.cpp
@@ -222,6 +222,7 @@ void GR1Context::init(std::list<std::string> &filenames) {
             }
         }
     }
+    if (inFile.bad()) throw "Error while reading from the input file.";
 
     // Check if variable names have been used twice
     std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
-- 
2.43.0


From 94ce36df4b7871b7ecbb822181c7a6f1fdd49e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 26/40] fix: report output files that could not be written
 completely

---
 src/BFAbstractionLibrary/BFCuddManager.cpp      | 4 ++--
 src/extensionExtractExplicitCounterstrategy.hpp | 2 +-
 src/extensionExtractExplicitStrategy.hpp        | 2 +-
 src/extensionPermissiveExplicitStrategy.hpp     | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/BFAbstractionLibrary/BFCuddManager.cpp b/src/BFAbstractionLibrary/BFCuddManager.cpp
index 094e486..838e707 100644
--- a/src/BFAbstractionLibrary/BFCuddManager.cpp
+++ b/src/BFAbstractionLibrary/BFCuddManager.cpp
@@ -186,9 +186,9 @@ void BFBddManager::writeBDDToFile(const char *filename, std::string fileprefix,
     );
 
     delete[] idMatcher;
-    fclose(file);
+    int closeReturnValue = fclose(file);
 
-    if (storeReturnValue!=DDDMP_SUCCESS) throw "Error: Unable to write BDD to file.";
+    if ((storeReturnValue!=DDDMP_SUCCESS) || (closeReturnValue!=0)) throw "Error: Unable to write BDD to file.";
 
 }
 
diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index ef74f39..cd2a14f 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -76,12 +76,12 @@ void execute() {
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
 }
diff --git a/src/extensionExtractExplicitStrategy.hpp b/src/extensionExtractExplicitStrategy.hpp
index e2f71c8..4aeffb3 100644
--- a/src/extensionExtractExplicitStrategy.hpp
+++ b/src/extensionExtractExplicitStrategy.hpp
@@ -62,12 +62,12 @@ public:
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
     }
diff --git a/src/extensionPermissiveExplicitStrategy.hpp b/src/extensionPermissiveExplicitStrategy.hpp
index 8695ccc..111d86c 100644
--- a/src/extensionPermissiveExplicitStrategy.hpp
+++ b/src/extensionPermissiveExplicitStrategy.hpp
@@ -65,12 +65,12 @@ public:
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
     }
-- 
2.43.0


From f98bd1fa997ef74df168dfb127271f6f38df2339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 27/40] fix: report results that could not be written to the
 standard output completely

---
 src/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index c26ca71..3b6a1b7 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -347,6 +347,8 @@ int main(int argc, const char **args) {
                 context->computeVariableInformation();
                 context->execute();
                 delete context;
+                std::cout.flush();
+                if (std::cout.fail()) throw "Writing to the standard output failed.";
                 return 0;
             } // else { std::cerr << optionCombinations[i].params << ":" << totalParameters << "!\n"; }
         }
-- 
2.43.0


From f1a74c47745389c0e080e1ed2b97f460de2ad627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 28/40] fix: structured slugs compiler did not translate the
 exclusive disjunction

---
 tools/StructuredSlugsParser/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index e8d3f6b..4cef0b2 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -412,6 +412,11 @@ def parseSimpleFormula(tree, isPrimed):
         for a in tree[2:]:
             ret = ["|"]+ret+parseSimpleFormula(a,isPrimed)
         return ret
+    if (tree[0]=="Xor"):
+        ret = parseSimpleFormula(tree[1],isPrimed)
+        for a in tree[2:]:
+            ret = ["^"]+ret+parseSimpleFormula(a,isPrimed)
+        return ret
     if (tree[0]=="UnaryFormula"):
         if tree[1][0]=="NotOperator":
             return ["!"]+parseSimpleFormula(tree[2],isPrimed)
-- 
2.43.0


From 03cf278532c4618470e4c6f677c5139c34dfb30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 29/40] fix: structured slugs compiler dropped lines that start
 with '[' silently

---
 tools/StructuredSlugsParser/compiler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index 4cef0b2..5e9f20d 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -210,7 +210,8 @@ def parseLTL(ltlTxt,reasonForNotBeingASlugsFormula):
     except p.ParseErrors as exception:
         for t,e in exception.errors:
             if t[0] == p.EOF:
-                print >>sys.stderr, "Formula end not expected here"
+                print("Error in the property line: "+ltlTxt,file=sys.stderr)
+                print("Formula end not expected here",file=sys.stderr)
                 continue
 
             found = repr(t[0])
@@ -422,7 +423,7 @@ def parseSimpleFormula(tree, isPrimed):
             return ["!"]+parseSimpleFormula(tree[2],isPrimed)
         elif tree[1][0]=="NextOperator":
             if isPrimed:
-                raise "Nested nexts are not allowed."
+                raise Exception("Nested nexts are not allowed.")
             return parseSimpleFormula(tree[2],True)
     if (tree[0]=="Assignment"):
         var = tree[1]
@@ -496,8 +497,9 @@ def performConversion(inputFile,thoroughly):
         line = line.strip()
         if line.startswith("["):
             mode = line
-            # if not mode in lines:
-            #    lines[mode] = []
+            if not mode in lines:
+                print("Error: there is no section with the name '"+mode+"'",file=sys.stderr)
+                raise Exception("Translation error")
         else:
             if mode=="" and line.startswith("#"):
                 # Initial comments
-- 
2.43.0


From 28bc995da0f4fdc7f9df525a5bc2d27c058343c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 30/40] fix: structured slugs compiler did not terminate on
 integer variables with negative values

---
 tools/StructuredSlugsParser/compiler.py | 27 +++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index 5e9f20d..a155ce3 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -325,8 +325,8 @@ def addMinimumValueToAllVariables(tree):
         if primed:
             apName = apName[0:len(apName)-1]
         (minimum,maximum) = numberAPLimits[apName]
-        if minimum==0:
-            return tree
+        if minimum<=0:
+            return tree # Negative minimal values are added to the other side of the comparison
         else:
             return ("NumberExpression",tree,("AdditionOperator",),("numeral",str(minimum)))
     elif tree[0] in p.terminals:
@@ -334,13 +334,32 @@ def addMinimumValueToAllVariables(tree):
     else:
         return tuple([tree[0]] + [addMinimumValueToAllVariables(a) for a in tree[1:]])
 
+#-----------------------------------------------
+# The sum of the absolute values of all negative
+# lower bounds of the variable occurrences
+#-----------------------------------------------
+def sumOfNegativeMinimumValues(tree):
+    if tree[0]=="numID":
+        return max(0,-1*numberAPLimits[tree[1].rstrip("'")][0])
+    elif tree[0] in p.terminals:
+        return 0
+    total = sum([sumOfNegativeMinimumValues(a) for a in tree[1:]])
+    if tree[0]=="LeastSignificantBitOverwriteExpression" and total>0:
+        raise Exception("Overwriting the least significant bits is not supported for variables with negative values")
+    return total
+
+def addToExpression(tree,value):
+    if value==0:
+        return tree
+    return ("NumberExpression",tree,("AdditionOperator",),("numeral",str(value)))
+
 #-----------------------------------------------
 # Main Function. Takes the formula tree and adds
 #-----------------------------------------------
 def computeCalculationSubformula(tree, isPrimed):
     memoryStructureParts = []
-    part1MemoryStructurePointers = recurseCalculationSubformula(addMinimumValueToAllVariables(tree[1]),memoryStructureParts, isPrimed)
-    part2MemoryStructurePointers = recurseCalculationSubformula(addMinimumValueToAllVariables(tree[3]),memoryStructureParts, isPrimed)
+    part1MemoryStructurePointers = recurseCalculationSubformula(addToExpression(addMinimumValueToAllVariables(tree[1]),sumOfNegativeMinimumValues(tree[3])),memoryStructureParts, isPrimed)
+    part2MemoryStructurePointers = recurseCalculationSubformula(addToExpression(addMinimumValueToAllVariables(tree[3]),sumOfNegativeMinimumValues(tree[1])),memoryStructureParts, isPrimed)
     # print >>sys.stderr,"P1: "+str(part1MemoryStructurePointers)
     # print >>sys.stderr,"P2: "+str(part2MemoryStructurePointers)
     # print >>sys.stderr,"MSPatComp: "+str(memoryStructureParts)
-- 
2.43.0


From e3dbef93950bcefd1ffc971717ac430e5aa72091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 31/40] fix: explicitStrategyToGraphviz crashed on strategy
 states without successors

---
 tools/explicitStrategyToGraphviz.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/explicitStrategyToGraphviz.py b/tools/explicitStrategyToGraphviz.py
index 29f59e2..2f455b8 100755
--- a/tools/explicitStrategyToGraphviz.py
+++ b/tools/explicitStrategyToGraphviz.py
@@ -32,6 +32,7 @@ for line in sys.stdin.readlines():
     propositions = thesePropositions
     
     states[stateNo] = (rank,theseValues)
+    transitions[stateNo] = []
   if line.strip().startswith("With successors : "):
     successors = line.strip()[18:]
     successors = [a.strip() for a in successors.split(",")]
-- 
2.43.0


From a3aa28769ce39a6a0215b1fea41ee123b40cf30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 32/40] fix: reading a file without a BDD or with too many
 variables crashed

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c           |  8 +++---
 src/BFAbstractionLibrary/BFCuddManager.cpp | 30 ++++++++++++++++++++++
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index d00502e..e917e7d 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -411,7 +411,7 @@ Dddmp_cuddHeaderLoad (
 
   Hdr = DddmpBddReadHeader (NULL, fp);
 
-  Dddmp_CheckAndGotoLabel (Hdr->nnodes==0, "Zero number of nodes.",
+  Dddmp_CheckAndGotoLabel (Hdr==NULL || Hdr->nnodes==0, "Zero number of nodes.",
     failure);
 
   /*
@@ -649,7 +649,7 @@ DddmpCuddDdArrayLoad (
 
   Hdr = DddmpBddReadHeader (NULL, fp);
 
-  Dddmp_CheckAndGotoLabel (Hdr->nnodes==0, "Zero number of nodes.",
+  Dddmp_CheckAndGotoLabel (Hdr==NULL || Hdr->nnodes==0, "Zero number of nodes.",
     failure);
 
   nRoots = Hdr->nRoots;
@@ -1177,7 +1177,9 @@ DddmpCuddDdArrayLoad (
 
 load_end:
 
-  DddmpFreeHeader(Hdr);
+  if (Hdr != NULL) {
+    DddmpFreeHeader(Hdr);
+  }
 
   DDDMP_FREE (pnodes);
   DDDMP_FREE (pvars1byte);
diff --git a/src/BFAbstractionLibrary/BFCuddManager.cpp b/src/BFAbstractionLibrary/BFCuddManager.cpp
index 838e707..25915be 100644
--- a/src/BFAbstractionLibrary/BFCuddManager.cpp
+++ b/src/BFAbstractionLibrary/BFCuddManager.cpp
@@ -139,6 +139,31 @@ BFBdd BFBddManager::readBDDFromFile(const char *filename, std::vector<BFBdd> &va
         throw std::runtime_error(os.str().c_str());
     }
 
+    // The variables in the file are identified by their positions in the vector 'vars',
+    // so a file that refers to more variables than there are cannot be read.
+    Dddmp_DecompType ddType;
+    int nVars = 0, nSuppVars = 0, nRoots = 0;
+    char **suppVarNames = NULL, **orderedVarNames = NULL;
+    int *varIds = NULL, *composeIds = NULL, *auxIds = NULL;
+    bool variablesFit = Dddmp_cuddHeaderLoad(&ddType,&nVars,&nSuppVars,&suppVarNames,&orderedVarNames,&varIds,&composeIds,&auxIds,&nRoots,NULL,file) == DDDMP_SUCCESS;
+    for (int i=0;i<nSuppVars;i++) {
+        if ((varIds!=NULL) && ((varIds[i]<0) || ((size_t)(varIds[i])>=vars.size()))) variablesFit = false;
+        if (suppVarNames!=NULL) free(suppVarNames[i]);
+    }
+    for (int i=0;(orderedVarNames!=NULL) && (i<nVars);i++) free(orderedVarNames[i]);
+    free(suppVarNames);
+    free(orderedVarNames);
+    free(varIds);
+    free(composeIds);
+    free(auxIds);
+    if (!variablesFit) {
+        fclose(file);
+        std::ostringstream os;
+        os << "Error in BFBddManager::readBDDFromFile(const char *filename, std::vector<BFBdd> &vars) - File '" << filename << "' does not contain a BDD over at most " << vars.size() << " variables.";
+        throw std::runtime_error(os.str().c_str());
+    }
+    rewind(file);
+
     int *idMatcher = new int[vars.size()];
     for (unsigned int i=0;i<vars.size();i++) {
         idMatcher[i] = vars[i].readNodeIndex();
@@ -146,6 +171,11 @@ BFBdd BFBddManager::readBDDFromFile(const char *filename, std::vector<BFBdd> &va
     DdNode *node = Dddmp_cuddBddLoad(mgr, DDDMP_VAR_COMPOSEIDS, NULL, NULL, idMatcher, DDDMP_MODE_DEFAULT,NULL,file);
     fclose(file);
     delete[] idMatcher;
+    if (node == NULL) {
+        std::ostringstream os;
+        os << "Error in BFBddManager::readBDDFromFile(const char *filename, std::vector<BFBdd> &vars) - File '" << filename << "' does not contain a BDD.";
+        throw std::runtime_error(os.str().c_str());
+    }
     Cudd_Deref(node);
     return BFBdd(this,node);   
 }
-- 
2.43.0


From b11ff0b64d2bf9bb17f19e7e874abc3ed4cfa7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 33/40] fix: cost-optimal strategies used unsound and
 incomplete reachability layers

---
 src/extensionTwoDimensionalCost.hpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index b1d20a0..c2cf4ce 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -441,19 +441,18 @@ public:
 
                         // Solve a reachability game "on top" in order to find states that are only winning
                         // because of the new SCC
-                        BF allowedEndingTransitions = transitionsAlreadyFoundToBeWinning;
+                        BF allowedEndingTransitions = livenessGuarantees[livenessGoal];
                         BF winningPositionsOld = mgr.constantTrue();
-                        BF winningPositionsNew = mgr.constantFalse();
-                        BF oldPositionsWinning = positionsAlreadyFoundToBeWinning;
+                        BF winningPositionsNew = positionsAlreadyFoundToBeWinning;
                         while (winningPositionsNew!=winningPositionsOld) {
                             winningPositionsOld = winningPositionsNew;
-                            BF newWinningTransitions = (isInftyCostPreVars[0]) & safetySys & (allowedEndingTransitions | (winningPositionsNew.SwapVariables(varVectorPre,varVectorPost)));
-                            winningPositionsNew = ((!safetyEnv) | newWinningTransitions.ExistAbstract(varCubePostOutput)).UnivAbstract(varCubePostInput);
-                            strategyDumpingData.push_back(std::pair<int,BF>(livenessGoal,newWinningTransitions & winningPositionsNew & preTransitionalStateEncoding));
+                            BF newWinningTransitions = preTransitionalStateEncoding & (isInftyCostPreVars[0]) & safetySys & (allowedEndingTransitions | (winningPositionsNew.SwapVariables(varVectorPre,varVectorPost)));
+                            winningPositionsNew |= ((!safetyEnv) | newWinningTransitions.ExistAbstract(varCubePostOutput)).UnivAbstract(varCubePostInput);
+                            strategyDumpingData.push_back(std::pair<int,BF>(livenessGoal,newWinningTransitions));
                             // std::cerr << "Added Strategy dumping data " << strategyDumpingData.size() << " at line " << __LINE__ << std::endl;
-                            transitionsAlreadyFoundToBeWinning |= newWinningTransitions & winningPositionsNew & preTransitionalStateEncoding;
+                            transitionsAlreadyFoundToBeWinning |= newWinningTransitions;
                             //BF_newDumpDot(*this,positionsAlreadyFoundToBeWinning,NULL,filename.str()+"winningPosOld.dot");
-                            positionsAlreadyFoundToBeWinning |= winningPositionsNew & preTransitionalStateEncoding;
+                            positionsAlreadyFoundToBeWinning |= winningPositionsNew;
                             //BF_newDumpDot(*this,newWinningTransitions,NULL,filename.str()+"winningTrans.dot");
                             //BF_newDumpDot(*this,winningPositionsNew,NULL,filename.str()+"winningPosNew.dot");
                         }
@@ -635,16 +634,15 @@ public:
                         allowedEndingTransitions = transitionsAlreadyFoundToBeWinning;
                         BF winningPositionsOld = mgr.constantTrue();
                         BF winningPositionsNew = positionsAlreadyFoundToBeWinning;
-                        BF oldPositionsWinning = mgr.constantFalse();
                         while (winningPositionsNew!=winningPositionsOld) {
                             winningPositionsOld = winningPositionsNew;
-                            BF newWinningTransitions = (!(isInftyCostPreVars[0])) & safetySys & (allowedEndingTransitions | (transitionCosts[0.0] & winningPositionsNew.SwapVariables(varVectorPre,varVectorPost)));
-                            winningPositionsNew = ((!safetyEnv) | newWinningTransitions.ExistAbstract(varCubePostOutput)).UnivAbstract(varCubePostInput);
-                            strategyDumpingData.push_back(std::pair<int,BF>(livenessGoal,newWinningTransitions & winningPositionsNew & preTransitionalStateEncoding));
+                            BF newWinningTransitions = preTransitionalStateEncoding & (!(isInftyCostPreVars[0])) & safetySys & (allowedEndingTransitions | (transitionCosts[0.0] & winningPositionsNew.SwapVariables(varVectorPre,varVectorPost)));
+                            winningPositionsNew |= ((!safetyEnv) | newWinningTransitions.ExistAbstract(varCubePostOutput)).UnivAbstract(varCubePostInput);
+                            strategyDumpingData.push_back(std::pair<int,BF>(livenessGoal,newWinningTransitions));
                             // std::cerr << "Added Strategy dumping data " << strategyDumpingData.size() << " at line " << __LINE__ << std::endl;
-                            transitionsAlreadyFoundToBeWinning |= newWinningTransitions & winningPositionsNew & preTransitionalStateEncoding;
+                            transitionsAlreadyFoundToBeWinning |= newWinningTransitions;
                             //BF_newDumpDot(*this,positionsAlreadyFoundToBeWinning,NULL,filename.str()+"winningPosOld.dot");
-                            positionsAlreadyFoundToBeWinning |= winningPositionsNew & preTransitionalStateEncoding;
+                            positionsAlreadyFoundToBeWinning |= winningPositionsNew;
                             //BF_newDumpDot(*this,newWinningTransitions,NULL,filename.str()+"winningTrans.dot");
                             //BF_newDumpDot(*this,winningPositionsNew,NULL,filename.str()+"winningPosNew.dot");
                         }
-- 
2.43.0


From a90c8fb2e9232b0da29338918dc373127bc208ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 34/40] fix: cost-optimal strategies had no moves for some
 memory values after reaching a goal

---
 src/extensionTwoDimensionalCost.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index c2cf4ce..2f10563 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -320,6 +320,8 @@ public:
         for (unsigned int livenessGoal=0;livenessGoal<livenessGuarantees.size();livenessGoal++) {
             // std::cerr << "Processing liveness objective number " << livenessGoal << std::endl;
 
+            unsigned int firstStrategyPartForThisGoal = strategyDumpingData.size();
+
             // Prepare TODO list
             std::set<TwoDimensionalCostNotionTuple> todo;
             for (auto it = transitionCosts.begin();it!=transitionCosts.end();it++) {
@@ -687,6 +689,14 @@ public:
 
 
 
+            // The strategy for the previous goal leaves the values of the helper bits open when that goal
+            // is reached. So for positions with helper bit values from which the current goal cannot be
+            // reached, use the transitions available for the other helper bit values.
+            unsigned int nofStrategyParts = strategyDumpingData.size();
+            for (unsigned int j=firstStrategyPartForThisGoal;j<nofStrategyParts;j++) {
+                strategyDumpingData.push_back(std::pair<int,BF>(livenessGoal,strategyDumpingData[j].second.ExistAbstract(addedHelperBitsInImplementationPreCube) & !positionsAlreadyFoundToBeWinning));
+            }
+
             // Alter "initSys", so that the system initially uses the best values available
             if (livenessGoal==0) {
                 //BF_newDumpDot(*this,initSys,"Pre","/tmp/initSysInitial.dot");
-- 
2.43.0


From 0fd220e3346683b214d120722c62495df2eeaa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:21 +0000
Subject: [PATCH 35/40] fix: robot abstractions: other outputs were not
 quantified in the predecessor computation

---
 src/extensionNondeterministicMotion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index f0e5315..30ec8d8 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -35,7 +35,7 @@ protected:
     SlugsVectorOfVarBFs postMotionStateVars{PostMotionState,this};
     SlugsVarCube varCubePreMotionState{PreMotionState,this};
     SlugsVarCube varCubePostMotionState{PostMotionState,this};
-    SlugsVarCube varCubePostControllerOutput{PostMotionControlOutput,this};
+    SlugsVarCube varCubePostControllerOutput{PostMotionControlOutput,PostOtherOutput,this};
 
 public:
     static GR1Context* makeInstance(std::list<std::string> &filenames) {
-- 
2.43.0


From 6670a2b63b6f653027e168c8df53849fad4782ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 36/40] fix: cost-optimal strategies with simple recovery
 violated safety guarantees for excluded inputs

---
 src/extensionTwoDimensionalCost.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index 2f10563..39a804f 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -697,6 +697,14 @@ public:
                 strategyDumpingData.push_back(std::pair<int,BF>(livenessGoal,strategyDumpingData[j].second.ExistAbstract(addedHelperBitsInImplementationPreCube) & !positionsAlreadyFoundToBeWinning));
             }
 
+            // When reacting to inputs that violate the safety assumptions, the system must not violate the safety
+            // guarantees and has to stay in the winning positions, just as for strategies without costs.
+            BF recoveryTransitions = (!safetyEnv) & safetySys & winningPositions.SwapVariables(varVectorPre,varVectorPost);
+            for (unsigned int j=firstStrategyPartForThisGoal;j<strategyDumpingData.size();j++) {
+                strategyDumpingData[j].second &= safetyEnv | recoveryTransitions;
+            }
+            strategyDumpingData.push_back(std::pair<int,BF>(livenessGoal,winningPositions & recoveryTransitions));
+
             // Alter "initSys", so that the system initially uses the best values available
             if (livenessGoal==0) {
                 //BF_newDumpDot(*this,initSys,"Pre","/tmp/initSysInitial.dot");
-- 
2.43.0


From d22c78fff1a9474b8d9a04db54d5fd383d33414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:53 +0000
Subject: [PATCH 37/40] fix: initial position analysis crashed on variable
 groups without a master variable

---
 src/extensionAnalyzeInitialPositions.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index 7155303..6509fd9 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -116,6 +116,11 @@ protected:
             }
         }
 
+        // Every group needs its master variable
+        for (auto it = variableGroups.begin();it!=variableGroups.end();it++) {
+            if (it->second.masterVariable==(unsigned int)-1) throw std::string("Error: in the variable groups introduced by the structured slugs parser, a group has no master variable: ")+it->first;
+        }
+
         // Now enumerate cubes. Due to the fact that different binary
         // cubes could have a/the same interpretation with grouped variables,
         // we store lines already given to the user in order to prevent
-- 
2.43.0


From 16b8da84c1e79be58262abbc89fea188ab8c466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:53 +0000
Subject: [PATCH 38/40] fix: motion mode wrote a debugging file to a fixed path
 in /tmp

---
 src/extensionNondeterministicMotion.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 30ec8d8..e7ed585 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -459,7 +459,6 @@ public:
 
         // Check if the result is well-defind. Might fail after an incorrect modification of the above algorithm
         if (!result.isConstant()) {
-            BF_newDumpDot(*this,result,NULL,"/tmp/isRealizable.dot");
             throw "Internal error: Could not establish realizability/unrealizability of the specification!";
         }
 
-- 
2.43.0


From 14b9a2a20f65582913183e8b7679059edd417893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:53 +0000
Subject: [PATCH 39/40] fix: motion mode accepted repeated variable names

---
 src/extensionNondeterministicMotion.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index e7ed585..f01181f 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -336,6 +336,10 @@ public:
         }
         if (inFile.bad()) throw "Error while reading from the input file.";
 
+        // Check if variable names have been used twice
+        std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
+        if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
+
         std::vector<BF> varsBDDread;
         // Invert all order to get the least significant bit first
         for (int i=variables.size()-1;i>=0;i--) {
-- 
2.43.0


From c259d16c8caf507f60cd3ddbc3a16596e3a28eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:53 +0000
Subject: [PATCH 40/40] fix: estimator crashed on integer variables with
 missing bits

---
 src/extensionIncompleteInformationEstimatorSynthesis.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/extensionIncompleteInformationEstimatorSynthesis.hpp b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
index e576ffa..b6f69f0 100644
--- a/src/extensionIncompleteInformationEstimatorSynthesis.hpp
+++ b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
@@ -467,7 +467,9 @@ protected:
                                         std::ostringstream varName;
                                         varName << referenceVarPrefix << "@" << i;
                                         if (doesVariableInheritType(referenceVar,Post)) varName << "'";
-                                        BF thisVar = variables[findVariableNumber(varName.str())];
+                                        unsigned int thisVarNumber = findVariableNumber(varName.str());
+                                        if (thisVarNumber==(unsigned int)-1) throw std::string("Error: The following bit of an integer variable is missing: ")+varName.str();
+                                        BF thisVar = variables[thisVarNumber];
                                         if ((normalizedValue & (1 << i))>0) {
                                             bfReference &= thisVar;
                                         } else {
@@ -494,7 +496,9 @@ protected:
                                             std::ostringstream varName;
                                             varName << simulatedVarPrefix << "@" << i;
                                             if (doesVariableInheritType(simulatedVar,Post)) varName << "'";
-                                            BF thisVar = variables[findVariableNumber(varName.str())];
+                                            unsigned int thisVarNumber = findVariableNumber(varName.str());
+                                            if (thisVarNumber==(unsigned int)-1) throw std::string("Error: The following bit of an integer variable is missing: ")+varName.str();
+                                            BF thisVar = variables[thisVarNumber];
                                             if ((normalizedValue & (1 << i))>0) {
                                                 bfSimulated &= thisVar;
                                             } else {
-- 
2.43.0

