From ab651268111a90a1dce8616fcf4b21b05b189db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 01/22] fix: compare every constant of array operands in
 Program::hasIdenticalBehavior

Only the constant at the operand's location, scaled as a single constant,
was compared, so two programs differing only in another constant of a
Constant[n] operand were declared identical.
---
 gegelatilib/src/program/program.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/gegelatilib/src/program/program.cpp b/gegelatilib/src/program/program.cpp
index f098b29..648206d 100644
--- a/gegelatilib/src/program/program.cpp
+++ b/gegelatilib/src/program/program.cpp
@@ -262,17 +262,24 @@ bool Program::Program::hasIdenticalBehavior(const Program& other) const
                      operandIdx < instruction.getNbOperands(); operandIdx++) {
                     // Is the operand from the Constant data source.
                     if (thisLine.getOperand(operandIdx).first == 1) {
-                        // Check equality of constants
-                        Data::Constant thisCste =
-                            this->getConstantAt(this->constants.scaleLocation(
-                                thisLine.getOperand(operandIdx).second,
-                                typeid(Data::Constant)));
-                        Data::Constant otherCste =
-                            other.getConstantAt(other.constants.scaleLocation(
-                                otherLine.getOperand(operandIdx).second,
-                                typeid(Data::Constant)));
-                        if (thisCste != otherCste) {
-                            return false;
+                        // Check equality of all constants accessed by the
+                        // operand (there are several for array operands).
+                        const std::type_info& instType =
+                            instruction.getOperandTypes().at(operandIdx);
+                        const std::type_info& operandType =
+                            this->constants.canHandle(instType)
+                                ? instType
+                                : typeid(Data::Constant);
+                        uint64_t location = this->constants.scaleLocation(
+                            thisLine.getOperand(operandIdx).second,
+                            operandType);
+                        for (size_t address :
+                             this->constants.getAddressesAccessed(operandType,
+                                                                  location)) {
+                            if (this->getConstantAt(address) !=
+                                other.getConstantAt(address)) {
+                                return false;
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 6d3b73d496128052f661776707cb44f2fe4871a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:41 +0000
Subject: [PATCH 02/22] fix: mutateProgram reports a modification only when
 lines were swapped

A swap drawn on a program with a single line does nothing, but
mutateProgram() returned true.
---
 gegelatilib/src/mutator/programMutator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gegelatilib/src/mutator/programMutator.cpp b/gegelatilib/src/mutator/programMutator.cpp
index 88e8b08..74871b9 100644
--- a/gegelatilib/src/mutator/programMutator.cpp
+++ b/gegelatilib/src/mutator/programMutator.cpp
@@ -147,8 +147,7 @@ bool Mutator::ProgramMutator::mutateProgram(Program::Program& p,
     }
 
     if (rng.getDouble(0.0, 1.0) < params.prog.pSwap) {
-        anyMutation = true;
-        swapRandomLines(p, rng);
+        anyMutation |= swapRandomLines(p, rng);
     }
 
     // mutate the programs constants if they exists
-- 
2.43.0


From 8cab5a238e28d16af8a73c6ff22b7f8ed1b3c333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:07 +0000
Subject: [PATCH 03/22] fix: leave the graph unchanged when an edge source
 cannot be set

TPGGraph::setEdgeSource() unregistered the edge from its old source before
registering it to the new one, which throws when it is an action: the edge
was then listed by no vertex.
---
 gegelatilib/src/tpg/tpgGraph.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gegelatilib/src/tpg/tpgGraph.cpp b/gegelatilib/src/tpg/tpgGraph.cpp
index 75a6451..f6608aa 100644
--- a/gegelatilib/src/tpg/tpgGraph.cpp
+++ b/gegelatilib/src/tpg/tpgGraph.cpp
@@ -292,10 +292,13 @@ bool TPG::TPGGraph::setEdgeSource(const TPGEdge& edge, const TPGVertex& newSrc)
         // finding the vertex should not fail. Otherwise, the exception for
         // next line would be well deserved since it means an edge in the
         // graph is connected to a vertex not in the graph.
-        (*iterOldSrc)->removeOutgoingEdge(iterEdge->get());
-        // Register the edge to the new source
-        (*iterNewSrc)->addOutgoingEdge(iterEdge->get());
-        // Set the destination
+        if (iterOldSrc != iterNewSrc) {
+            // Register the edge to the new source first, because it may throw
+            // if the new source is an action.
+            (*iterNewSrc)->addOutgoingEdge(iterEdge->get());
+            (*iterOldSrc)->removeOutgoingEdge(iterEdge->get());
+        }
+        // Set the source
         iterEdge->get()->setSource(*(iterNewSrc));
         return true;
     }
-- 
2.43.0


From df356205cb0fc92c5baf77539d10fe280c01fb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 04/22] fix: combining evaluation results without any
 evaluation does not produce NaN

---
 gegelatilib/src/learn/adversarialEvaluationResult.cpp    | 5 +++++
 gegelatilib/src/learn/classificationEvaluationResult.cpp | 6 ++++++
 gegelatilib/src/learn/evaluationResult.cpp               | 4 +++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/learn/adversarialEvaluationResult.cpp b/gegelatilib/src/learn/adversarialEvaluationResult.cpp
index 77a41a9..c5a1e64 100644
--- a/gegelatilib/src/learn/adversarialEvaluationResult.cpp
+++ b/gegelatilib/src/learn/adversarialEvaluationResult.cpp
@@ -59,6 +59,11 @@ Learn::EvaluationResult& Learn::AdversarialEvaluationResult::operator+=(
             "Size mismatch between AdversarialEvaluationResults.");
     }
 
+    // Nothing to combine when none of the results holds an evaluation.
+    if (this->nbEvaluation == 0 && otherConverted.nbEvaluation == 0) {
+        return *this;
+    }
+
     // If the added type is Learn::EvaluationResult
     // Weighted addition of results
     for (int i = 0; i < scores.size(); i++) {
diff --git a/gegelatilib/src/learn/classificationEvaluationResult.cpp b/gegelatilib/src/learn/classificationEvaluationResult.cpp
index 6228d59..e3e6c2d 100644
--- a/gegelatilib/src/learn/classificationEvaluationResult.cpp
+++ b/gegelatilib/src/learn/classificationEvaluationResult.cpp
@@ -65,6 +65,12 @@ Learn::EvaluationResult& Learn::ClassificationEvaluationResult::operator+=(
         }
 
         for (auto idx = 0; idx < this->scorePerClass.size(); idx++) {
+            // Nothing to combine for a class without any evaluation.
+            if (this->nbEvaluationPerClass.at(idx) == 0 &&
+                otherEval.nbEvaluationPerClass.at(idx) == 0) {
+                continue;
+            }
+
             // Weighted sum of scores.
             this->scorePerClass.at(idx) =
                 this->scorePerClass.at(idx) *
diff --git a/gegelatilib/src/learn/evaluationResult.cpp b/gegelatilib/src/learn/evaluationResult.cpp
index cffb98b..c638093 100644
--- a/gegelatilib/src/learn/evaluationResult.cpp
+++ b/gegelatilib/src/learn/evaluationResult.cpp
@@ -57,7 +57,9 @@ Learn::EvaluationResult& Learn::EvaluationResult::operator+=(
     }
 
     // If the added type is Learn::EvaluationResult
-    if (thisType == typeid(Learn::EvaluationResult)) {
+    // (nothing to combine when none of the results holds an evaluation)
+    if (thisType == typeid(Learn::EvaluationResult) &&
+        (this->nbEvaluation != 0 || other.nbEvaluation != 0)) {
         // Weighted addition of results
         this->result = this->result * (double)this->nbEvaluation +
                        other.result * (double)other.nbEvaluation;
-- 
2.43.0


From 44acc5bc597bba0e7871d959a06d6b0eb5ec7c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 05/22] fix: assigning a primitive type array invalidates its
 cached hash

---
 gegelatilib/include/data/primitiveTypeArray.h   | 3 +++
 gegelatilib/include/data/primitiveTypeArray2D.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/gegelatilib/include/data/primitiveTypeArray.h b/gegelatilib/include/data/primitiveTypeArray.h
index 5fab7d4..ef697e5 100644
--- a/gegelatilib/include/data/primitiveTypeArray.h
+++ b/gegelatilib/include/data/primitiveTypeArray.h
@@ -228,6 +228,9 @@ namespace Data {
             for (auto i = 0; i < this->nbElements; i++) {
                 this->data.at(i) = other.data.at(i);
             }
+
+            // Invalidate the cached hash.
+            this->invalidCachedHash = true;
         }
         return *this;
     }
diff --git a/gegelatilib/include/data/primitiveTypeArray2D.h b/gegelatilib/include/data/primitiveTypeArray2D.h
index d22f9d7..b9a09b5 100644
--- a/gegelatilib/include/data/primitiveTypeArray2D.h
+++ b/gegelatilib/include/data/primitiveTypeArray2D.h
@@ -230,6 +230,9 @@ namespace Data {
             for (auto i = 0; i < this->nbElements; i++) {
                 this->data.at(i) = other.data.at(i);
             }
+
+            // Invalidate the cached hash.
+            this->invalidCachedHash = true;
         }
         return *this;
     }
-- 
2.43.0


From 12ea4e3ef59ae8a400d7dc1b71a55a0d1d429bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 06/22] fix: keepBestPolicy keeps only the best root even when
 another team leads to it

---
 gegelatilib/src/learn/learningAgent.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 2c74dea..799fc3f 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -422,14 +422,19 @@ void Learn::LearningAgent::keepBestPolicy()
         auto bestRootVertex = this->bestRoot.first;
 
         // Remove all but the best root from the tpg
-        while (this->tpg->getNbRootVertices() != 1) {
+        // (until the best root is the only root left, since it may itself be
+        // the destination of another team)
+        bool removed;
+        do {
+            removed = false;
             auto roots = this->tpg->getRootVertices();
             for (auto root : roots) {
                 if (root != bestRootVertex) {
                     tpg->removeVertex(*root);
+                    removed = true;
                 }
             }
-        }
+        } while (removed);
     }
 }
 
-- 
2.43.0


From 7ebcf37b0481d16b2bdcb377923a5aaec11196af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 07/22] fix: forget the recorded results of roots removed by
 init and keepBestPolicy

---
 gegelatilib/src/learn/learningAgent.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 799fc3f..31e5428 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -80,6 +80,9 @@ void Learn::LearningAgent::init(uint64_t seed)
 
     // Clear the best root
     this->bestRoot = {nullptr, nullptr};
+
+    // Clear the results of roots removed when the tpg was initialized
+    this->resultsPerRoot.clear();
 }
 
 void Learn::LearningAgent::addLogger(Log::LALogger& logger)
@@ -431,6 +434,8 @@ void Learn::LearningAgent::keepBestPolicy()
             for (auto root : roots) {
                 if (root != bestRootVertex) {
                     tpg->removeVertex(*root);
+                    // Removed stored result (if any)
+                    this->resultsPerRoot.erase(root);
                     removed = true;
                 }
             }
-- 
2.43.0


From abf2c424bf116e74b7de0e0cfd00f78c7e7695f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 08/22] fix: keep the first champions within the roots of the
 graph

When no root is deleted (ratioDeletedRoots of 0, or so low that all roots are
kept), makeJobs read one root beyond the end of the list of roots.
---
 gegelatilib/src/learn/adversarialLearningAgent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 66c5103..dc3283b 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -192,7 +192,8 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
     // if champions is empty fills it with the first roots come
     if (champions.size() == 0) {
         for (int i = 0;
-             i <= (double)roots.size() * (1.0 - params.ratioDeletedRoots);
+             i <= (double)roots.size() * (1.0 - params.ratioDeletedRoots) &&
+             i < roots.size();
              i++) {
             champions.emplace_back(roots[i]);
         }
-- 
2.43.0


From 65895dd5993a72532d5e8dec04a269949ba38e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 09/22] fix: do not report the absence of cycles right after
 reporting a cycle

---
 gegelatilib/src/log/cycleDetectionLALogger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gegelatilib/src/log/cycleDetectionLALogger.cpp b/gegelatilib/src/log/cycleDetectionLALogger.cpp
index 9f20e80..72fa41a 100644
--- a/gegelatilib/src/log/cycleDetectionLALogger.cpp
+++ b/gegelatilib/src/log/cycleDetectionLALogger.cpp
@@ -112,6 +112,8 @@ void Log::CycleDetectionLALogger::logAfterPopulateTPG()
         // This happens when a connected sub-graph has no root, which indicates
         // that the subgraph has a cycle.
         *this << "A cycle was detected in the TPG.";
+
+        return;
     }
 
     // If this point of the algorithm is reached, no cycle were detected
-- 
2.43.0


From 1e947e0e7f29ea0b20b7d1d237c9297659a71dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 10/22] fix: forget adversarial champions removed from the
 graph

After init() or keepBestPolicy(), the champions of the previous training were
still used as opponents although their vertices had been deleted.
---
 gegelatilib/src/learn/adversarialLearningAgent.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index dc3283b..757cb4a 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -34,6 +34,7 @@
  * knowledge of the CeCILL-C license and that you accept its terms.
  */
 
+#include <algorithm>
 #include <fstream>
 #include <memory>
 
@@ -189,6 +190,13 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
 
     auto roots = tpgGraph->getRootVertices();
 
+    // Forget champions that were removed from the graph since their selection
+    champions.erase(std::remove_if(champions.begin(), champions.end(),
+                                   [&tpgGraph](const TPG::TPGVertex* champion) {
+                                       return !tpgGraph->hasVertex(*champion);
+                                   }),
+                    champions.end());
+
     // if champions is empty fills it with the first roots come
     if (champions.size() == 0) {
         for (int i = 0;
-- 
2.43.0


From 6eddc75a5d71f74669ef6bf9e203d279d3d16c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 11/22] fix: clone the learning environments before starting
 the evaluation threads

Threads cloned the environment of the agent while the main thread was
already playing on it.
---
 .../include/learn/parallelLearningAgent.h     |  7 +++--
 .../src/learn/parallelLearningAgent.cpp       | 28 +++++++++----------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/gegelatilib/include/learn/parallelLearningAgent.h b/gegelatilib/include/learn/parallelLearningAgent.h
index 67d5c04..aaa7367 100644
--- a/gegelatilib/include/learn/parallelLearningAgent.h
+++ b/gegelatilib/include/learn/parallelLearningAgent.h
@@ -143,8 +143,8 @@ namespace Learn {
          * Mutex protecting the results. \param[in,out] archiveMap Map
          * storing the exhaustiveArchive to be merged. \param[in]
          * archiveMapMutex Mutex protecting the archiveMap.
-         * \param[in] useMainEnvironment Boolean that is true if we use the
-         * declared LearningEnvironment, otherwise the method will clone it.
+         * \param[in] privateLearningEnvironment LearningEnvironment used by
+         * this thread only.
          */
         void slaveEvalJobThread(
             uint64_t generationNumber, LearningMode mode,
@@ -155,7 +155,8 @@ namespace Learn {
                 resultsPerRootMap,
             std::mutex& resultsPerRootMapMutex,
             std::map<uint64_t, Archive*>& archiveMap,
-            std::mutex& archiveMapMutex, bool useMainEnvironment);
+            std::mutex& archiveMapMutex,
+            LearningEnvironment& privateLearningEnvironment);
 
         /**
          * \brief Method to merge several Archive created in parallel
diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index 95a0013..f28a092 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -92,17 +92,12 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
                                  std::shared_ptr<Job>>>& resultsPerRootMap,
     std::mutex& resultsPerRootMapMutex,
     std::map<uint64_t, Archive*>& archiveMap, std::mutex& archiveMapMutex,
-    bool useMainEnvironment)
+    LearningEnvironment& privateLearningEnvironment)
 {
 
-    // Clone learningEnvironment
-    LearningEnvironment* privateLearningEnvironment =
-        useMainEnvironment ? &this->learningEnvironment
-                           : this->learningEnvironment.clone();
-
     // Create a TPGExecutionEngine
     Environment privateEnv(this->env.getInstructionSet(),
-                           privateLearningEnvironment->getDataSources(),
+                           privateLearningEnvironment.getDataSources(),
                            this->env.getNbRegisters(),
                            this->env.getNbConstant());
     std::unique_ptr<TPG::TPGExecutionEngine> tee =
@@ -137,7 +132,7 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
 
             std::shared_ptr<EvaluationResult> avgScore =
                 this->evaluateJob(*tee, *jobToProcess, generationNumber, mode,
-                                  *privateLearningEnvironment);
+                                  privateLearningEnvironment);
 
             { // Store result Mutual exclusion zone
                 std::lock_guard<std::mutex> lock(resultsPerRootMapMutex);
@@ -155,11 +150,6 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
             }
         }
     }
-
-    // Clean up
-    if (!useMainEnvironment) {
-        delete privateLearningEnvironment;
-    }
 }
 
 void Learn::ParallelLearningAgent::mergeArchiveMap(
@@ -246,6 +236,13 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
     std::mutex resultsPerRootMutex;
     std::mutex archiveMapMutex;
 
+    // Clone the learningEnvironment for each thread. This is done before any
+    // thread starts, as the main thread will use the original.
+    std::vector<std::unique_ptr<LearningEnvironment>> environments;
+    for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
+        environments.emplace_back(this->learningEnvironment.clone());
+    }
+
     // Create the threads
     std::vector<std::thread> threads;
     for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
@@ -253,14 +250,15 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
             &ParallelLearningAgent::slaveEvalJobThread, this, generationNumber,
             mode, std::ref(jobsToProcess), std::ref(rootsToProcessMutex),
             std::ref(resultsPerJobMap), std::ref(resultsPerRootMutex),
-            std::ref(archiveMap), std::ref(archiveMapMutex), false));
+            std::ref(archiveMap), std::ref(archiveMapMutex),
+            std::ref(*environments.at(i))));
     }
 
     // Work in the main thread also, using the main environment
     this->slaveEvalJobThread(generationNumber, mode, jobsToProcess,
                              rootsToProcessMutex, resultsPerJobMap,
                              resultsPerRootMutex, archiveMap, archiveMapMutex,
-                             true);
+                             this->learningEnvironment);
 
     // Join the threads
     for (auto& thread : threads) {
-- 
2.43.0


From 0a6d268efe016177b74ce0a067329a0fe20e82a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 12/22] fix: only look at the queue of jobs with its mutex held

Threads tested whether it is empty while others were removing jobs.
---
 gegelatilib/src/learn/parallelLearningAgent.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index f28a092..febc884 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -103,15 +103,14 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
     std::unique_ptr<TPG::TPGExecutionEngine> tee =
         this->tpg->getFactory().createTPGExecutionEngine(privateEnv, NULL);
 
-    int i = 0;
+    bool doProcess;
     // Pop a job
-    while (!jobsToProcess.empty()) { // Thread safe access to size
-        i++;
-        bool doProcess = false;
+    do {
+        doProcess = false;
         std::shared_ptr<Learn::Job> jobToProcess;
         { // Mutuel exclusion zone
             std::lock_guard<std::mutex> lock(rootsToProcessMutex);
-            if (!jobsToProcess.empty()) { // Additional verification after lock
+            if (!jobsToProcess.empty()) {
                 jobToProcess = jobsToProcess.front();
                 jobsToProcess.pop();
                 doProcess = true;
@@ -120,7 +119,6 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
 
         // Processing to do?
         if (doProcess) {
-            doProcess = false;
             // Dedicated archive for the root
             Archive* temporaryArchive = NULL;
             if (mode == LearningMode::TRAINING) {
@@ -149,7 +147,7 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
                 }
             }
         }
-    }
+    } while (doProcess);
 }
 
 void Learn::ParallelLearningAgent::mergeArchiveMap(
-- 
2.43.0


From 0d8bb0ee286b580a27a1c2d5ab7bb4781ca75a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 13/22] fix: number data handlers atomically

Evaluation and mutation threads create data handlers concurrently.
---
 gegelatilib/include/data/dataHandler.h | 3 ++-
 gegelatilib/src/data/dataHandler.cpp   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/data/dataHandler.h b/gegelatilib/include/data/dataHandler.h
index c7b84b1..9ed7f25 100644
--- a/gegelatilib/include/data/dataHandler.h
+++ b/gegelatilib/include/data/dataHandler.h
@@ -38,6 +38,7 @@
 #ifndef DATA_HANDLER_H
 #define DATA_HANDLER_H
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <typeinfo>
@@ -57,7 +58,7 @@ namespace Data {
         /**
          * \brief Static count used to initialize the id of each DataHandler.
          */
-        static size_t count;
+        static std::atomic<size_t> count;
 
         /**
          * \brief Identifier of each DataHandler.
diff --git a/gegelatilib/src/data/dataHandler.cpp b/gegelatilib/src/data/dataHandler.cpp
index e03af5c..c5ebd79 100644
--- a/gegelatilib/src/data/dataHandler.cpp
+++ b/gegelatilib/src/data/dataHandler.cpp
@@ -39,7 +39,7 @@
 
 #include "data/dataHandler.h"
 
-size_t Data::DataHandler::count = 0;
+std::atomic<size_t> Data::DataHandler::count{0};
 
 Data::DataHandler::DataHandler()
     : id{count++}, cachedHash(), invalidCachedHash(true){};
-- 
2.43.0


From b0a417ad25d97462e11217891dca9290cda072fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 14/22] fix: keep the cached address spaces of a handler
 private to each thread

Handlers are shared between threads: the constants of a Program by all its
executions, the data sources of an Environment and the archived observations
by the parallel mutations of Programs. getAddressSpace() inserted in a map of
the shared handler without synchronisation.
---
 gegelatilib/include/data/array2DWrapper.h | 45 ++++++++++-------------
 gegelatilib/include/data/arrayWrapper.h   | 38 ++++++++-----------
 2 files changed, 35 insertions(+), 48 deletions(-)

diff --git a/gegelatilib/include/data/array2DWrapper.h b/gegelatilib/include/data/array2DWrapper.h
index 5139710..3f440a6 100644
--- a/gegelatilib/include/data/array2DWrapper.h
+++ b/gegelatilib/include/data/array2DWrapper.h
@@ -37,6 +37,9 @@
 #ifndef ARRAY_2D_WRAPPER_H
 #define ARRAY_2D_WRAPPER_H
 
+#include <map>
+#include <tuple>
+
 #include "data/arrayWrapper.h"
 #include "data/dataHandler.h"
 #include "data/demangle.h"
@@ -66,25 +69,6 @@ namespace Data {
      */
     template <class T> class Array2DWrapper : public ArrayWrapper<T>
     {
-      private:
-        /**
-         * \brief Caching mechanism for storing addressSpace for different
-         * types.
-         *
-         * This map stores for each data type the size of the addressSpace for
-         * the Array2DWrapper. The purpose of this cache is to accelerate
-         * the numerous access to the addressSpace for different data types, by
-         * performing it only once per data type requested by the Instructions,
-         * through the ProgramExecutionEngine.
-         *
-         * This map is updated and used by the getAddressSpace method.
-         *
-         * Like the getAddressSpace method of the 2D array, this map stores all
-         * type dimensions.
-         */
-        mutable std::map<std::type_index, std::tuple<size_t, size_t, size_t>>
-            cachedAddressSpace;
-
       protected:
         /// Number of columns of the 2D array.
         size_t width;
@@ -217,9 +201,20 @@ namespace Data {
     size_t Array2DWrapper<T>::getAddressSpace(const std::type_info& type,
                                               size_t* dim1, size_t* dim2) const
     {
+        // Caching mechanism for the address spaces computed for the requested
+        // types. The cache stores all type dimensions. It belongs to the
+        // calling thread, as handlers may be shared between threads (e.g. by
+        // Programs mutated in parallel).
+        static thread_local std::map<
+            std::tuple<std::type_index, size_t, size_t>,
+            std::tuple<size_t, size_t, size_t>>
+            cachedAddressSpace;
+        const std::tuple<std::type_index, size_t, size_t> key{
+            type, this->height, this->width};
+
         // Has the result been cached
-        auto iter = this->cachedAddressSpace.find(type);
-        if (iter != this->cachedAddressSpace.end()) {
+        auto iter = cachedAddressSpace.find(key);
+        if (iter != cachedAddressSpace.end()) {
             if (dim1 != nullptr) {
                 *dim1 = std::get<1>(iter->second);
             }
@@ -232,8 +227,8 @@ namespace Data {
         size_t result = 0;
         // The parent function is not used to avoid performing 2 regex matches.
         if (type == typeid(T)) {
-            this->cachedAddressSpace.emplace(
-                type, std::make_tuple(this->nbElements, 0, 0));
+            cachedAddressSpace.emplace(
+                key, std::make_tuple(this->nbElements, 0, 0));
             result = this->nbElements;
         }
 
@@ -272,8 +267,8 @@ namespace Data {
                     if (dim2 != nullptr) {
                         *dim2 = typeW;
                     }
-                    this->cachedAddressSpace.emplace(
-                        type, std::make_tuple(result, typeH, typeW));
+                    cachedAddressSpace.emplace(
+                        key, std::make_tuple(result, typeH, typeW));
                 }
             }
         }
diff --git a/gegelatilib/include/data/arrayWrapper.h b/gegelatilib/include/data/arrayWrapper.h
index ec26b4d..81576fe 100644
--- a/gegelatilib/include/data/arrayWrapper.h
+++ b/gegelatilib/include/data/arrayWrapper.h
@@ -44,6 +44,7 @@
 #include <stdexcept>
 #include <typeindex>
 #include <typeinfo>
+#include <utility>
 
 #include "data/constant.h"
 #include "data/dataHandler.h"
@@ -72,21 +73,6 @@ namespace Data {
                       "Template class PrimitiveTypeArray<T> can only be used "
                       "for primitive types.");
 
-      private:
-        /**
-         * \brief Caching mechanism for storing addressSpace for different
-         * types.
-         *
-         * This map stores for each data type the size of the addressSpace for
-         * the PrimitiveTypeArray. The purpose of this cache is to accelerate
-         * the numerous access to the addressSpace for different data types, by
-         * performing it only once per data type requested by the Instructions,
-         * through the ProgramExecutionEngine.
-         *
-         * This map is updated and used by the getAddressSpace method.
-         */
-        mutable std::map<std::type_index, size_t> cachedAddressSpace;
-
       protected:
         /**
          * \brief Number of elements contained pointer vector.
@@ -273,17 +259,23 @@ namespace Data {
     template <class T>
     size_t ArrayWrapper<T>::getAddressSpace(const std::type_info& type) const
     {
-        // Has the addresSpaceSize been cached
-        auto iter = this->cachedAddressSpace.find(type);
-        if (iter != this->cachedAddressSpace.end()) {
-            return iter->second;
-        }
-
         if (type == typeid(T)) {
-            this->cachedAddressSpace.emplace(type, this->nbElements);
             return this->nbElements;
         }
 
+        // Caching mechanism for the address spaces computed for array types.
+        // The cache belongs to the calling thread, as handlers may be shared
+        // between threads (e.g. by Programs mutated in parallel).
+        static thread_local std::map<std::pair<std::type_index, size_t>, size_t>
+            cachedAddressSpace;
+        const std::pair<std::type_index, size_t> key{type, this->nbElements};
+
+        // Has the addresSpaceSize been cached
+        auto iter = cachedAddressSpace.find(key);
+        if (iter != cachedAddressSpace.end()) {
+            return iter->second;
+        }
+
         // If the type is an array of the primitive type
         // with a size inferior to the container.
         std::string typeName = DEMANGLE_TYPEID_NAME(type.name());
@@ -295,7 +287,7 @@ namespace Data {
             int size = std::atoi(cm[2].str().c_str());
             if (size <= this->nbElements) {
                 size_t result = this->nbElements - size + 1;
-                this->cachedAddressSpace.emplace(type, result);
+                cachedAddressSpace.emplace(key, result);
                 return result;
             }
         }
-- 
2.43.0


From fc6a1993e83c1a081d20302e59a49b77d10101f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 15/22] fix: read the width of a 2D source when printing a 1D
 operand

---
 gegelatilib/src/data/dataHandlerPrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegelatilib/src/data/dataHandlerPrinter.cpp b/gegelatilib/src/data/dataHandlerPrinter.cpp
index 53022f7..20a4b53 100644
--- a/gegelatilib/src/data/dataHandlerPrinter.cpp
+++ b/gegelatilib/src/data/dataHandlerPrinter.cpp
@@ -74,7 +74,7 @@ std::string Data::DataHandlerPrinter::printDataAt(
             }
             else {
 
-                size_t width = dataSizes.at(0);
+                size_t width = dataSizes.at(1);
                 size_t arrayWidth = opDimension.at(0);
 
                 size_t addressH = address / (width - arrayWidth + 1);
-- 
2.43.0


From 73e8990b6bb945f3ef61fd508d960f2055bdc0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 16/22] fix: name the root of code generated in stack mode
 after its kind

---
 gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
index 40604f8..65ff8a3 100644
--- a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
+++ b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
@@ -122,7 +122,7 @@ void CodeGen::TPGStackGenerationEngine::generateAction(
 void CodeGen::TPGStackGenerationEngine::setRoot(const TPG::TPGVertex& team)
 {
     fileMainH << "\nextern void* (*root)(int* action);" << std::endl;
-    fileMain << "void* (*root)(int* action) = T" << findVertexID(team) << ";"
+    fileMain << "void* (*root)(int* action) = " << vertexName(team) << ";"
              << std::endl;
 }
 
-- 
2.43.0


From 234ad066ed98969253b546a3e8009a0695bbd3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 17/22] fix: generate the function of an action identifier once
 in stack mode

---
 .../src/codeGen/tpgStackGenerationEngine.cpp   | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
index 65ff8a3..c800e4c 100644
--- a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
+++ b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
@@ -38,6 +38,9 @@
 
 #ifdef CODE_GENERATION
 
+#include <set>
+#include <string>
+
 #include "codeGen/tpgStackGenerationEngine.h"
 
 CodeGen::TPGStackGenerationEngine::TPGStackGenerationEngine(
@@ -133,13 +136,18 @@ void CodeGen::TPGStackGenerationEngine::generateTPGGraph()
 
     std::map<const TPG::TPGTeam*, std::list<TPG::TPGEdge*>> graph;
     auto vertices = this->tpg.getVertices();
+    // Several actions may have the same id: their function is printed once.
+    std::set<uint64_t> actionIDs;
     // give an id for each team of the graph
     for (auto vertex : vertices) {
         if (dynamic_cast<const TPG::TPGTeam*>(vertex) != nullptr) {
             generateTeam(*(const TPG::TPGTeam*)vertex);
         }
         else if (dynamic_cast<const TPG::TPGAction*>(vertex) != nullptr) {
-            generateAction(*(const TPG::TPGAction*)vertex);
+            auto& action = *(const TPG::TPGAction*)vertex;
+            if (actionIDs.insert(action.getActionID()).second) {
+                generateAction(action);
+            }
         }
     }
     setRoot(*tpg.getRootVertices().at(0));
@@ -205,9 +213,13 @@ void CodeGen::TPGStackGenerationEngine::initHeaderFile()
     fileMainH << "#include <stdlib.h>\n\n";
 
     fileMainH << "typedef enum Vertex {";
+    std::set<std::string> names;
     for (auto vertex : this->tpg.getVertices()) {
-        fileMainH << vertexName(*vertex) << "Vert"
-                  << ", ";
+        std::string name = vertexName(*vertex);
+        if (names.insert(name).second) {
+            fileMainH << name << "Vert"
+                      << ", ";
+        }
     }
 
     fileMainH << "} Vertex;\n\n"
-- 
2.43.0


From f372cb9d19aac4b1cfbe2f0eea7ed3e7031b6069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 18/22] fix: read action identifiers of DOT files as 64-bit
 numbers

---
 gegelatilib/src/file/tpgGraphDotImporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegelatilib/src/file/tpgGraphDotImporter.cpp b/gegelatilib/src/file/tpgGraphDotImporter.cpp
index 3f9eaf3..43c88be 100644
--- a/gegelatilib/src/file/tpgGraphDotImporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotImporter.cpp
@@ -212,7 +212,7 @@ void File::TPGGraphDotImporter::readAction(std::smatch& matches)
 {
     if (!this->lastLine.empty() && !matches.empty()) {
         // the regex matches two groups (action number and action label)
-        uint64_t action_label = std::stoi(matches[2]);
+        uint64_t action_label = std::stoull(matches[2]);
         uint64_t action_number = std::stoi(matches[1]);
 
         // elmt points to the action with the same label as the action we are
-- 
2.43.0


From c8a3dbe481109fccbf1cb01982ebbafdfab6bb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 19/22] fix: export the destination of every edge sharing a
 program

---
 gegelatilib/include/file/tpgGraphDotExporter.h |  7 +++++++
 gegelatilib/src/file/tpgGraphDotExporter.cpp   | 11 ++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/include/file/tpgGraphDotExporter.h b/gegelatilib/include/file/tpgGraphDotExporter.h
index 1c1d61c..5dce2d7 100644
--- a/gegelatilib/include/file/tpgGraphDotExporter.h
+++ b/gegelatilib/include/file/tpgGraphDotExporter.h
@@ -70,6 +70,13 @@ namespace File {
          */
         std::string offset;
 
+        /**
+         * \brief Map associating each printed Program to the destination
+         * printed with the first TPGEdge using it.
+         */
+        std::map<const Program::Program*, const TPG::TPGVertex*>
+            programDestination;
+
         /**
          * \brief Print the dot content for the given TPGTeam.
          *
diff --git a/gegelatilib/src/file/tpgGraphDotExporter.cpp b/gegelatilib/src/file/tpgGraphDotExporter.cpp
index 5018c95..be00610 100644
--- a/gegelatilib/src/file/tpgGraphDotExporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotExporter.cpp
@@ -85,7 +85,14 @@ void File::TPGGraphDotExporter::printTPGEdge(const TPG::TPGEdge& edge)
         printProgram(p);
         fprintf(pFile, "%sP%" PRIu64 " -> I%" PRIu64 "[style=invis]\n",
                 this->offset.c_str(), progID, progID);
-        auto* dest = edge.getDestination();
+    }
+
+    // The destination is omitted if it is the one printed with the first edge
+    // using this Program.
+    auto* dest = edge.getDestination();
+    bool isFirstDestination =
+        this->programDestination.insert({&p, dest}).second;
+    if (isFirstDestination || this->programDestination.at(&p) != dest) {
         if (dest && dynamic_cast<const TPG::TPGAction*>(dest) != nullptr) {
             uint64_t actionID =
                 printTPGAction(*(const TPG::TPGAction*)edge.getDestination());
@@ -204,6 +211,7 @@ void File::TPGGraphDotExporter::print()
     // ID, which should remain constant through multiple exports and
     // generations.
     this->programID.erase(this->programID.begin(), this->programID.end());
+    this->programDestination.clear();
 
     // Print all edges
     auto& edges = this->tpg.getEdges();
@@ -229,6 +237,7 @@ void File::TPGGraphDotExporter::printSubGraph(const TPG::TPGVertex* root)
     // ID, which should remain constant through multiple exports and
     // generations.
     this->programID.erase(this->programID.begin(), this->programID.end());
+    this->programDestination.clear();
 
     // Print edges stemming from the given root
     // Init a Breadth First scan
-- 
2.43.0


From 65256c0e3f9e7214e0785b4a4bba864550d075d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 20/22] fix: load size parameters of more than 32 bits

---
 gegelatilib/src/file/parametersParser.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index 7ed970a..3434352 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -102,19 +102,19 @@ void File::ParametersParser::setParameterFromString(
     Json::Value const& value)
 {
     if (param == "nbActions") {
-        params.mutation.tpg.nbActions = (size_t)value.asUInt();
+        params.mutation.tpg.nbActions = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbRoots") {
-        params.mutation.tpg.nbRoots = (size_t)value.asUInt();
+        params.mutation.tpg.nbRoots = (size_t)value.asUInt64();
         return;
     }
     if (param == "maxInitOutgoingEdges") {
-        params.mutation.tpg.maxInitOutgoingEdges = (size_t)value.asUInt();
+        params.mutation.tpg.maxInitOutgoingEdges = (size_t)value.asUInt64();
         return;
     }
     if (param == "maxOutgoingEdges") {
-        params.mutation.tpg.maxOutgoingEdges = (size_t)value.asUInt();
+        params.mutation.tpg.maxOutgoingEdges = (size_t)value.asUInt64();
         return;
     }
     if (param == "pEdgeDeletion") {
@@ -143,7 +143,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "maxProgramSize") {
-        params.mutation.prog.maxProgramSize = (size_t)value.asUInt();
+        params.mutation.prog.maxProgramSize = (size_t)value.asUInt64();
         return;
     }
     if (param == "pDelete") {
@@ -163,7 +163,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "nbProgramConstant") {
-        params.nbProgramConstant = (size_t)value.asUInt();
+        params.nbProgramConstant = (size_t)value.asUInt64();
         return;
     }
     if (param == "pConstantMutation") {
@@ -179,7 +179,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "archiveSize") {
-        params.archiveSize = (size_t)value.asUInt();
+        params.archiveSize = (size_t)value.asUInt64();
         return;
     }
     if (param == "archivingProbability") {
@@ -207,15 +207,15 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "maxNbEvaluationPerPolicy") {
-        params.maxNbEvaluationPerPolicy = (size_t)value.asUInt();
+        params.maxNbEvaluationPerPolicy = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbRegisters") {
-        params.nbRegisters = (size_t)value.asUInt();
+        params.nbRegisters = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbThreads") {
-        params.nbThreads = (size_t)value.asUInt();
+        params.nbThreads = (size_t)value.asUInt64();
         return;
     }
     if (param == "doValidation") {
-- 
2.43.0


From 8b7ce2d187a22d1dfb0c6220ed3808f8c4bca1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:34 +0000
Subject: [PATCH 21/22] fix: move the factory of a TPGGraph with its content

---
 gegelatilib/include/tpg/tpgGraph.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/tpg/tpgGraph.h b/gegelatilib/include/tpg/tpgGraph.h
index a1dfd1a..b1f0139 100644
--- a/gegelatilib/include/tpg/tpgGraph.h
+++ b/gegelatilib/include/tpg/tpgGraph.h
@@ -73,7 +73,9 @@ namespace TPG {
          *
          * \param[in] model the TPGGraph to copy
          */
-        TPGGraph(TPGGraph&& model) noexcept : env{model.getEnvironment()}
+        TPGGraph(TPGGraph&& model) noexcept
+            : env{model.getEnvironment()},
+              factory{std::make_unique<TPGFactory>()}
         {
             swap(*this, model);
         }
@@ -88,6 +90,7 @@ namespace TPG {
             using std::swap;
             swap(a.vertices, b.vertices);
             swap(a.edges, b.edges);
+            swap(a.factory, b.factory);
         }
 
         /**
@@ -306,7 +309,7 @@ namespace TPG {
         const Environment& env;
 
         /// TPGFactory of the TPGGraph
-        const std::unique_ptr<TPGFactory> factory;
+        std::unique_ptr<TPGFactory> factory;
 
         /**
          * \brief Set of TPGVertex composing the TPGGraph.
-- 
2.43.0


From ba6ef92db724894c32dccc57757c2ffa433087b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:45 +0000
Subject: [PATCH 22/22] fix: accept root actions in execution statistics

---
 gegelatilib/src/tpg/instrumented/executionStats.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gegelatilib/src/tpg/instrumented/executionStats.cpp b/gegelatilib/src/tpg/instrumented/executionStats.cpp
index cd8b744..ec8c332 100644
--- a/gegelatilib/src/tpg/instrumented/executionStats.cpp
+++ b/gegelatilib/src/tpg/instrumented/executionStats.cpp
@@ -65,10 +65,10 @@ void TPG::ExecutionStats::analyzeInstrumentedGraph(const TPGGraph* graph)
     uint64_t nbInferences = std::accumulate(
         roots.cbegin(), roots.cend(), (uint64_t)0,
         [](uint64_t accu, const TPGVertex* vertex) {
-            const auto& rootTeam =
-                dynamic_cast<const TPGTeamInstrumented&>(*vertex);
-            // Raise std::bad_cast if not an instrumented team
-            return accu + rootTeam.getNbVisits();
+            const auto& root =
+                dynamic_cast<const TPGVertexInstrumentation&>(*vertex);
+            // Raise std::bad_cast if not an instrumented vertex
+            return accu + root.getNbVisits();
         });
 
     uint64_t nbEvaluatedTeams = 0;
-- 
2.43.0

