From 43d287af2c108893d0f1ac349eb17c4331893348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:19 +0000
Subject: [PATCH 01/49] fix: keep Howard's initial bound strictly above a
 reachable cycle ratio

With a single-edge cycle the bound s/cz is the optimum itself; it was then
rejected as 'no cycle found' and the throughput of a single task printed as inf.
---
 src/libkiter/commons/howard_cycle_ratio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/commons/howard_cycle_ratio.hpp b/src/libkiter/commons/howard_cycle_ratio.hpp
index 8bf9fb5..2ba01ca 100644
--- a/src/libkiter/commons/howard_cycle_ratio.hpp
+++ b/src/libkiter/commons/howard_cycle_ratio.hpp
@@ -231,7 +231,7 @@ namespace boost {
               }
           }
 
-        return  cmp_props_t::multiplier * (s / cz);
+        return  cmp_props_t::multiplier * ((s + 1) / cz); // strict: a single-edge cycle can reach s / cz
       }
 
 
-- 
2.43.0


From 1a78004992807f0b6c63c52800008060125faf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:19 +0000
Subject: [PATCH 02/49] fix: consume with the consumption rates of a self-loop
 in symbolic execution

A self-loop is both an input and an output of its actor and getExecRate always
returned the production rate, so cyclo-static self-loops consumed the wrong amounts.
---
 src/libkiter/algorithms/throughput/actor.cpp  | 29 +++++++++++++------
 src/libkiter/algorithms/throughput/actor.h    |  2 ++
 .../throughput/symbolic_execution.cpp         |  4 +--
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/actor.cpp b/src/libkiter/algorithms/throughput/actor.cpp
index 10906d0..8b58d6c 100644
--- a/src/libkiter/algorithms/throughput/actor.cpp
+++ b/src/libkiter/algorithms/throughput/actor.cpp
@@ -113,6 +113,17 @@ TOKEN_UNIT Actor::getExecRate(Edge e, PHASE_INDEX p) {
   }
 }
 
+// a self-loop is both an input and an output of the actor, so its consumption
+// rate can't be looked up with getExecRate
+TOKEN_UNIT Actor::getConsRate(Edge e) {
+  return this->getConsRate(e, this->getPhase(e));
+}
+
+TOKEN_UNIT Actor::getConsRate(Edge e, PHASE_INDEX p) {
+  assert(this->consExecRate.find(e) != this->consExecRate.end()); // given edge must be an input edge
+  return this->consExecRate[e][p];
+}
+
 EXEC_COUNT Actor::getNumExecutions() {
   return this->numExecs;
 }
@@ -125,9 +136,9 @@ bool Actor::isReadyForExec(State s) {
   bool isExecutable = true;
   for (auto const &e : this->consPhaseCount) {
     VERBOSE_DEBUG("\tTokens in channel (current/required): "
-                  << s.getTokens(e.first) << "/" << this->getExecRate(e.first)
+                  << s.getTokens(e.first) << "/" << this->getConsRate(e.first)
                   << std::endl);
-    if (s.getTokens(e.first) < this->getExecRate(e.first) || this->isExecuting) {
+    if (s.getTokens(e.first) < this->getConsRate(e.first) || this->isExecuting) {
       isExecutable = false;
     }
   }
@@ -163,7 +174,7 @@ bool Actor::isReadyToEndExec(State s) {
 // Begin actor's execution, consuming tokens from input channels
 void Actor::execStart(models::Dataflow* const dataflow, State &s) {
   {ForInputEdges(dataflow, this->actor, e) {
-      s.setTokens(e, s.getTokens(e) - this->getExecRate(e));
+      s.setTokens(e, s.getTokens(e) - this->getConsRate(e));
     }}
   if (s.hasBoundedBuffers()) { // for bounded buffers, need to 'reserve' space for tokens about to be produced
     {ForOutputEdges(dataflow, this->actor, e) {
@@ -195,9 +206,9 @@ void Actor::execEnd(models::Dataflow* const dataflow, State &s) {
   if (s.hasBoundedBuffers()) { // free up spaces after tokens that have been consumed
     {ForInputEdges(dataflow, this->actor, e) {
         VERBOSE_DEBUG("Producing space in Channel " << dataflow->getEdgeId(e)
-                      << ": " << s.getBufferSpace(e) << "+" << this->getExecRate(e, currentPhase)
-                      << "=" << s.getBufferSpace(e) + this->getExecRate(e, currentPhase));
-        s.setBufferSpace(e, s.getBufferSpace(e) + this->getExecRate(e, currentPhase));
+                      << ": " << s.getBufferSpace(e) << "+" << this->getConsRate(e, currentPhase)
+                      << "=" << s.getBufferSpace(e) + this->getConsRate(e, currentPhase));
+        s.setBufferSpace(e, s.getBufferSpace(e) + this->getConsRate(e, currentPhase));
       }}
   }
   s.removeFrontExec(this->actor);
@@ -243,9 +254,9 @@ void Actor::computeCausalDeps(models::Dataflow* const dataflow, State &prevState
     VERBOSE_DEBUG("\t\tChannel " << dataflow->getEdgeId(e.first) << " ("
                   << sourceId << "->" << targetId << "):" << std::endl);
     VERBOSE_DEBUG("\t\t " << prevState.getTokens(e.first) << " tokens available previously, "
-                  << this->getExecRate(e.first) << " required (p "
+                  << this->getConsRate(e.first) << " required (p "
                   << this->getPhase(e.first) << ")" << std::endl);
-    if (prevState.getTokens(e.first) < this->getExecRate(e.first)) {
+    if (prevState.getTokens(e.first) < this->getConsRate(e.first)) {
       VERBOSE_DEBUG("\t\t\tCausal dep between " << targetId << " and "
                     << sourceId << std::endl);
       absDepGraph.addCausalDep(targetId, sourceId);
@@ -278,7 +289,7 @@ std::string Actor::printStatus(models::Dataflow* const dataflow) {
                << std::endl;
   {ForInputEdges(dataflow, this->actor, e) {
       outputStream << "\tTokens consumed from Channel "
-                   << dataflow->getEdgeName(e) << ": " << this->getExecRate(e)
+                   << dataflow->getEdgeName(e) << ": " << this->getConsRate(e)
                    << std::endl;
     }}
   {ForOutputEdges(dataflow, this->actor, e) {
diff --git a/src/libkiter/algorithms/throughput/actor.h b/src/libkiter/algorithms/throughput/actor.h
index a8cdba6..9b2a24f 100644
--- a/src/libkiter/algorithms/throughput/actor.h
+++ b/src/libkiter/algorithms/throughput/actor.h
@@ -31,6 +31,8 @@ class Actor {
   void setId(ARRAY_INDEX newId);
   TOKEN_UNIT getExecRate(Edge e);
   TOKEN_UNIT getExecRate(Edge e, PHASE_INDEX p);
+  TOKEN_UNIT getConsRate(Edge e); // consumption rate (differs from getExecRate for self-loops)
+  TOKEN_UNIT getConsRate(Edge e, PHASE_INDEX p);
   EXEC_COUNT getNumExecutions();
   bool isReadyForExec(State s);
   bool isReadyToEndExec(State s);
diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index 894e3af..391444d 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -528,12 +528,12 @@ std::set<Edge> algorithms::computeDeadlockStorageDeps(models::Dataflow* const da
                     << sourceId << "->" << targetId
                     << "):" << std::endl);
       VERBOSE_DEBUG("\t\t " << s.getTokens(e) << " tokens available, "
-                    << actorMap[targetId].getExecRate(e) << " required (p "
+                    << actorMap[targetId].getConsRate(e) << " required (p "
                     << actorMap[targetId].getPhase(e) << ")" << std::endl);
       VERBOSE_DEBUG("\t\t " << s.getBufferSpace(e) << " spaces available, "
                     << actorMap[sourceId].getExecRate(e) << " required (p "
                     << actorMap[sourceId].getPhase(e) << ")" << std::endl);
-      if (s.getTokens(e) < actorMap[targetId].getExecRate(e)) {
+      if (s.getTokens(e) < actorMap[targetId].getConsRate(e)) {
         VERBOSE_DEBUG("\t\t\tCausal dep between " << targetId << " and "
                       << sourceId << std::endl);
         absDepGraph.addCausalDep(targetId, sourceId);
-- 
2.43.0


From cf285c8a275df3f073debf455b1985d5b8d8a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:19 +0000
Subject: [PATCH 03/49] fix: symbolic execution of a lone actor without
 channels terminates

---
 src/libkiter/algorithms/throughput/symbolic_execution.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index 391444d..f82fbd9 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -40,7 +40,8 @@ TIME_UNIT algorithms::compute_asap_throughput(models::Dataflow* const dataflow,
 
   // generate SCCs if any
   sccMap = computeSCCKosaraju(dataflow);
-  if (sccMap.size() > 1) { // if the original graph isn't one SCC, need to break into SCC subgraphs
+  // if the original graph isn't one SCC, need to break into SCC subgraphs; a lone actor without channels is handled there too
+  if (sccMap.size() > 1 || dataflow->getEdgesCount() == 0) {
     sccDataflows = generateSCCs(dataflow, sccMap);
     VERBOSE_INFO("Strongly connected components:");
     for (auto g : sccDataflows) {
-- 
2.43.0


From ae5d928169da71edd87ee4a4ed2853dde197ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:57 +0000
Subject: [PATCH 04/49] fix: infeasible linear-programming schedules have an
 infinite period

A deadlocked graph was reported with period 0 and throughput inf.
---
 .../algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
index 2075db0..0c60301 100644
--- a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
+++ b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
@@ -371,6 +371,8 @@ models::Scheduling  algorithms::scheduling::CSDF_KPeriodicScheduling_LP (const m
         	persched = collect_lp_results (g,  dataflow, kvector) ;
         } else {
             VERBOSE_ERROR("No feasible solution");
+            // no schedule exists: an infinite period, i.e. a null throughput
+            persched = models::Scheduling(dataflow, std::numeric_limits<TIME_UNIT>::infinity(), scheduling_t(), critical_circuit_t());
         }
 
         return persched;
@@ -491,6 +493,8 @@ models::Scheduling  algorithms::scheduling::CSDF_RealPeriodicScheduling_LP (cons
         	persched = collect_lp_results (g,  dataflow, kvector) ;
         } else {
             VERBOSE_ERROR("No feasible solution");
+            // no schedule exists: an infinite period, i.e. a null throughput
+            persched = models::Scheduling(dataflow, std::numeric_limits<TIME_UNIT>::infinity(), scheduling_t(), critical_circuit_t());
         }
 
         return persched;
-- 
2.43.0


From 8305d8b44e719f16b68d052e141b7a3b7709fe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:28 +0000
Subject: [PATCH 05/49] fix: cycle counting covers every identifier and forgets
 previous calls

---
 src/libkiter/algorithms/analysis/cycle_detection.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/analysis/cycle_detection.cpp b/src/libkiter/algorithms/analysis/cycle_detection.cpp
index a819f21..e2d290c 100644
--- a/src/libkiter/algorithms/analysis/cycle_detection.cpp
+++ b/src/libkiter/algorithms/analysis/cycle_detection.cpp
@@ -47,9 +47,14 @@ void algorithms::cycle_detection       (models::Dataflow* const  dataflow, param
 
 void algorithms::find_simple_cycles(models::Dataflow* const  dataflow, parameters_list_t) {
   ARRAY_INDEX start_id = 1; // NOTE probably better to check first vertex in dataflow graph rather than assume value of start ID (dataflow->getFirstVertex()?)
+  ARRAY_INDEX last_id = 0; // identifiers are not always 1..n (e.g. after a task was removed)
+  {ForEachVertex(dataflow, v) {
+      last_id = std::max(last_id, dataflow->getVertexId(v));
+    }}
+  simple_cycles.clear(); // forget the cycles of a previous call
   VERBOSE_DEBUG("original graph:" << std::endl);
   VERBOSE_DEBUG(print_status(dataflow) << std::endl);
-  while (start_id <= dataflow->getVerticesCount()) {
+  while (start_id <= last_id) {
     models::Dataflow* subgraph = generate_subgraph(dataflow, start_id); // subgraph excludes all vertices less than the specified starting ID
     std::map<int, std::vector<ARRAY_INDEX>> scc_map = algorithms::computeSCCKosaraju(subgraph);
     // find the SCC that contains the vertex with the smallest ID
-- 
2.43.0


From 5ebf583d1896a78f3e7f0b95e2895c36aeb734bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:57 +0000
Subject: [PATCH 06/49] fix: the granularity of a channel accounts for its
 initial phases

---
 src/libkiter/models/Dataflow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index 277a6b6..b869911 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -921,12 +921,12 @@ public :
     TOKEN_UNIT channelGCD = getEdgeInPhase(c,1);
 
 
-    for (PHASE_INDEX k = 1 ; k <= this->getEdgeInPhasesCount(c) ; k++) {
+    for (PHASE_INDEX k = 1 - (PHASE_INDEX) this->getEdgeInInitPhasesCount(c) ; k <= (PHASE_INDEX) this->getEdgeInPhasesCount(c) ; k++) {
         channelGCD = std::gcd(channelGCD,getEdgeInPhase(c,k));
     }
 
 
-    for (PHASE_INDEX k = 1 ; k <= this->getEdgeOutPhasesCount(c) ; k++) {
+    for (PHASE_INDEX k = 1 - (PHASE_INDEX) this->getEdgeOutInitPhasesCount(c) ; k <= (PHASE_INDEX) this->getEdgeOutPhasesCount(c) ; k++) {
         channelGCD = std::gcd(channelGCD,getEdgeOutPhase(c,k));
     }
     return channelGCD;
-- 
2.43.0


From 88dcda0d045a49a8188b5baa034668e6cd2b5421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:33 +0000
Subject: [PATCH 07/49] fix: refining a periodicity vector keeps the event
 graph of tasks with initial phases

---
 src/libkiter/algorithms/throughput/kperiodic.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index 043becb..104dade 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -426,15 +426,15 @@ models::EventGraph* algorithms::updateEventGraph(const models::Dataflow * const
 		EXEC_COUNT newki =  kvector.at(source);
 		if (ki < newki) {
 			ARRAY_INDEX task_id= dataflow->getVertexId(source);
-			for (PHASE_INDEX p = 1 - dataflow->getInitPhasesQuantity(source) ; p <= dataflow->getPhasesQuantity(source) ; p++) {
-				for(EXEC_COUNT k = 1 ; k <= ki ; k++) {
+			for(EXEC_COUNT k = 1 ; k <= ki ; k++) {
+				// initial phases are executed once, they only have an event for k = 1
+				const PHASE_INDEX first_p = (k == 1) ? 1 - dataflow->getInitPhasesQuantity(source) : 1;
+				for (PHASE_INDEX p = first_p ; p <= dataflow->getPhasesQuantity(source) ; p++) {
 					g->removeConnectedEdges(g->getEventGraphVertex(task_id,p,k));
 				}
 			}
 
-			for (PHASE_INDEX p = 1 - dataflow->getInitPhasesQuantity(source)  ; p <= dataflow->getPhasesQuantity(source) ; p++) {
-				g->addEventGroup(task_id,p,ki+1,newki);
-			}
+			g->addEventGroup(task_id,dataflow->getPhasesQuantity(source),ki+1,newki);
 			if (newki > dataflow->getNi(source)) {
 				VERBOSE_ERROR("newki=" << newki << " Ni=" << dataflow->getNi(source));
 			}
-- 
2.43.0


From fec54a16ed767a86fa10af2d47aa14797f40ea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:08 +0000
Subject: [PATCH 08/49] fix: periodic schedules of tasks with initial phases

---
 .../algorithms/scheduling/CSDF_KPeriodicScheduling.cpp     | 7 ++++++-
 src/libkiter/algorithms/throughput/kperiodic.cpp           | 7 ++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling.cpp b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling.cpp
index 7a5dad4..f268d3d 100644
--- a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling.cpp
+++ b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling.cpp
@@ -86,7 +86,12 @@ models::Scheduling algorithms::scheduling::CSDF_1PeriodicScheduling (const model
  	        TIME_UNIT period = kvector[v] *  dataflow->getPhasesQuantity(v) * omega / dataflow->getNi(v);
 
  	        scheduling_result[ti].periodic_starts.first = period;
- 	        scheduling_result[ti].periodic_starts.second.push_back(start);
+ 	        if (se.getTaskPhase() <= 0) { // initial phases run once (the last one comes first in the event graph)
+ 	        	static_task_schedule_t & is = scheduling_result[ti].initial_starts;
+ 	        	is.insert(is.begin(), start);
+ 	        } else {
+ 	        	scheduling_result[ti].periodic_starts.second.push_back(start);
+ 	        }
 
  	        //sheduling_result[v].first = period;
  	        //sheduling_result[v].second.push_back(start);
diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index 104dade..36459fb 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -197,11 +197,12 @@ scheduling_t period2scheduling (const models::Dataflow* const dataflow,  const p
 		scheduling_result[dataflow->getVertexId(v)].periodic_starts.first = period;
 
 		for (EXEC_COUNT ki = 1  ; ki <= maxki ; ki++) {
-			for (EXEC_COUNT pi = first_pi ; pi <=pq ; pi++)  {
+			for (EXEC_COUNT pi = (ki == 1) ? first_pi : 1 ; pi <=pq ; pi++)  {
 				auto se = eg->getEventGraphVertex(tid,pi,ki);
 
 				TIME_UNIT start = eg->getStartingTime(se);
-				scheduling_result[tid].periodic_starts.second.push_back( start );
+				if (pi <= 0) scheduling_result[tid].initial_starts.push_back( start );
+				else scheduling_result[tid].periodic_starts.second.push_back( start );
 				VERBOSE_KPERIODIC_DEBUG("  - Start ki=" << ki << " pi=" << pi << " se=" << se << ":" << start  );
 
 			}
@@ -638,9 +639,9 @@ void algorithms::generateKperiodicSelfloop (const models::Dataflow * const dataf
 	VERBOSE_KPERIODIC_DEBUG("generate reentrancy loops for task " <<  dataflow->getVertexId(t) << " with ki=" << ki);
 
 	EXEC_COUNT pq = dataflow->getPhasesQuantity(t);
-	TIME_UNIT lti = timefactor * dataflow->getVertexDuration(t,1);
 	EXEC_COUNT i = 1;
 	EXEC_COUNT p = 1 - dataflow->getInitPhasesQuantity(t);
+	TIME_UNIT lti = timefactor * dataflow->getVertexDuration(t,p);
 
 	models::EventGraphVertex source_event = g->getEventGraphVertex(task_id,p,i);
 	models::EventGraphVertex target_event = g->getEventGraphVertex(task_id,p,i);
-- 
2.43.0


From 921fdafac785fe3efd32c62b5f06e0d2e732d80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:47 +0000
Subject: [PATCH 09/49] fix: linear-programming schedules list starts in firing
 order with the period of a whole cycle

---
 .../algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
index 0c60301..f9dc2fb 100644
--- a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
+++ b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
@@ -254,18 +254,18 @@ models::Scheduling collect_lp_results (const commons::GLPSol &g, const models::D
         ARRAY_INDEX vid   = dataflow->getVertexId(t);
     	const EXEC_COUNT periodicity_factor = kvector.at(t);
 
-		res_schedule[dataflow->getVertexId(t)].periodic_starts.first = OMEGA / (TIME_UNIT) ( (TIME_UNIT) dataflow->getNi(t) / (TIME_UNIT) periodicity_factor );
+		res_schedule[dataflow->getVertexId(t)].periodic_starts.first = OMEGA / (TIME_UNIT) ( (TIME_UNIT) dataflow->getNi(t) / (TIME_UNIT) (periodicity_factor * dataflow->getPhasesQuantity(t)) );
 
 		// Collect init starting times
 		for(EXEC_COUNT a = 1; a <= dataflow->getInitPhasesQuantity(t) ; a++) {
 			auto starting_time_col_str = START_INIT_COL_STR(vname,a);
 			auto starting_time = g.getValue(starting_time_col_str);
-			res_schedule[vid].periodic_starts.second.push_back(starting_time);
+			res_schedule[vid].initial_starts.push_back(starting_time);
 		}
 
 		// Collect periodic starting times
-		for(EXEC_COUNT a = 1; a <= dataflow->getPhasesQuantity(t) ; a++) {
-			for(EXEC_COUNT k = 1; k <= periodicity_factor ; k++) {
+		for(EXEC_COUNT k = 1; k <= periodicity_factor ; k++) {
+			for(EXEC_COUNT a = 1; a <= dataflow->getPhasesQuantity(t) ; a++) {
 				auto starting_time_col_str = START_COL_STR(vname,a,k);
 				auto starting_time = g.getValue(starting_time_col_str);
 				res_schedule[vid].periodic_starts.second.push_back(starting_time);
-- 
2.43.0


From f4accc65a15d42b1b892eb6e9d8b10f2fff06452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:42 +0000
Subject: [PATCH 10/49] fix: keep every precedence constraint of reentrant
 tasks in periodic schedules

The executions of a reentrant task are not ordered from one period to the next,
so constraints pruned because of that order were lost and the throughput could
exceed the maximal one (up to infinity).
---
 .../algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp | 6 +++++-
 src/libkiter/algorithms/throughput/kperiodic.cpp          | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
index f9dc2fb..4d23441 100644
--- a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
+++ b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
@@ -154,7 +154,11 @@ bool add_precedences_constraints (commons::GLPSol &g, commons::idx_t OMEGA_COL,
 
 		VERBOSE_EXTRA_DEBUG("    Test alphamin (" << alphamin << ") <=  alphamax (" << alphamax << ")");
 
-		if (alphamin <= alphamax) { // check if contraint exist
+		// the executions of a reentrant task are not ordered from one period to the next, then the constraints
+		// that are not tight are needed as well.
+		const bool keepAll = (dataflow->getReentrancyFactor(source) <= 0) || (dataflow->getReentrancyFactor(target) <= 0);
+
+		if (keepAll || alphamin <= alphamax) { // check if contraint exist
 
 				// This definition of this constraint is available page 133 of B.Bodin 2013 (PhD Thesis).
 
diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index 36459fb..1eec5f5 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -551,6 +551,10 @@ void algorithms::generateKPeriodicConstraint(const models::Dataflow * const data
 
 	bool doBufferLessEdges = dataflow->getEdgeType(c) == EDGE_TYPE::BUFFERLESS_EDGE;
 
+	// a constraint that is not tight follows from the order of the executions of a task, but when the
+	// task is reentrant nothing orders its executions from one period to the next.
+	const bool keepAll = (dataflow->getReentrancyFactor(source) <= 0) || (dataflow->getReentrancyFactor(target) <= 0);
+
 	VERBOSE_KPERIODIC_DEBUG(" - source_init_phase_count = " << source_init_phase_count );
 	VERBOSE_KPERIODIC_DEBUG(" - target_init_phase_count = " << target_init_phase_count );
 	VERBOSE_KPERIODIC_DEBUG(" - maxki = " << maxki );
@@ -589,7 +593,7 @@ void algorithms::generateKPeriodicConstraint(const models::Dataflow * const data
 					const TOKEN_UNIT lpimin =    (std::max((TOKEN_UNIT)0, wak - vakp) - mop - normdapk + normdamkp) ;
 
 #ifdef STRONGLY_OPTIMIZED
-					if (lpimin > alphamax ) continue; // ca ne fera qu'empirer
+					if (lpimin > alphamax && !keepAll) continue; // ca ne fera qu'empirer
 #endif
 					const TOKEN_UNIT rpimin =     lpimin % gcdz;
 					const TOKEN_UNIT alphamin =   (rpimin <= 0) ? ( lpimin - rpimin ) : ( lpimin - rpimin + gcdz );
@@ -606,7 +610,7 @@ void algorithms::generateKPeriodicConstraint(const models::Dataflow * const data
 
 
 
-					if (alphamin <= alphamax) {
+					if (keepAll || alphamin <= alphamax) {
 
 
 						TIME_UNIT w = ((TIME_UNIT) alphamax * source_phase_count * maxki ) / ( (TIME_UNIT) Wc  * (TIME_UNIT) dataflow->getNi(source) );
-- 
2.43.0


From 492fbd69400f8e5053b6eddd39e6a73f963f0ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 11/49] fix: ASAP scheduling split initial and periodic starts
 at the wrong stored state

---
 .../algorithms/throughput/symbolic_execution.cpp         | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index f82fbd9..873d414 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -602,6 +602,7 @@ std::pair<TIME_UNIT, scheduling_t> algorithms::computeComponentThroughputSchedul
   std::map<ARRAY_INDEX, Actor> actorMap;
   {ForEachTask(dataflow, t) {
       actorMap[dataflow->getVertexId(t)] = Actor(dataflow, t);
+      starts[dataflow->getVertexId(t)].push_back({}); // starts before the first stored state
       VERBOSE_INFO("\n");
     }}
   State prevState(dataflow, actorMap);
@@ -686,7 +687,7 @@ std::pair<TIME_UNIT, scheduling_t> algorithms::computeComponentThroughputSchedul
                 static_task_schedule_t initials;
                 periodic_task_schedule_t periodics;
                 for(std::size_t i = 0; i < starts[dataflow->getVertexId(task)].size(); ++i){
-                  if (i < periodic_state_idx){ //initials
+                  if (i <= periodic_state_idx){ //initials (segment i ends where state i was stored)
                     initials.insert(initials.end(),starts[dataflow->getVertexId(task)][i].begin(),starts[dataflow->getVertexId(task)][i].end());
                     continue;
                   } 
@@ -705,11 +706,7 @@ std::pair<TIME_UNIT, scheduling_t> algorithms::computeComponentThroughputSchedul
             }
 
           } else {
-            if (starts[dataflow->getVertexId(t)].size() == 0){
-              starts[dataflow->getVertexId(t)].push_back({curr_step}); //push into current state's task start list
-            } else {
-              starts[dataflow->getVertexId(t)].back().push_back(curr_step);
-            }
+            starts[dataflow->getVertexId(t)].back().push_back(curr_step); //push into current state's task start list
           }
         }
       }}
-- 
2.43.0


From f86a958aae466ce6c660440cb8dfa017b403f383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:52 +0000
Subject: [PATCH 12/49] fix: minimal channel size of the buffer exploration
 exceeded what cyclo-static channels need

---
 src/libkiter/algorithms/dse/buffer_sizing.cpp | 48 ++++++++-----------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/libkiter/algorithms/dse/buffer_sizing.cpp b/src/libkiter/algorithms/dse/buffer_sizing.cpp
index aca9037..fbeebf3 100644
--- a/src/libkiter/algorithms/dse/buffer_sizing.cpp
+++ b/src/libkiter/algorithms/dse/buffer_sizing.cpp
@@ -855,36 +855,28 @@ void findMinimumChannelSz(models::Dataflow *dataflow,
   VERBOSE_DSE("Calculating minimal channel sizes (for postive throughput)..." << std::endl);
 
   {ForEachEdge(dataflow, c) {
-      // initialise channel size to maximum int size
       minChannelSizes[c].first = dataflow->getPreload(c); // set initial tokens according to dataflow graph TODO look into why I didn't originally do this
-      minChannelSizes[c].second = INT_MAX; // NOTE (should use ULONG_MAX but it's a really large value)
-      TOKEN_UNIT ratePeriod = (TOKEN_UNIT) std::gcd(dataflow->getEdgeInPhasesCount(c),
-                                                            dataflow->getEdgeOutPhasesCount(c));
-
-      for (TOKEN_UNIT i = 0; i < ratePeriod; i++) {
-        // might want to change variables to p, c, and t for legibility
-        TOKEN_UNIT tokensProduced = dataflow->getEdgeInVector(c)[i % dataflow->getEdgeInPhasesCount(c)];
-        TOKEN_UNIT tokensConsumed = dataflow->getEdgeOutVector(c)[i % dataflow->getEdgeOutPhasesCount(c)];
-        TOKEN_UNIT tokensInitial = dataflow->getPreload(c);
-        VERBOSE_DSE("p, c, t: " << tokensProduced << ", "
-                    << tokensConsumed << ", " << tokensInitial << std::endl);
-        TOKEN_UNIT lowerBound;
-
-        if (std::gcd(tokensProduced, tokensConsumed)) {
-          lowerBound = tokensProduced + tokensConsumed -
-            std::gcd(tokensProduced, tokensConsumed) +
-            tokensInitial % std::gcd(tokensProduced, tokensConsumed);
-        } else {
-          lowerBound = tokensProduced + tokensConsumed -
-            std::gcd(tokensProduced, tokensConsumed);
-        }
-        lowerBound = (lowerBound > tokensInitial ? lowerBound : tokensInitial);
-
-        // take the lowest bound amongst phases of prod/cons
-        if (lowerBound < minChannelSizes[c].second) {
-          minChannelSizes[c].second = lowerBound;
-        }
+      EXEC_COUNT inPhases = dataflow->getEdgeInPhasesCount(c);
+      EXEC_COUNT outPhases = dataflow->getEdgeOutPhasesCount(c);
+      TOKEN_UNIT tokensInitial = dataflow->getPreload(c);
+      TOKEN_UNIT maxRate = 0;
+      TOKEN_UNIT rateGcd = 0;
+      for (EXEC_COUNT i = 0; i < inPhases; i++) {
+        maxRate = std::max(maxRate, dataflow->getEdgeInVector(c)[i]);
+        rateGcd = std::gcd(rateGcd, dataflow->getEdgeInVector(c)[i]);
+      }
+      for (EXEC_COUNT i = 0; i < outPhases; i++) {
+        maxRate = std::max(maxRate, dataflow->getEdgeOutVector(c)[i]);
+        rateGcd = std::gcd(rateGcd, dataflow->getEdgeOutVector(c)[i]);
+      }
+      TOKEN_UNIT residue = rateGcd ? tokensInitial % rateGcd : 0; // tokens that are never consumed
+      TOKEN_UNIT lowerBound;
+      if (inPhases == 1 && outPhases == 1) { // exact bound for constant rates: p + c - gcd(p,c) + t mod gcd(p,c)
+        lowerBound = dataflow->getEdgeInVector(c)[0] + dataflow->getEdgeOutVector(c)[0] - rateGcd + residue;
+      } else { // with several phases only the largest transfer is needed for sure
+        lowerBound = maxRate + residue;
       }
+      minChannelSizes[c].second = std::max(lowerBound, tokensInitial);
       VERBOSE_DSE("Minimum channel size for " << dataflow->getEdgeName(c)
                   << ": " << minChannelSizes[c].second << std::endl);
     }}
-- 
2.43.0


From 0da5b7ae8be908863a18fad2e1ffbd6575675653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:22 +0000
Subject: [PATCH 13/49] fix: buffer exploration never ended when the target
 throughput lies between two reachable ones

---
 src/libkiter/algorithms/dse/buffer_sizing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/dse/buffer_sizing.cpp b/src/libkiter/algorithms/dse/buffer_sizing.cpp
index fbeebf3..43143d2 100644
--- a/src/libkiter/algorithms/dse/buffer_sizing.cpp
+++ b/src/libkiter/algorithms/dse/buffer_sizing.cpp
@@ -405,7 +405,8 @@ bool StorageDistributionSet::isSearchComplete(StorageDistributionSet checklist,
               << std::endl);
   VERBOSE_DSE("\tHow many SDs left in checklist? " << checklist.getSize()
               << std::endl);
-  return ((commons::AreSame(this->p_max.second, target_thr) &&
+  return (((this->p_max.second > target_thr || // the target may lie between two reachable throughputs
+            commons::AreSame(this->p_max.second, target_thr)) &&
           (!checklist.hasDistribution(this->p_max.first))) ||
           (checklist.getSize() <= 0)); // also end when we're out of distributions to check
 }
-- 
2.43.0


From d384a537ee81a211c9799a6626047e8528e9bbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:56 +0000
Subject: [PATCH 14/49] fix: back-pressure buffer sizing with initial tokens
 (tokens were subtracted from a time, and not counted in the size)

---
 src/libkiter/algorithms/buffersizing/backpressure.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/buffersizing/backpressure.cpp b/src/libkiter/algorithms/buffersizing/backpressure.cpp
index 825cefe..56173db 100644
--- a/src/libkiter/algorithms/buffersizing/backpressure.cpp
+++ b/src/libkiter/algorithms/buffersizing/backpressure.cpp
@@ -242,7 +242,7 @@ void algorithms::compute_backpressure_memory_sizing (models::Dataflow* const  da
 	{ForEachEdge(dataflow,e) {
 		const TOKEN_UNIT usable_tokens = commons::floor(dataflow->getPreload(e),dataflow->getFineGCD(e));
 		VERBOSE_DEBUG("Preload = " << usable_tokens);
-		beta_ij[e] = commons::division(   beta_cons[e] - beta_prod[e]     , alpha[e] ) - usable_tokens;
+		beta_ij[e] = commons::division(   beta_cons[e] - beta_prod[e] - (TIME_UNIT) usable_tokens     , alpha[e] );
 		VERBOSE_DEBUG(dataflow->getEdgeName(e) << " : Beta_ij = " <<  beta_ij[e]);
 
 
@@ -366,7 +366,7 @@ void algorithms::compute_backpressure_memory_sizing (models::Dataflow* const  da
 
 		const TIME_UNIT bsize_beta =   - (beta_f_prod - beta_f_cons);
 		const TOKEN_UNIT bsize = commons::ceil(bsize_beta,dataflow->computeFineGCD(e));
-		total_buffer_size += bsize;
+		total_buffer_size += bsize + dataflow->getPreload(e);
 
         VERBOSE_INFO(dataflow->getEdgeName(e) << " :" << bsize_beta << " => " << bsize );
 		VERBOSE_DEBUG(dataflow->getEdgeName(e) << " : " << std::setw(10) << beta_f_cons << "   -   "  << std::setw(10)<< beta_f_prod<<"   =   "  << std::setw(10)<< bsize_beta << " ceiled by "<< dataflow->computeFineGCD(e) << " ==> "  << std::setw(10)<< bsize );
-- 
2.43.0


From dcc5091c184a80190d30dcb1cab7dc9f0692c693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:00 +0000
Subject: [PATCH 15/49] fix: back-pressure buffer sizing: conservative
 production lines and no negative free space

---
 src/libkiter/algorithms/buffersizing/backpressure.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libkiter/algorithms/buffersizing/backpressure.cpp b/src/libkiter/algorithms/buffersizing/backpressure.cpp
index 56173db..0ada07e 100644
--- a/src/libkiter/algorithms/buffersizing/backpressure.cpp
+++ b/src/libkiter/algorithms/buffersizing/backpressure.cpp
@@ -97,7 +97,7 @@ void algorithms::compute_backpressure_memory_sizing (models::Dataflow* const  da
 		for (EXEC_COUNT ki = 1 ; ki <= max_ki ; ki++) {
 			VERBOSE_DEBUG("Check production at " << ki << " of " << cumul_production << "+" << dataflow->getEdgeInPhase(e,ki));
 			cumul_production += dataflow->getEdgeInPhase(e,ki);
-			TOKEN_UNIT level = commons::ceil(cumul_production - dataflow->getEdgeInPhase(e,ki),lambda_p) + 1;
+			TOKEN_UNIT level = commons::floor(cumul_production - dataflow->getEdgeInPhase(e,ki),lambda_p) + 1;
 			if (cumul_production >= lambda_p) {
 				VERBOSE_DEBUG(" -> Good point is " << lambda_p << " ; " << s[std::make_pair(vi,ki)] + dataflow->getVertexDuration(vi,ki) );
 				beta_e = std::min ( beta_e ,
@@ -343,7 +343,7 @@ void algorithms::compute_backpressure_memory_sizing (models::Dataflow* const  da
 		for (EXEC_COUNT kj = 1 ; kj <= max_kj ; kj++) {
 			t = sj + h[std::make_pair(vj,kj)];
 			cumul_production += dataflow->getEdgeOutPhase(e,kj);
-			TOKEN_UNIT level = cumul_production+1 - dataflow->getEdgeOutPhase(e,kj) ;
+			TOKEN_UNIT level = commons::floor(cumul_production - dataflow->getEdgeOutPhase(e,kj),lambda_p) + 1;
 			if (cumul_production >= lambda_p)
 				if (alpha_e * t + beta_f_prod > level ) {
 					beta_f_prod = (TIME_UNIT) level  - alpha_e * t;
@@ -366,7 +366,7 @@ void algorithms::compute_backpressure_memory_sizing (models::Dataflow* const  da
 
 		const TIME_UNIT bsize_beta =   - (beta_f_prod - beta_f_cons);
 		const TOKEN_UNIT bsize = commons::ceil(bsize_beta,dataflow->computeFineGCD(e));
-		total_buffer_size += bsize + dataflow->getPreload(e);
+		total_buffer_size += std::max((TOKEN_UNIT) 0, bsize) + dataflow->getPreload(e);
 
         VERBOSE_INFO(dataflow->getEdgeName(e) << " :" << bsize_beta << " => " << bsize );
 		VERBOSE_DEBUG(dataflow->getEdgeName(e) << " : " << std::setw(10) << beta_f_cons << "   -   "  << std::setw(10)<< beta_f_prod<<"   =   "  << std::setw(10)<< bsize_beta << " ceiled by "<< dataflow->computeFineGCD(e) << " ==> "  << std::setw(10)<< bsize );
-- 
2.43.0


From 44b62ee0f33a79c95879d235d960d659d2644e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:02 +0000
Subject: [PATCH 16/49] fix: addToSat keeps only minimal satisfying
 distributions (it looked for subsumed ones on the wrong side)

---
 src/libkiter/algorithms/dse/buffer_sizing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/dse/buffer_sizing.cpp b/src/libkiter/algorithms/dse/buffer_sizing.cpp
index 43143d2..256a272 100644
--- a/src/libkiter/algorithms/dse/buffer_sizing.cpp
+++ b/src/libkiter/algorithms/dse/buffer_sizing.cpp
@@ -1053,7 +1053,7 @@ void StorageDistributionSet::addToSat(StorageDistribution sd) {
     for (auto &storage_dist : dist_sz.second) {
       if (sd.inForConeOf(storage_dist)) {
         return;
-      } else if (storage_dist.inBackConeOf(sd)) {
+      } else if (storage_dist.inForConeOf(sd)) {
         subsumed.addStorageDistribution(storage_dist);
       }
     }
-- 
2.43.0


From 54de4697efbcfe3e2430728c61955f09c474517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:02 +0000
Subject: [PATCH 17/49] fix: isInBackCone read an uninitialised flag when the
 first distribution met is the given one

---
 src/libkiter/algorithms/dse/buffer_sizing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/dse/buffer_sizing.cpp b/src/libkiter/algorithms/dse/buffer_sizing.cpp
index 256a272..7328639 100644
--- a/src/libkiter/algorithms/dse/buffer_sizing.cpp
+++ b/src/libkiter/algorithms/dse/buffer_sizing.cpp
@@ -416,7 +416,7 @@ bool StorageDistributionSet::isSearchComplete(StorageDistributionSet checklist,
    (i.e. given SD is not maximal in set) */
 bool StorageDistributionSet::isInBackCone(StorageDistribution checkDist,
                                           std::map<Edge, TOKEN_UNIT> bufferLb) {
-  bool isMinimal;
+  bool isMinimal = false;
   std::vector<Edge> checkDistEdges = checkDist.getEdges();
   std::map<TOKEN_UNIT, std::vector<StorageDistribution>> reference_set(this->set);
 
-- 
2.43.0


From d9ee23fd05eccea8c6419c9029edf1f659c82002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:06 +0000
Subject: [PATCH 18/49] fix: rate gcds kept for a channel identifier outlived
 the rates they were computed from

---
 src/libkiter/models/Dataflow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index b869911..4ecfc7e 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -311,7 +311,7 @@ public :
 	void set_normalize() {normalizationisdone = true;}
 	void set_repetition_vector() {repetitionvectorisdone = true;}
 
-	void reset_computation() {repetitionvectorisdone = false; normalizationisdone = false; readonly = false; }
+	void reset_computation() {repetitionvectorisdone = false; normalizationisdone = false; readonly = false; channelGCDA.clear(); }
 
 	bool is_read_only() const {return readonly;}
 	bool is_normalized() const {return normalizationisdone ;}
-- 
2.43.0


From d539d6d810629d8b585600e02d1e4c4322a9c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:06 +0000
Subject: [PATCH 19/49] fix: total rates and total durations were summed in an
 int

---
 src/libkiter/models/Dataflow.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index 4ecfc7e..98395a0 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -740,7 +740,7 @@ public :
     	reset_computation();
         VERBOSE_DATAFLOW_DEBUG(" - Add outputs for " << this->getEdgeName(c) << " coded " << c << " = " << l.size() << " states = " <<  commons::join(l.begin(),l.end(),std::string(",")));
     	boost::put(boost::edge_outputs, this->getG(), c.e, l);
-    	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),0);
+    	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),(TOKEN_UNIT) 0);
     	boost::put(boost::edge_total_output, this->getG(), c.e, total);
     	EXEC_COUNT q = this->getPhasesQuantity(this->getEdgeTarget(c));
     	VERBOSE_DATAFLOW_DEBUG("   -   Edge from " << this->getVertexName(this->getEdgeSource(c)) << " to " << this->getVertexName(this->getEdgeTarget(c)));
@@ -793,7 +793,7 @@ public :
        	reset_computation();
            VERBOSE_DATAFLOW_DEBUG(" - Add inputs for " << c << " = " << l.size() << " states = " <<  commons::join(l.begin(),l.end(),std::string(",")));
        	boost::put(boost::edge_inputs, this->getG(), c.e, l);
-       	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),0);
+       	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),(TOKEN_UNIT) 0);
        	boost::put(boost::edge_total_input, this->getG(), c.e, total);
        	EXEC_COUNT q = this->getPhasesQuantity(this->getEdgeSource(c));
        	VERBOSE_DATAFLOW_DEBUG(" - EdgeSource is " << this->getVertexName(this->getEdgeSource(c)) << " with " << q << " states");
@@ -868,7 +868,7 @@ public :
       inline  TIME_UNIT          getVertexTotalDuration    (const Vertex t)  const   {
     	  VERBOSE_ASSERT(boost::get(get(boost::vertex_phaseduration, this->getG()), t.v).size() > 0, "I take too much coffee, and this task " << getVertexName(t) <<  " - " << getVertexId(t) <<  " has no duration.");
     	  auto phasesDurations =  boost::get(get(boost::vertex_phaseduration, this->getG()), t.v);
-    	  return std::accumulate(phasesDurations.begin(), phasesDurations.end(), 0);
+    	  return std::accumulate(phasesDurations.begin(), phasesDurations.end(), (TIME_UNIT) 0);
       }
 
 
-- 
2.43.0


From 55a285306bea5906e46874bfbe92a18326337eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:12 +0000
Subject: [PATCH 20/49] fix: keep the denominator of a fraction positive

---
 src/libkiter/commons/commons.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/commons/commons.h b/src/libkiter/commons/commons.h
index f5e88ec..cf00925 100644
--- a/src/libkiter/commons/commons.h
+++ b/src/libkiter/commons/commons.h
@@ -43,7 +43,12 @@ template <typename V>
 class Fraction {
     V n, d;
 public:
-	Fraction(V n = 0, V d = 1) : n(n/std::gcd(n, d)), d(d/std::gcd(n, d)) { }
+	Fraction(V n = 0, V d = 1) : n(n/std::gcd(n, d)), d(d/std::gcd(n, d)) {
+		if (this->d < 0) { // the denominator is kept positive, comparisons rely on it
+			this->n = -this->n;
+			this->d = -this->d;
+		}
+	}
     V numerator() const { return n; }
     V denominator() const { return d; }
 
-- 
2.43.0


From b2d6c086c1dae343ae13beec01c195c938f4e1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:00 +0000
Subject: [PATCH 21/49] fix: merged tasks follow the schedule they are built
 from in every period

---
 .../algorithms/transformation/merging.cpp     | 105 ++++++------------
 1 file changed, 33 insertions(+), 72 deletions(-)

diff --git a/src/libkiter/algorithms/transformation/merging.cpp b/src/libkiter/algorithms/transformation/merging.cpp
index 1e883e1..6c25bf2 100644
--- a/src/libkiter/algorithms/transformation/merging.cpp
+++ b/src/libkiter/algorithms/transformation/merging.cpp
@@ -318,7 +318,8 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 		Vertex v = to->getVertexById(vid);
 
 		EXEC_COUNT ni = to->getNi(v);
-		gcd_value = std::gcd (gcd_value , ni) ;
+		// The number of complete iterations (every phase once) of the task
+		gcd_value = std::gcd (gcd_value , ni / to->getPhasesQuantity(v)) ;
 
 		for (auto it : to->in_edges(v)) {
 			edge_infos ne(to, *it);
@@ -357,17 +358,30 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 
 	VERBOSE_INFO("Schedule original tasks");
 
+	// From the time the last task starts, any window that lasts one graph period contains Ni executions of
+	// each task, and this window is repeated as it is: what comes before is the init part, the window is the periodic part.
+	TIME_UNIT steady_time = 0;
+	for (auto it : original_tasks) {
+		steady_time = std::max(steady_time, get_next_execution_time (it.second, 0));
+	}
+
 	std::map<ARRAY_INDEX,EXEC_COUNT> execution_count;
+	std::map<ARRAY_INDEX,EXEC_COUNT> execution_threshold;
+	ARRAY_INDEX init_phase_count = 0;
 	for (auto it : original_tasks) {
-		execution_count[it.first] = 0;
+		EXEC_COUNT init_executions = 0;
+		while (get_next_execution_time (it.second, init_executions) < steady_time) {
+			init_executions ++;
+		}
+		execution_count[it.first]     = 0;
+		execution_threshold[it.first] = init_executions + it.second.ni;
+		init_phase_count += init_executions;
 	}
 
 
 	std::vector < task_execution_t > execution_sequence;
 
-	bool dontstop = true;
-	while(dontstop) {
-		dontstop = false;
+	while(true) {
 
 		// Pick the next candidate
 		ARRAY_INDEX next_id   = -1;
@@ -375,6 +389,7 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 		for (auto it : original_tasks) {
 			ARRAY_INDEX vid = it.first;
 			vertex_infos infos = it.second;
+			if (execution_count[vid] >= execution_threshold[vid]) continue;
 			TIME_UNIT task_execution_time = get_next_execution_time (infos, execution_count[vid] );
 			VERBOSE_DEBUG("  - Scheduling of task " << vid << " execution count = " << execution_count[vid] << " next execution is " << task_execution_time);
 			if (task_execution_time <= next_time) {
@@ -384,25 +399,12 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 			}
 		}
 
+		// Every task is done
+		if (next_time == std::numeric_limits<TIME_UNIT>::infinity()) break;
+
 		// Execute candidate
 		execution_sequence.push_back(  task_execution_t(next_id, execution_count[next_id], next_time) );
 		execution_count[next_id] ++ ;
-
-		// Stopping condition
-		// NOTE: In theory a valid one should be similar to Symbolic Execution (reach previously seen state)
-		//       I did not implement that yet, it will have to be done until a better solution emerge.
-		//       Currently the solution used is not bullet proof!
-
-		for (auto it : original_tasks) {
-			ARRAY_INDEX vid = it.first;
-			vertex_infos infos = it.second;
-			EXEC_COUNT threshold = infos.init_phases + (infos.periodic_phases * infos.ni);
-			if (execution_count[vid] < threshold) {
-				dontstop = true;
-				VERBOSE_DEBUG("  - We will continue because " << vid << " needs " << threshold << " and only has " << execution_count[vid]);
-				break;
-			}
-		}
 	}
 
 	VERBOSE_DEBUG("End of scheduling with " << commons::toString(execution_sequence));
@@ -420,63 +422,21 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 	}
 
 
-	VERBOSE_INFO("Check there is a valid init phase count");
-
 	VERBOSE_ASSERT(execution_sequence.size()  > 0, "This should never happen");
 
-	ARRAY_INDEX init_phase_count = execution_sequence.size() - 1 ;
-	bool need_to_continue = true;
-	while (init_phase_count >= 0 and need_to_continue) {
-		VERBOSE_DEBUG("Check init phase count = " << init_phase_count);
+	// Optimising the periodic part when it repeats a shorter pattern made of complete iterations
+	VERBOSE_INFO("Check if we can reduce the periodic phase");
 
-		need_to_continue = false;
-
-		std::map<ARRAY_INDEX,EXEC_COUNT> task_periodic_execution_count;
-		for (auto exec_pair : std::vector< task_execution_t > (execution_sequence.begin() + init_phase_count , execution_sequence.end() ) ) {
-			task_periodic_execution_count[exec_pair.task_id] ++ ;
-		}
-
-		for (auto it : original_tasks) {
-			ARRAY_INDEX tid = it.first;
-			vertex_infos infos = it.second;
-			EXEC_COUNT ratio =   (infos.ni)/gcd_value;
-			VERBOSE_DEBUG("    In the current periodic pattern the task " << tid << " is executed " << task_periodic_execution_count[tid] << " with expected ratio " << ratio );
-
-		}
-
-		EXEC_COUNT factor = 0;
-		for (auto it : original_tasks) {
-			ARRAY_INDEX tid = it.first;
-			vertex_infos infos = it.second;
-			EXEC_COUNT ratio =   (infos.ni)/gcd_value;
-			if (task_periodic_execution_count[tid] == 0) {
-				need_to_continue = true;
-				VERBOSE_DEBUG("  Every task need to be executed, task " << tid  << " is not.");
-
-			}
-			if (task_periodic_execution_count[tid] %  ratio  != 0) {
-				need_to_continue = true;
-				VERBOSE_DEBUG("  In the current periodic pattern the task " << tid << " is executed " << task_periodic_execution_count[tid] << " not divisible by ratio " << ratio );
-
-			}
-
-			if (factor == 0) {
-				factor = task_periodic_execution_count[tid] / ratio;
-			}
-			if (task_periodic_execution_count[tid] !=  ratio * factor) {
-							need_to_continue = true;
-							VERBOSE_DEBUG("  In the current periodic pattern the task " << tid << " is executed " << task_periodic_execution_count[tid] << " not equal to expected " << factor * ratio );
-
-			}
-
-		}
-		if (need_to_continue) {
-			init_phase_count--;
+	for (EXEC_COUNT repeat = gcd_value ; repeat > 1 ; repeat--) {
+		if (gcd_value % repeat) continue;
+		auto pattern_size = (execution_sequence.size() - init_phase_count) / repeat;
+		auto first = execution_sequence.begin() + init_phase_count;
+		if (std::equal(first + pattern_size, execution_sequence.end(), first)) {
+			execution_sequence.erase(first + pattern_size, execution_sequence.end());
+			break;
 		}
 	}
 
-	VERBOSE_ASSERT(init_phase_count >= 0 , "Problem detected.");
-
 	// Optimising when we can to reduce the init phase
 	VERBOSE_INFO("Check if we can reduce the inint phase");
 
@@ -498,6 +458,7 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 
 		} else {
 			VERBOSE_DEBUG("FAILED");
+			break;
 		}
 	}
 
-- 
2.43.0


From 48ee63c9e7db192a416cc611e236e40757346524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:32 +0000
Subject: [PATCH 22/49] fix: keep the token sizes of the channels of merged
 tasks

---
 src/libkiter/algorithms/transformation/merging.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libkiter/algorithms/transformation/merging.cpp b/src/libkiter/algorithms/transformation/merging.cpp
index 6c25bf2..8dd7117 100644
--- a/src/libkiter/algorithms/transformation/merging.cpp
+++ b/src/libkiter/algorithms/transformation/merging.cpp
@@ -205,6 +205,7 @@ struct edge_infos {
 	std::vector<TOKEN_UNIT> out_ini_vector;
 
 	TOKEN_UNIT preload;
+	TOKEN_UNIT token_size;
 
 	EDGE_TYPE type;
 
@@ -218,6 +219,7 @@ struct edge_infos {
 		out_per_vector(to->getEdgeOutVector(e)),
 		out_ini_vector(to->getEdgeInitOutVector(e)),
 		preload(to->getPreload(e)),
+		token_size(to->getTokenSize(e)),
 		type(to->getEdgeType(e)) {
 
 	}
@@ -588,6 +590,7 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 			//to->setEdgeName(new_edge, "merged_" + commons::toString(to->getEdgeId(new_edge)));
 			to->setEdgeType(new_edge,infos.type);
 			to->setPreload(new_edge, infos.preload);
+			to->setTokenSize(new_edge, infos.token_size);
 			to->setEdgeInPhases(new_edge, infos.in_per_vector);
 			to->setEdgeInInitPhases(new_edge, infos.in_ini_vector);
 
@@ -630,6 +633,7 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 			//to->setEdgeName(new_edge, "merged_" + commons::toString(to->getEdgeId(new_edge)));
 			to->setEdgeType(new_edge,infos.type);
 			to->setPreload(new_edge, infos.preload);
+			to->setTokenSize(new_edge, infos.token_size);
 
 			to->setEdgeOutPhases(new_edge, infos.out_per_vector);
 			to->setEdgeOutInitPhases(new_edge, infos.out_ini_vector);
-- 
2.43.0


From 654181bff9fd6197f95155aea9390b842ecea114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:05 +0000
Subject: [PATCH 23/49] fix: single output transformation keeps initial tokens

---
 src/libkiter/algorithms/transformation/singleOutput.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libkiter/algorithms/transformation/singleOutput.cpp b/src/libkiter/algorithms/transformation/singleOutput.cpp
index f6b1ab8..22ddb4e 100644
--- a/src/libkiter/algorithms/transformation/singleOutput.cpp
+++ b/src/libkiter/algorithms/transformation/singleOutput.cpp
@@ -57,9 +57,11 @@ void algorithms::transformation::singleOutput    (models::Dataflow* const datafl
 		Edge nc1 = dataflow->addEdge(newDup,  dataflow->getEdgeTarget(c1));
 		dataflow->setEdgeInPhases(nc1, {1});
 		dataflow->setEdgeOutPhases(nc1, {1});
+		dataflow->setPreload(nc1, dataflow->getPreload(c1));
 		Edge nc2 = dataflow->addEdge(newDup,  dataflow->getEdgeTarget(c2));
 		dataflow->setEdgeInPhases(nc2, {1});
 		dataflow->setEdgeOutPhases(nc2, {1});
+		dataflow->setPreload(nc2, dataflow->getPreload(c2));
 
 
 		// remote the two buffer
-- 
2.43.0


From ca6572b851bb8be2d4c4b27c6f945e61c985aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:54 +0000
Subject: [PATCH 24/49] fix: write execution times to SDF3 with all their
 digits

---
 src/libkiter/printers/SDF3Wrapper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/printers/SDF3Wrapper.cpp b/src/libkiter/printers/SDF3Wrapper.cpp
index 4dd1997..0ab3d7b 100644
--- a/src/libkiter/printers/SDF3Wrapper.cpp
+++ b/src/libkiter/printers/SDF3Wrapper.cpp
@@ -18,6 +18,8 @@
 #include <commons/verbose.h>
 #include <models/Dataflow.h>
 #include <iostream>
+#include <iomanip>
+#include <limits>
 #include <cstring>
 #include <fstream>
 
@@ -50,7 +52,7 @@ std::string vectorAsStr(const std::vector<TIME_UNIT>& t)
 			if ((std::floor(v)==std::ceil(v))) {
 				s << (unsigned long) (v) ;
 			} else {
-				s << commons::toString(v);
+				s << std::setprecision(std::numeric_limits<TIME_UNIT>::max_digits10) << v;
 			}
 		}
 		return s.str();
-- 
2.43.0


From 874c429c7eb4e5f3444a0b16d04344c0e382baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 25/49] fix: refining an event graph does not depend on memory
 addresses

---
 .../algorithms/throughput/kperiodic.cpp        | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index 1eec5f5..f7417af 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -415,11 +415,17 @@ models::EventGraph* algorithms::updateEventGraph(const models::Dataflow * const
 	}
 
 
+	// The circuit is ordered by memory addresses, the result must only depend on the graph.
+	std::vector<Edge> circuit (cc->begin(), cc->end());
+	std::sort(circuit.begin(), circuit.end(), [dataflow] (const Edge& a, const Edge& b) {
+		return dataflow->getEdgeId(a) < dataflow->getEdgeId(b);
+	});
+
 	VERBOSE_INFO("Update event graph - Step 1 - Delete edges and add task");
 	// STEP 1
 	//remove all connected edges
 	EXEC_COUNT current = 0;
-	for (critical_circuit_t::iterator it = cc->begin() ; it != cc->end(); it++ ) {
+	for (auto it = circuit.begin() ; it != circuit.end(); it++ ) {
 		current ++ ;
 
 		Vertex source = dataflow->getEdgeSource(*it);
@@ -447,7 +453,7 @@ models::EventGraph* algorithms::updateEventGraph(const models::Dataflow * const
 
 	current = 0;
 
-	for (critical_circuit_t::iterator it = cc->begin(); it != cc->end(); it++ ) {
+	for (auto it = circuit.begin(); it != circuit.end(); it++ ) {
 
 		current ++ ;
 		Vertex t = dataflow->getEdgeSource(*it);
@@ -469,12 +475,12 @@ models::EventGraph* algorithms::updateEventGraph(const models::Dataflow * const
 	// add all edges
 
 	current = 0;
-	for (critical_circuit_t::iterator it = cc->begin() ; it != cc->end() ; it++) {
+	for (auto it = circuit.begin() ; it != circuit.end() ; it++) {
 
 		current ++ ;
-		critical_circuit_t::iterator it_previous = it;
-		if (it == cc->begin())  {
-			it_previous = cc->end();
+		auto it_previous = it;
+		if (it == circuit.begin())  {
+			it_previous = circuit.end();
 		}
 		it_previous--;
 		Edge current = *it;
-- 
2.43.0


From 5d51256f715ede7f0b6d72fb2e9ea1f1af278834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 26/49] fix: the random generator gives the same graph for the
 same seed

---
 src/libkiter/generators/RandomGenerator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/generators/RandomGenerator.cpp b/src/libkiter/generators/RandomGenerator.cpp
index 790602d..2c57c4e 100644
--- a/src/libkiter/generators/RandomGenerator.cpp
+++ b/src/libkiter/generators/RandomGenerator.cpp
@@ -9,6 +9,7 @@
 #include "RandomGenerator.h"
 #include <algorithms/schedulings.h>
 #include <algorithms/normalization.h>
+#include <algorithm>
 #include <random>
 
 models::Dataflow*  generators::generate_random_sdf(parameters_list_t   param_list) {
@@ -55,7 +56,10 @@ static bool set_initial_marking (models::Dataflow * dataflow) {
 		if (scheduling_result.getGraphThroughput() <= 0) {
 			critical_circuit_t critical_edges = scheduling_result.getCriticalEdges();
 			VERBOSE_ASSERT(critical_edges.size(), "Scheduling does not provide a valid result");
-			Edge e = *critical_edges.begin();
+			// The set is ordered by memory addresses, the choice must only depend on the graph.
+			Edge e = *std::min_element(critical_edges.begin(), critical_edges.end(), [dataflow] (const Edge& a, const Edge& b) {
+				return dataflow->getEdgeId(a) < dataflow->getEdgeId(b);
+			});
 			TOKEN_UNIT current_size = dataflow->getPreload(e);
 			dataflow->reset_computation();
 			dataflow->setPreload(e, current_size + dataflow->getFineGCD(e)) ;
-- 
2.43.0


From c36ef7bde30ea0d392802bed2567c60a733c6e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:54 +0000
Subject: [PATCH 27/49] fix: map a task once when several channels lead to it

---
 src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h b/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h
index f33f8ed..91ffbf5 100644
--- a/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h
+++ b/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h
@@ -100,6 +100,8 @@ public:
 			top = to->getVertexById(pq.top().index);
 			pq.pop();
 			if(top != start) {
+				if(visited[to->getVertexId(top)]) continue; // several channels can lead to the same task
+
 				dijkstra_mapping(top, core_mapping, noc, input, available_cores, routes);
 
 			}
-- 
2.43.0


From 0fb4c2f038520520d83894abdac4888af2cdef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:54 +0000
Subject: [PATCH 28/49] fix: out-of-bounds accesses of the bufferless mapping

---
 src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp | 2 +-
 src/libkiter/models/NoCGraph.h                               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp b/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp
index c1c6923..6a8a0f8 100644
--- a/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp
+++ b/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp
@@ -144,7 +144,7 @@ void DFSUtil_PgmOrder (Vertex v, std::vector<bool>& visited, models::Dataflow* t
 //Remove the cyclic edges
 static Vertex removeCycleEdges (models::Dataflow* to, const std::vector<ARRAY_INDEX>& prog_order, const std::vector< std::vector<unsigned int> > &cyclen_per_vtxid) {
 	ARRAY_INDEX origV = to->getVerticesCount();
-	std::vector<bool> visited(origV, false);
+	std::vector<bool> visited(origV + 1, false);
 	std::vector<ARRAY_INDEX> removeEdgeId;
 	std::vector<ARRAY_INDEX> vertexId;
 
diff --git a/src/libkiter/models/NoCGraph.h b/src/libkiter/models/NoCGraph.h
index 394a173..b9e0dd7 100644
--- a/src/libkiter/models/NoCGraph.h
+++ b/src/libkiter/models/NoCGraph.h
@@ -72,7 +72,7 @@ class NoCGraph
 	//std::map<int, int> getLinkUtil() { return linkUtil; }
 	std::vector<int> getLinkUtil() { return linkUtil; }
 
-	void clear() { linkUtil.resize(V*V, 0); }//linkUtil.clear(); }
+	void clear() { linkUtil.resize(V + V*V, 0); }//linkUtil.clear(); }
 	void addEdge(int u, int v); 
 	void printAllPaths(int s, int d, int length);
         //void setLinkUtil(std::map<int, int> u) { linkUtil = u; }
-- 
2.43.0


From 922a0e492de6755ece94a113d1fba840e26423fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:56 +0000
Subject: [PATCH 29/49] fix: split each production into packets of the
 requested size

With no size given, the rate of the first channel became the size of all
packets, and a rate that is not a multiple of the packet size looped forever.
---
 src/libkiter/algorithms/symbolic_execution.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libkiter/algorithms/symbolic_execution.cpp b/src/libkiter/algorithms/symbolic_execution.cpp
index 720d7a3..60c4472 100644
--- a/src/libkiter/algorithms/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/symbolic_execution.cpp
@@ -164,21 +164,21 @@ void algorithms::symbolic_execution_with_packets (models::Dataflow* const graph,
 
 
 						TOKEN_UNIT datatotransfert = graph->getEdgeIn(outE);
-						if (psize == 0) psize = datatotransfert;
+						TOKEN_UNIT packet_size = (psize == 0) ? datatotransfert : psize;
 
-						VERBOSE_DEBUG(" - Produce " << datatotransfert << " by packet of " << psize);
+						VERBOSE_DEBUG(" - Produce " << datatotransfert << " by packet of " << packet_size);
 
 
 						ARRAY_INDEX previous = compute_pid;
 
-						while (datatotransfert) {
+						while (datatotransfert > 0) {
 							packet_ids[outE] = packet_count++;
 							ARRAY_INDEX pid = packet_ids[outE] ;
 							std::vector <ARRAY_INDEX> subdeps = deps ;
 							subdeps.push_back(previous);
 							print_packet_line ( src,  dst,  0,  pid, subdeps ) ;
 							previous = pid;
-							datatotransfert -= psize;
+							datatotransfert -= packet_size;
 						}
 					}}
 
-- 
2.43.0


From 561d75d38a0e71e2ae18b2294f7874a9ce178541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:56 +0000
Subject: [PATCH 30/49] fix: symbolic execution ends on a graph that deadlocks

---
 src/libkiter/algorithms/symbolic_execution.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libkiter/algorithms/symbolic_execution.cpp b/src/libkiter/algorithms/symbolic_execution.cpp
index 60c4472..e6e4f47 100644
--- a/src/libkiter/algorithms/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/symbolic_execution.cpp
@@ -113,6 +113,8 @@ void algorithms::symbolic_execution_with_packets (models::Dataflow* const graph,
 
 	while (total > 0) {
 
+		EXEC_COUNT total_before = total;
+
 		for (Vertex t : graph->vertices()) {
 
 			ARRAY_INDEX vId = graph->getVertexId(t);
@@ -187,6 +189,8 @@ void algorithms::symbolic_execution_with_packets (models::Dataflow* const graph,
 
 		}
 
+		VERBOSE_ASSERT(total < total_before, "the graph deadlocks");
+
 	}
 
     VERBOSE_INFO("End of symbolic execution.");
@@ -217,6 +221,7 @@ bool algorithms::symbolic_execution (models::Dataflow* const from) {
 	// Loop over to execute everyone. Unoptimized, could be much faster if tasks were stacked, and sum of dependences stored.
     // This does not model timings, useless for throughput
 	while (total > 0) {
+		EXEC_COUNT total_before = total;
 		{ForEachVertex(from,t) {
 			ARRAY_INDEX vId = from->getVertexId(t);
 			bool can_execute = false;
@@ -250,6 +255,7 @@ bool algorithms::symbolic_execution (models::Dataflow* const from) {
 			}
 
 		}}
+		if (total == total_before) break; // deadlock
 	}
 
     VERBOSE_INFO("End of symbolic execution.");
-- 
2.43.0


From 1a0c85827ffb17c4e89934e95cfb685552d15541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:56 +0000
Subject: [PATCH 31/49] fix: print the durations of packets with all their
 digits

A duration of a million or more was printed as 1e+06, which the TDMA
scheduler reads as 1.
---
 src/libkiter/algorithms/symbolic_execution.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libkiter/algorithms/symbolic_execution.cpp b/src/libkiter/algorithms/symbolic_execution.cpp
index e6e4f47..e266eb1 100644
--- a/src/libkiter/algorithms/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/symbolic_execution.cpp
@@ -8,6 +8,7 @@
 #include <models/Dataflow.h>
 #include <models/EventGraph.h>
 #include <algorithms/symbolic_execution.h>
+#include <limits>
 
 
 
@@ -26,7 +27,9 @@ void print_packet_line (ARRAY_INDEX src, ARRAY_INDEX dst, TIME_UNIT duration, AR
 	if (verb) std::cout << "dst=";
 	std::cout << (dst - 1) % 16 << "," ;
 	if (verb) std::cout << "dur=";
+	std::streamsize precision = std::cout.precision(std::numeric_limits<TIME_UNIT>::digits10);
 	std::cout << duration << "," ;
+	std::cout.precision(precision);
 	if (verb) std::cout << "pid=";
 	std::cout << pid << "," ;
 	if (verb) std::cout << "bid=";
-- 
2.43.0


From f49fa8d192feece6c5d8c2a919cc4d20a0cd578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:56 +0000
Subject: [PATCH 32/49] fix: distance between two nodes of a mesh that is not
 square

---
 src/libkiter/algorithms/scheduling/TDMAScheduler.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp b/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp
index 84ebc06..81285bd 100644
--- a/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp
+++ b/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp
@@ -17,10 +17,10 @@
 			return (total_slot - curr_slot) + my_slot;
 	}
 
-	long getDistance(long src, long des, long rows, long cols)
+	long getDistance(long src, long des, long cols)
 	{
-		long s_r = src / rows, s_c = src % cols;
-		long d_r = des / rows, d_c = des % cols;
+		long s_r = src / cols, s_c = src % cols;
+		long d_r = des / cols, d_c = des % cols;
 
 		return abs(s_r-d_r) + abs(s_c-d_c) + 1;
 	}
@@ -222,7 +222,7 @@ void algorithms::scheduling::TDMAScheduler::write_tdma_schedule (std::string slo
 							slotlock[src_dest_key] = cycle; //prevent same source from sending multiple packets in the same cycle
 							//change start srjkvr
 							//int cycles_left = TOTAL_SLOTS - curr_slot;
-							long cycles_left = getDistance(src, dest, rows, cols);
+							long cycles_left = getDistance(src, dest, cols);
 							//if(cycles_left > (TOTAL_SLOTS - curr_slot))
 							//	cout << "error src=" << src << ",dest=" << dest << ",col=" << cols << ",row=" << rows << "\n";
 							//change end srjkvr
-- 
2.43.0


From 34ef997113fa1e619f35d6d3964921a384a7943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:11 +0000
Subject: [PATCH 33/49] fix: sign of the firing shift in the partial expansion

A constraint between the firings ai and aj of two tasks has to move with
Zj.aj - Zi.ai; with the opposite sign live graphs got circuits without tokens.
---
 src/libkiter/algorithms/experiments/ExpansionGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/experiments/ExpansionGraph.cpp b/src/libkiter/algorithms/experiments/ExpansionGraph.cpp
index 7a5246f..fb0b44e 100644
--- a/src/libkiter/algorithms/experiments/ExpansionGraph.cpp
+++ b/src/libkiter/algorithms/experiments/ExpansionGraph.cpp
@@ -226,7 +226,7 @@ void ExpansionGraph::generate_E3_Edges(models::Dataflow * const dataflow , const
 
 			TOKEN_UNIT x = ai;
 			TOKEN_UNIT y = aj;
-			double shift = ((double) ( Tx * x - Ty * y ) /  (double) gcdk);
+			double shift = ((double) ( Ty * y - Tx * x ) /  (double) gcdk);
 
 			double fxy =  (double) f0 +  (double) shift;
 			double gxy =  (double) g0 +  (double) shift;
-- 
2.43.0


From 643d68bcb4a20c30ffff38a353903db37fffea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 34/49] fix: exact bounds in the partial expansion

Dividing by gcdk before adding the shift lost constraints to rounding
(ceil of 1.0000000000000002).
---
 src/libkiter/algorithms/experiments/ExpansionGraph.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/experiments/ExpansionGraph.cpp b/src/libkiter/algorithms/experiments/ExpansionGraph.cpp
index fb0b44e..0548ed8 100644
--- a/src/libkiter/algorithms/experiments/ExpansionGraph.cpp
+++ b/src/libkiter/algorithms/experiments/ExpansionGraph.cpp
@@ -232,8 +232,9 @@ void ExpansionGraph::generate_E3_Edges(models::Dataflow * const dataflow , const
 			double gxy =  (double) g0 +  (double) shift;
 
 
-			const TOKEN_UNIT pibmin =  (TOKEN_UNIT)   std::ceil(fxy);
-			const TOKEN_UNIT pibmax =  (TOKEN_UNIT)  std::floor(gxy);
+			// exact: rounding fxy or gxy could lose a constraint
+			const TOKEN_UNIT pibmin =  commons::ceil (f0gcdk + Ty * y - Tx * x, gcdk) / gcdk;
+			const TOKEN_UNIT pibmax =  commons::floor(g0gcdk + Ty * y - Tx * x, gcdk) / gcdk;
 
 			std::cout << ai << ", "
 					<< aj << ", "
-- 
2.43.0


From c2685473b64c7e80f26c0f064da097f3a2fc0ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:49 +0000
Subject: [PATCH 35/49] fix: check every start of a schedule against its inputs
 and the running executions

---
 src/libkiter/models/Scheduling.cpp | 254 ++++++++---------------------
 1 file changed, 67 insertions(+), 187 deletions(-)

diff --git a/src/libkiter/models/Scheduling.cpp b/src/libkiter/models/Scheduling.cpp
index dadf50f..1601557 100644
--- a/src/libkiter/models/Scheduling.cpp
+++ b/src/libkiter/models/Scheduling.cpp
@@ -7,7 +7,8 @@
 
 #include "Scheduling.h"
 #include <models/Dataflow.h>
-#include <numeric>
+#include <algorithm>
+#include <tuple>
 
 void models::Scheduling::verbose_print() const {
 
@@ -266,214 +267,93 @@ std::string models::Scheduling::asASCII (int line_size) const{
 }
 
 
-struct task_catalog {
-	EXEC_COUNT cur_phase;
-	EXEC_COUNT task_Ni;
-	std::vector<TIME_UNIT> phase_durations;
-	std::vector<TIME_UNIT> schedule;
-};
+// One end (false) or start (true) of an execution of a task : time, start, task id, execution index (from 0)
+typedef std::tuple<TIME_UNIT, bool, ARRAY_INDEX, EXEC_COUNT> schedule_event_t;
 
 bool models::Scheduling::is_valid_schedule () const{
 
-	// Step 0: Setting up symbolic execution
-
 	const models::Dataflow* g = this->getDataflow();
 	scheduling_t s = this->getTaskSchedule();
-	
-	std::vector<EXEC_COUNT> buffer_load (g->getMaxEdgeId());
 
-	{ForEachEdge(g,c) {
-		buffer_load[g->getEdgeId(c)] = g->getPreload(c);
-		// ###
-		VERBOSE_INFO("EDGE ID: " << g->getEdgeId(c) << " | EDGE INIT " << buffer_load[g->getEdgeId(c)]);
-		// ###
-	}}
+	// Step 0: one graph iteration and the longest execution after every task has reached its periodic part,
+	// after that the schedule only repeats itself.
 
-
-	std::map<ARRAY_INDEX, task_catalog> task_log;
+	TIME_UNIT end_of_schedule = 0;
+	TIME_UNIT longest_execution = 0;
 
 	{ForEachVertex(g,t) {
-		ARRAY_INDEX id = g->getVertexId(t); 
-		EXEC_COUNT Ni =  g->getNi(t);
-		task_catalog t;
-		t.cur_phase = 0;
-		t.task_Ni = Ni;
-		t.phase_durations = g->getVertexPhaseDuration((g->getVertexById(id)));
-		task_log[id] = t;
-	}}
-
-	// Creating one centralized schedule vector for each task
-
-	std::vector<EXEC_COUNT> exec_left (g->getMaxEdgeId());
-
-	for (std::pair<const ARRAY_INDEX, task_schedule_t> task : s){
-
-		ARRAY_INDEX task_id = task.first;
-
-		task_log[task_id].schedule = task.second.initial_starts;
-		exec_left[task_id] = task.second.initial_starts.size() + task_log[task_id].task_Ni;
-
-		// total += task.second.initial_starts.size(); 
-
-		for (int i = 0; i <= task_log[task_id].task_Ni; i++){
-			TIME_UNIT task_period = s[task_id].periodic_starts.first;
-			TIME_UNIT out_exec_time = s[task_id].periodic_starts.second[0];
-			task_log[task_id].schedule.push_back(out_exec_time);
-			s[task_id].periodic_starts.second.push_back(out_exec_time + task_period);
-			s[task_id].periodic_starts.second.erase(s[task_id].periodic_starts.second.begin());
+		const task_schedule_t& ts = s[g->getVertexId(t)];
+		if (ts.periodic_starts.second.empty() || ts.periodic_starts.first <= 0) return false;
+		const TIME_UNIT iteration = ts.periodic_starts.first * g->getNi(t) / ts.periodic_starts.second.size();
+		end_of_schedule = std::max(end_of_schedule, ts.periodic_starts.second[0] + iteration);
+		for (PHASE_INDEX p = 1 - g->getInitPhasesQuantity(t) ; p <= g->getPhasesQuantity(t) ; p++) {
+			longest_execution = std::max(longest_execution, g->getVertexDuration(t,p));
 		}
-	}
+	}}
+	end_of_schedule += longest_execution;
 
-	// Filling out the schedules
+	// Starting times are rounded when the period is not an integer
+	const TIME_UNIT tolerance = end_of_schedule * 1e-12;
 
-	TIME_UNIT max_time = 0;
-	for (auto task : task_log){
-		if (task.second.schedule.back() > max_time){
-			max_time = task.second.schedule.back();
-		}
-	}
-	for (auto task : task_log){
-		ARRAY_INDEX task_id = task.first;
-		TIME_UNIT end_time = task.second.schedule.back();
-		while (end_time < max_time){
-			TIME_UNIT task_period = s[task_id].periodic_starts.first;
-			TIME_UNIT out_exec_time = s[task_id].periodic_starts.second[0];
-			task_log[task_id].schedule.push_back(out_exec_time);
-			s[task_id].periodic_starts.second.push_back(out_exec_time + task_period);
-			s[task_id].periodic_starts.second.erase(s[task_id].periodic_starts.second.begin());
-			end_time = out_exec_time;	
-		}
+	// Initial phases are executed once, before the periodic phases
+	auto phase_of = [g] (Vertex t, EXEC_COUNT k) -> PHASE_INDEX {
+		const EXEC_COUNT init = g->getInitPhasesQuantity(t);
+		return (k < init) ? (k + 1 - init) : (1 + (k - init) % g->getPhasesQuantity(t));
 	};
 
-	// ###
-	for(auto task : task_log){ VERBOSE_INFO("TASK ID: " << task.first << " | PhaseDur: " << commons::toString(task.second.phase_durations) << " | Schedule: " << commons::toString(task.second.schedule)); }
-	VERBOSE_INFO("REMAINING EXECUTIONS: " << commons::toString(exec_left));
-	// ###
-	
-	// Step 1: Symbolic execution
-
-	std::pair<ARRAY_INDEX, TIME_UNIT> next_task;
-
-	// Tracking most recent next tasks of each task
-	std::vector<TIME_UNIT> task_history (g->getMaxEdgeId()); 
-	
-	// Initializing next task
-	for (std::pair<const ARRAY_INDEX, task_catalog> task : task_log){
-		if (task.second.schedule[0] == 0){
-			next_task.first = task.first;
-			next_task.second = 0;
-		}
-	}
-
-	// ###
-	VERBOSE_INFO("INIT TASK ID: " << next_task.first << " | EXEC TIME: " << next_task.second);
-	// ###
-
-	while(std::accumulate(exec_left.begin(), exec_left.end(), 0) != 0){
-
-		// Finding all tasks that completed execution before next_task is consumed
-
-		std::vector<ARRAY_INDEX> out_tasks;
-
-		for (std::pair<const ARRAY_INDEX, task_catalog> task : task_log){
-			
-			ARRAY_INDEX id = task.first;
-			TIME_UNIT phase_time = (task_log[id].phase_durations)[task_log[id].cur_phase];
-			TIME_UNIT finish_time = phase_time + task_log[id].schedule[0];
-
-			if (finish_time <= next_task.second){
-				out_tasks.push_back(id);
-
-				// ###
-				VERBOSE_INFO("OUT TASK ID: " << id << " | FINISH TIME: " << finish_time << " | PHASE:" << task_log[id].cur_phase);
-				// ###
-			} 
-		}
+	std::vector<schedule_event_t> events;
 
-		// ###
-		VERBOSE_INFO("OUT TASKS: " << commons::toString(out_tasks));
-		// ###
-
-		// Executing symbolic executon
-
-		for (ARRAY_INDEX out_id : out_tasks){
-			Vertex out_v = g->getVertexById(out_id);
-			{ForOutputEdges(g,out_v,inE){
-				TOKEN_UNIT reqCount = (g->getEdgeInVector(inE))[task_log[out_id].cur_phase];
-				TOKEN_UNIT inCount  = buffer_load[g->getEdgeId(inE)];
-				buffer_load[g->getEdgeId(inE)] = inCount + reqCount;
-			}}
-
-		}
-
-		Vertex in_v = g->getVertexById(next_task.first);
-		{ForInputEdges(g,in_v,inE)	{
-			TOKEN_UNIT reqCount = (g->getEdgeOutVector(inE))[task_log[next_task.first].cur_phase];
-			TOKEN_UNIT inCount  = buffer_load[g->getEdgeId(inE)];
-			buffer_load[g->getEdgeId(inE)] = inCount - reqCount;
-		
-			// Invalid Schedule Conditon - negative buffer load
-			if (buffer_load[g->getEdgeId(inE)] < 0) { return false; }
-		}}
-
-		for (ARRAY_INDEX out_id : out_tasks){
-			task_log[out_id].cur_phase = (task_log[out_id].cur_phase + 1) % task_log[out_id].phase_durations.size();
-			task_log[out_id].schedule.erase(task_log[out_id].schedule.begin());
-			if (exec_left[out_id] > 0){ exec_left[out_id]--; }
+	{ForEachVertex(g,t) {
+		const ARRAY_INDEX id = g->getVertexId(t);
+		const task_schedule_t& ts = s[id];
+		const EXEC_COUNT initials = ts.initial_starts.size();
+		const EXEC_COUNT periodics = ts.periodic_starts.second.size();
+		TIME_UNIT previous_end = 0;
+
+		for (EXEC_COUNT k = 0 ; ; k++) {
+			const TIME_UNIT start = (k < initials) ? ts.initial_starts[k] :
+					ts.periodic_starts.second[(k - initials) % periodics] + ((k - initials) / periodics) * ts.periodic_starts.first;
+			if (k >= initials && start > end_of_schedule) break;
+
+			// Invalid Schedule Condition - only when task has reentrancy loop
+			if (g->getReentrancyFactor(t) && k > 0 && start < previous_end) {
+				VERBOSE_INFO("Invalid schedule: execution " << k << " of task " << id << " starts at t=" << start << " before t=" << previous_end);
+				return false;
+			}
+			previous_end = start + g->getVertexDuration(t, phase_of(t, k)) - tolerance;
+			events.push_back(schedule_event_t(start, true, id, k));
+			events.push_back(schedule_event_t(previous_end, false, id, k));
 		}
+	}}
 
-		// ###
-		VERBOSE_INFO("PREVIOUS TASK EXECUTION TIMES: " << commons::toString(task_history));
-		// ###
-		
-		// ###
-		VERBOSE_INFO("######## NEW ITERATION ###########");
-		// ###
-
-		// Finding next task in schedule
-		task_history[next_task.first] = next_task.second;
-
-		std::map<TIME_UNIT, ARRAY_INDEX> potential_next_tasks;
+	// Step 1: symbolic execution, in order of time, the ends before the starts
 
-		for (std::pair<const ARRAY_INDEX, task_catalog> task : task_log){
-		if (!(task.second.schedule.empty())){
+	std::sort(events.begin(), events.end());
 
-			std::size_t i = 0;
-			while(task.second.schedule[i] < next_task.second || task.second.schedule[i] <= task_history[task.first]){
-				if (i + 1 == task.second.schedule.size()){ break; }
-				i++;			
-			}
+	std::vector<TOKEN_UNIT> buffer_load (g->getMaxEdgeId());
+	{ForEachEdge(g,c) {
+		buffer_load[g->getEdgeId(c)] = g->getPreload(c);
+	}}
 
-			if (task.second.schedule[i] > task_history[task.first]){
-			potential_next_tasks[task.second.schedule[i]] = task.first;
-			}
-		}}
-
-		next_task.first = (potential_next_tasks.begin())->second;
-		next_task.second = (potential_next_tasks.begin())->first;
-
-		// ###
-		for(auto task : task_log){ VERBOSE_INFO("TASK ID: " << task.first <<" | SCHEDULE " << commons::toString(task.second.schedule)); }
-		VERBOSE_INFO("BUFFER LOAD: " << commons::toString(buffer_load));
-		VERBOSE_INFO("REMAINING EXECUTIONS: " << commons::toString(exec_left));
-		VERBOSE_INFO("NEXT TASK ID: " << next_task.first << " | EXEC TIME: " << next_task.second);
-		// ### 
-
-		// Invalid Schedule Condition - infeasible task execution
-		TIME_UNIT task_duration = task_log[next_task.first].phase_durations[task_log[next_task.first].cur_phase];
-		if (not g->getReentrancyFactor(g->getVertexById(next_task.first))) // only when task has reentrancy loop
-		if (next_task.second < task_history[next_task.first] + task_duration){
-			VERBOSE_ERROR("Invalide scheduling condition: Next task " << next_task.first << " expected t=" << next_task.second << " is lower than t=" << task_history[next_task.first] + task_duration);
-			return false;
+	for (const schedule_event_t& event : events) {
+		Vertex t = g->getVertexById(std::get<2>(event));
+		const PHASE_INDEX phase = phase_of(t, std::get<3>(event));
+		if (std::get<1>(event)) {
+			{ForInputEdges(g,t,c) {
+				buffer_load[g->getEdgeId(c)] -= g->getEdgeOutPhase(c, phase);
+				// Invalid Schedule Conditon - negative buffer load
+				if (buffer_load[g->getEdgeId(c)] < 0) {
+					VERBOSE_INFO("Invalid schedule: task " << std::get<2>(event) << " starts at t=" << std::get<0>(event) << " without its inputs");
+					return false;
+				}
+			}}
+		} else {
+			{ForOutputEdges(g,t,c) {
+				buffer_load[g->getEdgeId(c)] += g->getEdgeInPhase(c, phase);
+			}}
 		}
-
-	}	
+	}
 
 	return true;
 
 }
-
-
-
-
-	
-- 
2.43.0


From 5a4c75c0c59e2d60ac56eae3f6dfe119d0fa49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:50 +0000
Subject: [PATCH 36/49] fix: an algorithm of a list printed its numbers in the
 format left by those before it (2.38e-08 became 0.000000024)

---
 src/kiter/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kiter/main.cpp b/src/kiter/main.cpp
index 8fc7607..d2252dc 100644
--- a/src/kiter/main.cpp
+++ b/src/kiter/main.cpp
@@ -164,7 +164,10 @@ int main (int argc, char **argv)
 			VERBOSE_INFO ("Run " << transformation->name);
 			tock();
 			(*it).second.insert(parameters.begin(),parameters.end());
+			std::ios standard_format(nullptr);
+			standard_format.copyfmt(std::cout);
 			transformation->fun(csdf,(*it).second);
+			std::cout.copyfmt(standard_format); // what an algorithm prints does not depend on those run before
 			double duration = tock();
 			VERBOSE_INFO (transformation->name << " duration=" << duration);
 		}
-- 
2.43.0


From 9380815c74fca510e56241d22dfcd9fde0cbaf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:50 +0000
Subject: [PATCH 37/49] fix: the throughput-buffering exploration of a graph
 analysed before stopped the program (its copy was read-only)

---
 src/libkiter/algorithms/dse/dse.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libkiter/algorithms/dse/dse.cpp b/src/libkiter/algorithms/dse/dse.cpp
index 7cfcc21..13563aa 100644
--- a/src/libkiter/algorithms/dse/dse.cpp
+++ b/src/libkiter/algorithms/dse/dse.cpp
@@ -93,6 +93,7 @@ void algorithms::throughput_buffering_tradeoff_dse(models::Dataflow* const dataf
 
   // create new graph with modelled bounded channel quantities
   models::Dataflow* dataflow_prime = new models::Dataflow(*dataflow);
+  dataflow_prime->reset_computation(); // the copy of a graph analysed before is read-only
   // add feedback channels in new graph to model bounded channel quantities
   if (modelBoundedBuffers) {
     {ForEachEdge(dataflow, c) {
-- 
2.43.0


From ff7687ae723b88b7d0eb62173d42a95a24e6edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:50 +0000
Subject: [PATCH 38/49] fix: removing tasks or reentrancy, or the single output
 transformation, stopped the program after an analysis

---
 src/libkiter/algorithms/transformation/bug_explorer.cpp      | 2 ++
 src/libkiter/algorithms/transformation/remove_reentrancy.cpp | 2 ++
 src/libkiter/algorithms/transformation/singleOutput.cpp      | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/libkiter/algorithms/transformation/bug_explorer.cpp b/src/libkiter/algorithms/transformation/bug_explorer.cpp
index a38d25e..fd6895f 100644
--- a/src/libkiter/algorithms/transformation/bug_explorer.cpp
+++ b/src/libkiter/algorithms/transformation/bug_explorer.cpp
@@ -46,6 +46,8 @@ void algorithms::transformation::compare_sdf3_throughput (models::Dataflow* cons
 
 void algorithms::transformation::remove_task (models::Dataflow* const  dataflow, parameters_list_t params) {
 
+	dataflow->reset_computation(); // an analysis may have made the graph read-only
+
 	if (params.find("taskname") != params.end()) {
 		VERBOSE_INFO("taskname = " << params["taskname"]);
 		auto names = commons::split<std::string>(params["taskname"], ',');
diff --git a/src/libkiter/algorithms/transformation/remove_reentrancy.cpp b/src/libkiter/algorithms/transformation/remove_reentrancy.cpp
index c6ac584..46404ae 100644
--- a/src/libkiter/algorithms/transformation/remove_reentrancy.cpp
+++ b/src/libkiter/algorithms/transformation/remove_reentrancy.cpp
@@ -11,6 +11,8 @@
 
 void algorithms::transformation::remove_reentrancy (models::Dataflow* const  dataflow, parameters_list_t params) {
 
+	dataflow->reset_computation(); // an analysis may have made the graph read-only
+
 	if (params.find("taskname") != params.end()) {
 		auto names = commons::split<std::string>(params["taskname"], ',');
 		for (auto name : names) {
diff --git a/src/libkiter/algorithms/transformation/singleOutput.cpp b/src/libkiter/algorithms/transformation/singleOutput.cpp
index 22ddb4e..74d61b0 100644
--- a/src/libkiter/algorithms/transformation/singleOutput.cpp
+++ b/src/libkiter/algorithms/transformation/singleOutput.cpp
@@ -20,6 +20,8 @@ void algorithms::transformation::singleOutput    (models::Dataflow* const datafl
 
 	Vertex t = dataflow->getVertexByName(parameters["name"]);
 
+	dataflow->reset_computation(); // an analysis may have made the graph read-only
+
 	VERBOSE_INFO("Out degree = " << dataflow->getVertexOutDegree(t) );
 
 	ARRAY_INDEX cnt = 0;
-- 
2.43.0


From 86a2c2311af5360e385f0ea30c3423592e16e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:31 +0000
Subject: [PATCH 39/49] fix: the generated program of a graph returns it, with
 its names, token sizes, edge types and exact durations

---
 src/libkiter/printers/stdout.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/printers/stdout.cpp b/src/libkiter/printers/stdout.cpp
index 94428d7..8911cec 100644
--- a/src/libkiter/printers/stdout.cpp
+++ b/src/libkiter/printers/stdout.cpp
@@ -9,6 +9,8 @@
 #include <printers/stdout.h>
 #include <commons/commons.h>
 #include <printers/SDF3Wrapper.h>
+#include <iomanip>
+#include <limits>
 
 std::string add_block ( std::string name , TIME_UNIT start, TIME_UNIT duration, double node_height,  double current_task_y_pos, double line_width =  0.1 , bool fill = false) {
 		std::ostringstream returnStream;
@@ -123,6 +125,12 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 
 
 	  std::ostringstream returnStream;
+	  auto duration_literal = [] (TIME_UNIT v) -> std::string {
+		  std::ostringstream s;
+		  s << std::setprecision(std::numeric_limits<TIME_UNIT>::max_digits10) << v;
+		  if (s.str().find_first_of(".e") != std::string::npos) s << "L"; // otherwise the compiler would round to a double
+		  return s.str();
+	  };
 
 
 	  returnStream << "// Auto-generate by Kiter for Kiter" << std::endl;
@@ -134,6 +142,9 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 
 	  if (verbose) returnStream << "std::cout << \"generate a dataflow graph...\" << std::endl;"  << std::endl;
 	  returnStream << "models::Dataflow* new_graph = new models::Dataflow();" << std::endl;
+	  returnStream << "new_graph->setAppName(\"" << dataflow->getAppName() << "\");" << std::endl;
+	  returnStream << "new_graph->setGraphName(\"" << dataflow->getGraphName() << "\");" << std::endl;
+	  returnStream << "new_graph->setGraphType(\"" << dataflow->getGraphType() << "\");" << std::endl;
 	  returnStream << "" << std::endl;
 
 	  {ForEachVertex(dataflow,t) {
@@ -151,7 +162,7 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 		  std::string init_duration_string = "";
 		  for (PHASE_INDEX phase = 1 ; phase <= init_phase_count ; phase++) {
 			  if (phase > 1)  init_duration_string += ",";
-			  init_duration_string += commons::toString<TIME_UNIT>(dataflow->getVertexInitDuration(t,phase));
+			  init_duration_string += duration_literal(dataflow->getVertexInitDuration(t,phase));
 		  }
 		  init_duration_string = "{" + init_duration_string + "}";
 		  returnStream << " new_graph->setVertexInitDuration(new_vertex," << init_duration_string << ");" << std::endl;
@@ -159,7 +170,7 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 		  std::string duration_string = "";
 		  for (PHASE_INDEX phase = 1 ; phase <= phase_count ; phase++) {
 			  if (phase > 1)  duration_string += ",";
-			  duration_string += commons::toString<TIME_UNIT>(dataflow->getVertexDuration(t,phase));
+			  duration_string += duration_literal(dataflow->getVertexDuration(t,phase));
 		  }
 		  duration_string = "{" + duration_string + "}";
 
@@ -238,12 +249,15 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 		  returnStream << " new_graph->setEdgeInPhases(new_edge," << in_rates << ");" << std::endl;
 		  returnStream << " new_graph->setEdgeOutPhases(new_edge," << out_rates << ");" << std::endl;
 		  returnStream << " new_graph->setPreload(new_edge," << dataflow->getPreload(c) << ");" << std::endl;
+		  returnStream << " new_graph->setTokenSize(new_edge," << dataflow->getTokenSize(c) << ");" << std::endl;
+		  returnStream << " new_graph->setEdgeType(new_edge,EDGE_TYPE::" << (dataflow->getEdgeType(c) == EDGE_TYPE::VIRTUAL_EDGE ? "VIRTUAL_EDGE" : dataflow->getEdgeTypeStr(c)) << ");" << std::endl;
 		  returnStream << " new_graph->setEdgeName(new_edge,\"" << dataflow->getEdgeName(c) << "\");" << std::endl;
 
 		  returnStream << "}" << std::endl;
 
 	    }}
 	  returnStream << std::endl;
+	  returnStream << "return new_graph;"   << std::endl;
 	  returnStream << "}"   << std::endl;
 	  return returnStream.str();
 
-- 
2.43.0


From e097a92b640063ed56e3b17c0015345dff9ffd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:45 +0000
Subject: [PATCH 40/49] fix: the timeline of a schedule shows initial phases,
 zero durations, overlapping and fractional executions

---
 src/libkiter/models/Scheduling.cpp | 108 ++++++++---------------------
 1 file changed, 27 insertions(+), 81 deletions(-)

diff --git a/src/libkiter/models/Scheduling.cpp b/src/libkiter/models/Scheduling.cpp
index 1601557..2201ea7 100644
--- a/src/libkiter/models/Scheduling.cpp
+++ b/src/libkiter/models/Scheduling.cpp
@@ -54,97 +54,43 @@ std::string models::Scheduling::asText () const{
 
 std::string models::Scheduling::asASCIINewNew (int line_size) const{
 
+	// Starts are rounded when the period is not an integer
+	const TIME_UNIT tolerance = 1e-6;
 
 	std::ostringstream returnStream;
-	int idx = 0;
 
 	for (auto item : this->getTaskSchedule()) {
 		ARRAY_INDEX tid = item.first;
 		Vertex v = _dataflow->getVertexById(item.first);
-		std::vector<TIME_UNIT> &starts = item.second.initial_starts;// initial starts
-		std::vector<TIME_UNIT> &pedstarts = item.second.periodic_starts.second; //periodic starts
-		TIME_UNIT period = item.second.periodic_starts.first;
-		std::string start_str;
-		std::string period_str;
-		TIME_UNIT prev = -1;
-		std::vector<TIME_UNIT> phases = _dataflow->getVertexPhaseDuration(v);
-		int phase_count = phases.size();
+		const static_task_schedule_t& starts = item.second.initial_starts;// initial starts
+		const static_task_schedule_t& pedstarts = item.second.periodic_starts.second; //periodic starts
+		const TIME_UNIT period = item.second.periodic_starts.first;
+		const EXEC_COUNT init_phases = _dataflow->getInitPhasesQuantity(v);
+		const EXEC_COUNT phases = _dataflow->getPhasesQuantity(v);
+
+		std::string line (line_size, ' ');
+		EXEC_COUNT exec_idx = 0;
+
+		// one '@' in the column of the start, one '#' in each other column where the execution is running
+		auto draw = [&] (TIME_UNIT start) {
+			const TIME_UNIT duration = _dataflow->getVertexDuration(v, exec_idx < init_phases ? exec_idx + 1 - init_phases : 1 + (exec_idx - init_phases) % phases);
+			exec_idx++;
+			if (!(start < line_size)) return;
+			const int column = (int) std::floor(start + tolerance);
+			if (column < line_size) line[column] = '@';
+			for (int c = column + 1 ; c < line_size && c < start + duration - tolerance ; c++) {
+				if (line[c] == ' ') line[c] = '#';
+			}
+		};
 
-		std::string line = "";
-		int linesize = line_size;
-		// add to string 1) initial starts 2) trailing spaces (before periodic starts)
-		int exec_idx = 0;
-		for (TIME_UNIT i: starts) {
-			std::string add_space(i-prev-1, ' ');
-			start_str += add_space;
-			std::string exec(phases[exec_idx % phase_count]-1, '#');
-			start_str += '@';
-			start_str += exec;
-			prev = i+exec.size();
-			++exec_idx;
-		}
-		std::string leading_space(pedstarts[0]-prev-1, ' ');
-		start_str += leading_space; 
-		if (start_str.length() <= linesize) {
-			line += start_str;
-			linesize -= start_str.length();
-		}
-		else {
-			line += (start_str.substr(0,linesize));
-			linesize = 0;
-		}
+		for (TIME_UNIT start : starts) draw(start);
 
-		// create period string without leading spaces so to use for both first and subsequent periods
-		if (!pedstarts.empty()){
-			prev = pedstarts[0]-1;
-			for (TIME_UNIT i: pedstarts) {
-				std::string add_space(i-prev-1, ' ');
-				period_str += add_space;
-				std::string exec(phases[exec_idx % phase_count]-1, '#');
-				period_str += '@';
-				period_str += exec;
-				prev = i+exec.size();
-				++exec_idx ;
-			}
-			// add trailing spaces after period starts (before next period)
-			std::string trailing_space((period+pedstarts[0])-prev-1, ' ');
-			period_str += trailing_space;
-			// need to complete the period for all phases (by looking ahead)
-			if(phase_count > pedstarts.size()){
-				prev = pedstarts[0]-1;
-				int phase_idx = 0;
-				while (exec_idx % phase_count != 0){
-					TIME_UNIT i = pedstarts[phase_idx % pedstarts.size()];
-					std::string exec(phases[exec_idx % phase_count]-1, '#');
-					period_str += '@';
-					period_str += exec;
-					if (i == pedstarts.back()){
-						std::string trailing_space((period+pedstarts[0])-(i+exec.size())-1, ' ');
-						period_str += trailing_space;
-					} else {
-						std::string add_space(pedstarts[phase_idx % pedstarts.size()]-i, ' ');
-						period_str += add_space;
-					}
-					
-					prev = i+exec.size();
-					++phase_idx;
-					++exec_idx;
-				}
-			}
-			// continuously add period_str to line
-			while (linesize > 0){
-				if (linesize >= period_str.length()){
-					line += period_str;
-					linesize -= period_str.length();
-				} else {
-					line += (period_str.substr(0,linesize));
-					linesize = 0;
-				}
+		if (!pedstarts.empty()) {
+			const TIME_UNIT first = *std::min_element(pedstarts.begin(), pedstarts.end());
+			for (EXEC_COUNT iter = 0 ; iter == 0 || (period > 0 && first + period * iter < line_size) ; iter++) {
+				for (TIME_UNIT start : pedstarts) draw(iter == 0 ? start : start + period * iter);
 			}
 		}
-		
-		linesize = line_size;
-		++idx;
 
 		returnStream << std::setw(5) << tid << " |" << line << std::endl;
 	}
-- 
2.43.0


From 8ff7b1348938feb2fa346127ac15a4c19f1def87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:20 +0000
Subject: [PATCH 41/49] fix: drawings of schedules show the initial phases of
 the schedule with their durations

---
 src/libkiter/printers/stdout.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/libkiter/printers/stdout.cpp b/src/libkiter/printers/stdout.cpp
index 8911cec..096f122 100644
--- a/src/libkiter/printers/stdout.cpp
+++ b/src/libkiter/printers/stdout.cpp
@@ -21,6 +21,12 @@ std::string add_block ( std::string name , TIME_UNIT start, TIME_UNIT duration,
 		return returnStream.str();
 }
 
+// Phase of the execution of index execution_index (from 0), negative or null for the initial phases
+static PHASE_INDEX phase_of_execution (const models::Dataflow* dataflow, const Vertex t, EXEC_COUNT execution_index) {
+	const EXEC_COUNT init = dataflow->getInitPhasesQuantity(t);
+	return (execution_index < init) ? execution_index + 1 - init : 1 + (execution_index - init) % dataflow->getPhasesQuantity(t);
+}
+
 std::string printers::PeriodicScheduling2DOT    (models::Dataflow* const  dataflow,  models::Scheduling& sched ,   TIME_UNIT last_execution_end_at, bool ,  double xscale , double yscale ) {
 
   std::ostringstream returnStream;
@@ -78,9 +84,8 @@ std::string printers::PeriodicScheduling2DOT    (models::Dataflow* const  datafl
       bool fill_first = true;
       bool fill_per   = false;
 
-      for (EXEC_COUNT init_phase = 0 ; init_phase < dataflow->getInitPhasesQuantity(t) ; init_phase++) {
-    	  TIME_UNIT start = starts[init_phase];
-		  auto duration = dataflow->getVertexInitDuration(t,init_phase+1);
+      for (TIME_UNIT start : scheduling[tid].initial_starts) {
+		  auto duration = dataflow->getVertexDuration(t, phase_of_execution(dataflow, t, execution_index));
 		  returnStream << add_block (
 				  dataflow->getVertexName(t) + std::to_string(execution_index++),
 				  xscale * (start),
@@ -88,12 +93,9 @@ std::string printers::PeriodicScheduling2DOT    (models::Dataflow* const  datafl
       }
 
 
-      EXEC_COUNT first_start_index = dataflow->getInitPhasesQuantity(t);
-
-      for (EXEC_COUNT iter = 0 ;  ((starts[first_start_index] + period * iter)) < last_execution_end_at ; iter++) {
-    	  for (EXEC_COUNT sidx = first_start_index; sidx < (EXEC_COUNT) starts.size() ; sidx++) {
-    		  auto current_phase = 1 +  sidx % dataflow->getPhasesQuantity(t);
-    		  auto duration = dataflow->getVertexDuration(t,current_phase);
+      for (EXEC_COUNT iter = 0 ;  starts.size() && ((starts[0] + period * iter)) < last_execution_end_at ; iter++) {
+    	  for (EXEC_COUNT sidx = 0; sidx < (EXEC_COUNT) starts.size() ; sidx++) {
+    		  auto duration = dataflow->getVertexDuration(t, phase_of_execution(dataflow, t, execution_index));
 
     		  bool fill = iter == 0 ? fill_first : fill_per;
         	  TIME_UNIT start = starts[sidx];
@@ -875,7 +877,6 @@ std::string printers::Scheduling2Tikz    (const models::Scheduling& scheduling)
 		  auto df = scheduling.getDataflow();
 		  auto t = df->getVertexById(taskId);
 		  std::string task_name = df->getVertexName(t);
-		  auto phi = df->getPhasesQuantity(t);
 		  returnStream << "% Task " << taskId << std::endl;
 
 		  auto istarts = item.second.initial_starts;
@@ -885,7 +886,7 @@ std::string printers::Scheduling2Tikz    (const models::Scheduling& scheduling)
 
 		  for (auto cstart : istarts) {
 			  exec_index++;
-			  auto cphi = (exec_index - 1) % phi + 1;
+			  auto cphi = phase_of_execution(df, t, exec_index - 1);
 			  auto cdur = df->getVertexDuration(t, cphi);
 			  returnStream << "% Init Start " << cstart << std::endl;
 			  returnStream << "\\addexecution[" << init_execution_format  << "]{" <<  task_index << "}{$" << task_name << "_{" << cphi << "}$}{" << cdur << "}{" << cstart << "}" << std::endl;
@@ -894,7 +895,7 @@ std::string printers::Scheduling2Tikz    (const models::Scheduling& scheduling)
 		  auto period = pstarts.first;
 		  for (auto cstart : pstarts.second) {
 			  exec_index++;
-			  auto cphi = (exec_index - 1) % phi + 1;
+			  auto cphi = phase_of_execution(df, t, exec_index - 1);
 			  auto cdur = df->getVertexDuration(t, cphi);
 			  returnStream << "% Periodic Start " << cstart  << " with period " << period << std::endl;
 			  returnStream << "\\addperiodictask[" << periodic_sexecution_format  << "]{" <<  task_index << "}{$" << task_name << "_{" << cphi << "}$}{" << cdur << "}{" << cstart << "}{" << period << "}{" << 0 << "}" << std::endl;
-- 
2.43.0


From 6f7f164b19e6857def43ecc4058caef09197986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:20 +0000
Subject: [PATCH 42/49] fix: the scale of a schedule drawing no longer is that
 of the first drawing

---
 src/libkiter/printers/stdout.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/printers/stdout.cpp b/src/libkiter/printers/stdout.cpp
index 096f122..98c5b2e 100644
--- a/src/libkiter/printers/stdout.cpp
+++ b/src/libkiter/printers/stdout.cpp
@@ -32,9 +32,9 @@ std::string printers::PeriodicScheduling2DOT    (models::Dataflow* const  datafl
   std::ostringstream returnStream;
   scheduling_t scheduling = sched.getTaskSchedule();
   static double label_node_width  =   0.5;
-  static double label_node_height = yscale *  0.10;
+  double label_node_height = yscale *  0.10;
 
-  static double node_height = yscale * 0.05;
+  double node_height = yscale * 0.05;
   static double pixel_start =  (-(72/2) - 1);
   static double line_width =  0.1;
   static double fontsize = 4;
-- 
2.43.0


From 8453e473d5f73db7568f9c5103bcd55bd3ff824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:03 +0000
Subject: [PATCH 43/49] fix: the bufferless NoC flows stopped the program when
 a merged task had initial phases

---
 .../algorithms/scheduling/BufferlessNoCScheduling.cpp      | 3 ++-
 src/libkiter/algorithms/software_noc.cpp                   | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/scheduling/BufferlessNoCScheduling.cpp b/src/libkiter/algorithms/scheduling/BufferlessNoCScheduling.cpp
index 718477b..4debacf 100644
--- a/src/libkiter/algorithms/scheduling/BufferlessNoCScheduling.cpp
+++ b/src/libkiter/algorithms/scheduling/BufferlessNoCScheduling.cpp
@@ -239,14 +239,15 @@ void algorithms::BufferlessNoCScheduling(models::Dataflow* const  _dataflow, par
 		ARRAY_INDEX tid = task_schedule.first;
 		Vertex v = to->getVertexById(task_schedule.first);
 		std::string  tname = to->getVertexName(v);
-		VERBOSE_ASSERT(task_schedule.second.initial_starts.size() == 0, "Does not support init starts in schedule");
 		TIME_UNIT period = task_schedule.second.periodic_starts.first;
+		std::vector<TIME_UNIT> &initial_starts =  task_schedule.second.initial_starts;
 		std::vector<TIME_UNIT> &starts =  task_schedule.second.periodic_starts.second;
 
 		VERBOSE_INFO("Task " << std::setw(4) << tid << " | "
 				             << std::setw(15) << tname << " | "
 							 << std::setprecision(2) << std::setw(7)  << commons::toString(to->getVertexPhaseDuration(v)) << " | "
 							 << std::setprecision(2) << std::setw(4)  << period<< " | "
+							 << std::setw(7) << commons::toString(initial_starts) << " | "
 							 << std::setw(7) << commons::toString(starts) );
 	}
 
diff --git a/src/libkiter/algorithms/software_noc.cpp b/src/libkiter/algorithms/software_noc.cpp
index 8bcd31c..fb056a7 100644
--- a/src/libkiter/algorithms/software_noc.cpp
+++ b/src/libkiter/algorithms/software_noc.cpp
@@ -2376,13 +2376,18 @@ void algorithms::software_noc_bufferless(models::Dataflow* const  dataflow, para
 		ARRAY_INDEX tid = item.first;
 		Vertex v = to->getVertexById(item.first);
 		std::string  tname = to->getVertexName(v);
-		VERBOSE_ASSERT(item.second.initial_starts.size() == 0, "Does not support init starts");
 		TIME_UNIT period = item.second.periodic_starts.first;
+		std::vector<TIME_UNIT> &initial_starts = item.second.initial_starts;
 		std::vector<TIME_UNIT> &starts = item.second.periodic_starts.second;
 		std::string line = "";
 
 		for (TIME_UNIT time = 0 ; time < 50 ; time ++) {
 			bool execute = false;
+			for (ARRAY_INDEX sidx = 0 ; sidx < initial_starts.size() ; sidx++) {
+				TIME_UNIT s = initial_starts[sidx];
+				TIME_UNIT duration = to->getVertexDuration(v, (EXEC_COUNT) sidx - (EXEC_COUNT) to->getInitPhasesQuantity(v) + 1);
+				execute = execute or ((s <= time) and (time < s + duration));
+			}
 			for (ARRAY_INDEX sidx = 0 ; sidx < starts.size() ; sidx++) {
 				TIME_UNIT s = starts[sidx];
 				TIME_UNIT duration = to->getVertexDuration(v, 1 + (sidx % to->getPhasesQuantity(v))); // TODO : unsupported init phases
-- 
2.43.0


From 3015dd7f4a3f90f5a3bc9e613166e1b1e659cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:03 +0000
Subject: [PATCH 44/49] fix: merging tasks without duration respects the order
 their tokens impose (the merged graph could deadlock)

---
 .../algorithms/transformation/merging.cpp     | 118 +++++++++++++-----
 1 file changed, 85 insertions(+), 33 deletions(-)

diff --git a/src/libkiter/algorithms/transformation/merging.cpp b/src/libkiter/algorithms/transformation/merging.cpp
index 8dd7117..1d69166 100644
--- a/src/libkiter/algorithms/transformation/merging.cpp
+++ b/src/libkiter/algorithms/transformation/merging.cpp
@@ -177,7 +177,7 @@ struct vertex_infos {
 	std::vector<TIME_UNIT> starts;
 	EXEC_COUNT ni;
 
-	vertex_infos (models::Dataflow* to, periodic_task_schedule_t sched, Vertex v) :
+	vertex_infos (models::Dataflow* to, task_schedule_t sched, Vertex v) :
 		id (to->getVertexId(v)) ,
 		init_phases (to->getInitPhasesQuantity(v)) ,
 		periodic_phases (to->getPhasesQuantity(v)) {
@@ -185,8 +185,9 @@ struct vertex_infos {
 
 		const std::vector<TIME_UNIT>& original_periodic = to->getVertexPhaseDuration(v);
 		durations.insert( durations.end(), original_periodic.begin(), original_periodic.end() );
-		period = sched.first;
-		starts = sched.second;
+		period = sched.periodic_starts.first;
+		starts = sched.initial_starts;
+		starts.insert( starts.end(), sched.periodic_starts.second.begin(), sched.periodic_starts.second.end() );
 		ni = to->getNi(v);
 	}
 };
@@ -252,7 +253,17 @@ std::vector<TOKEN_UNIT> produce_sequence (const std::vector<TOKEN_UNIT>& init, c
 	return res;
 }
 
-TIME_UNIT get_next_execution_time (vertex_infos infos, EXEC_COUNT index) {
+/**
+ * rate of an execution
+ * @param init      init pattern
+ * @param periodic  periodic pattern
+ * @param index     index of the execution, the first one is 0
+ */
+static TOKEN_UNIT get_rate (const std::vector<TOKEN_UNIT>& init, const std::vector<TOKEN_UNIT>& periodic, size_t index) {
+	return (index < init.size()) ? init[index] : periodic[(index - init.size()) % periodic.size()];
+}
+
+TIME_UNIT get_next_execution_time (const vertex_infos& infos, EXEC_COUNT index) {
 	VERBOSE_DEBUG("get_next_execution_time: Scheduling of task " << infos.id);
 	VERBOSE_DEBUG("get_next_execution_time: period: " << commons::toString(infos.period));
 	VERBOSE_DEBUG("get_next_execution_time: Init starts: " << commons::toString(std::vector<TIME_UNIT>(infos.starts.begin(), infos.starts.begin() + infos.init_phases)));
@@ -333,10 +344,23 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 			output_edges[vid].push_back(ne);
 		}
 
-		original_tasks.insert({vid,vertex_infos(to,persched[vid].periodic_starts,v)});
+		original_tasks.insert({vid,vertex_infos(to,persched[vid],v)});
 	}
 
 
+	std::map<ARRAY_INDEX, vertex_infos> every_task;
+	std::map<ARRAY_INDEX, std::vector<std::pair<edge_infos,bool>>> every_edge; // channels of each task, true when it reads them
+	std::map<ARRAY_INDEX, TOKEN_UNIT> tokens;
+	{ForEachVertex(to,v) {
+		every_task.insert({to->getVertexId(v), vertex_infos(to, persched[to->getVertexId(v)], v)});
+	}}
+	{ForEachEdge(to,e) {
+		edge_infos ne(to, e);
+		every_edge[ne.dst_id].push_back({ne, true});
+		every_edge[ne.src_id].push_back({ne, false});
+		tokens[ne.id] = ne.preload;
+	}}
+
 	VERBOSE_DEBUG("Check what is stored");
 	VERBOSE_DEBUG("gcd_value = " << gcd_value);
 	for (auto it : original_tasks) {
@@ -369,44 +393,72 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 
 	std::map<ARRAY_INDEX,EXEC_COUNT> execution_count;
 	std::map<ARRAY_INDEX,EXEC_COUNT> execution_threshold;
-	ARRAY_INDEX init_phase_count = 0;
-	for (auto it : original_tasks) {
-		EXEC_COUNT init_executions = 0;
-		while (get_next_execution_time (it.second, init_executions) < steady_time) {
+	std::map<ARRAY_INDEX,TIME_UNIT>  next_start;
+	for (auto& it : every_task) {
+		EXEC_COUNT init_executions = it.second.init_phases;
+		while (original_tasks.count(it.first) and get_next_execution_time (it.second, init_executions) < steady_time) {
 			init_executions ++;
 		}
 		execution_count[it.first]     = 0;
-		execution_threshold[it.first] = init_executions + it.second.ni;
-		init_phase_count += init_executions;
+		execution_threshold[it.first] = init_executions;
+		next_start[it.first]          = get_next_execution_time (it.second, 0);
 	}
 
-
 	std::vector < task_execution_t > execution_sequence;
+	ARRAY_INDEX init_phase_count = 0;
 
-	while(true) {
-
-		// Pick the next candidate
-		ARRAY_INDEX next_id   = -1;
-		TIME_UNIT   next_time = std::numeric_limits<TIME_UNIT>::infinity() ;
-		for (auto it : original_tasks) {
-			ARRAY_INDEX vid = it.first;
-			vertex_infos infos = it.second;
-			if (execution_count[vid] >= execution_threshold[vid]) continue;
-			TIME_UNIT task_execution_time = get_next_execution_time (infos, execution_count[vid] );
-			VERBOSE_DEBUG("  - Scheduling of task " << vid << " execution count = " << execution_count[vid] << " next execution is " << task_execution_time);
-			if (task_execution_time <= next_time) {
-					next_time = task_execution_time;
-					next_id = vid;
-					VERBOSE_DEBUG("  - New next task!");
-			}
+	// The executions of the whole graph are replayed in the order of the schedule. Several may start at the same time
+	// while some of them wait for the others (tasks without duration): an execution needs its tokens.
+	auto can_execute = [&] (ARRAY_INDEX vid) {
+		for (auto& channel : every_edge[vid]) {
+			if (channel.second and tokens[channel.first.id] < get_rate(channel.first.out_ini_vector, channel.first.out_per_vector, execution_count[vid])) return false;
 		}
+		return true;
+	};
+
+	for (bool init_part : {true, false}) {
+
+		while (true) {
+
+			bool done = true;
+			for (auto& it : execution_threshold) {
+				done = done and (execution_count[it.first] >= it.second);
+			}
+			if (done) break;
+
+			// Pick the next candidate
+			ARRAY_INDEX next_id   = -1;
+			TIME_UNIT   next_time = std::numeric_limits<TIME_UNIT>::infinity() ;
+			for (auto& it : every_task) {
+				ARRAY_INDEX vid = it.first;
+				if (not init_part and execution_count[vid] >= execution_threshold[vid]) continue;
+				if (next_start[vid] <= next_time and can_execute(vid)) {
+						next_time = next_start[vid];
+						next_id = vid;
+				}
+			}
+			VERBOSE_ASSERT(next_id != -1, "The graph deadlocks, it has no schedule to merge from.");
 
-		// Every task is done
-		if (next_time == std::numeric_limits<TIME_UNIT>::infinity()) break;
+			// Execute candidate
+			for (auto& channel : every_edge[next_id]) {
+				edge_infos& infos = channel.first;
+				if (channel.second) tokens[infos.id] -= get_rate(infos.out_ini_vector, infos.out_per_vector, execution_count[next_id]);
+				else                tokens[infos.id] += get_rate(infos.in_ini_vector, infos.in_per_vector, execution_count[next_id]);
+			}
+			if (original_tasks.count(next_id)) {
+				execution_sequence.push_back(  task_execution_t(next_id, execution_count[next_id], next_time) );
+			}
+			execution_count[next_id] ++ ;
+			next_start[next_id] = get_next_execution_time (every_task.at(next_id), execution_count[next_id]);
+		}
 
-		// Execute candidate
-		execution_sequence.push_back(  task_execution_t(next_id, execution_count[next_id], next_time) );
-		execution_count[next_id] ++ ;
+		// The window starts here, it brings every channel back to its number of tokens
+		if (init_part) {
+			init_phase_count = execution_sequence.size();
+			for (auto& it : every_task) {
+				execution_threshold[it.first] = execution_count[it.first] + it.second.ni;
+			}
+		}
 	}
 
 	VERBOSE_DEBUG("End of scheduling with " << commons::toString(execution_sequence));
-- 
2.43.0


From 238142bef7ed5b51f0ad7a18a88fb4a5d2a89107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:18 +0000
Subject: [PATCH 45/49] fix: a value that joins two known groups of a group
 list was lost

---
 src/libkiter/commons/GroupList.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libkiter/commons/GroupList.h b/src/libkiter/commons/GroupList.h
index 7d36335..0b4a89a 100644
--- a/src/libkiter/commons/GroupList.h
+++ b/src/libkiter/commons/GroupList.h
@@ -75,9 +75,8 @@ public:
 
 			VERBOSE_ASSERT(_values[l] == _values[r], "MERGE FAILED");
 
-		} else {
-			_values[l]->insert(v);
 		}
+		_values[l]->insert(v);
 	};
 
 	std::vector<std::set<R>> getall () {
-- 
2.43.0


From 33f60dd420bcbb1282716ac1d0f282ecfbb5ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:58 +0000
Subject: [PATCH 46/49] fix: two routes of a mapped network were drawn in the
 same colour

---
 src/libkiter/printers/stdout.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/printers/stdout.cpp b/src/libkiter/printers/stdout.cpp
index 98c5b2e..5681839 100644
--- a/src/libkiter/printers/stdout.cpp
+++ b/src/libkiter/printers/stdout.cpp
@@ -348,7 +348,7 @@ std::string printers::GenerateNoCDOT    (models::Dataflow* const  dataflow , boo
 
   // ******* Print link_usage
   std::map<Edge,std::string> edge_color;
-  std::vector<std::string> available_colors = {"#ACFF54","#41E869","#53FFEE","#4191E8","#4191E8","#634BFA",
+  std::vector<std::string> available_colors = {"#ACFF54","#41E869","#53FFEE","#4191E8","#B0703C","#634BFA",
 		                                       "#DB42FF","#E83154","#FF7843","#E8A131","#FADC39", "#8736FF"
 };
   std::string task_color = "#ff8065";
-- 
2.43.0


From 22b21b22d59a1482d80bb61d395feab2a87423bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:08 +0000
Subject: [PATCH 47/49] fix: a task without channels and place was drawn at a
 place that is no number

---
 src/libkiter/printers/stdout.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/printers/stdout.cpp b/src/libkiter/printers/stdout.cpp
index 5681839..3ebbbfc 100644
--- a/src/libkiter/printers/stdout.cpp
+++ b/src/libkiter/printers/stdout.cpp
@@ -421,8 +421,10 @@ std::string printers::GenerateNoCDOT    (models::Dataflow* const  dataflow , boo
 
 		  }}
 
-		  x /= dataflow->getVertexDegree(v);
-		  y /= dataflow->getVertexDegree(v);
+		  if (dataflow->getVertexDegree(v) > 0) {
+			  x /= dataflow->getVertexDegree(v);
+			  y /= dataflow->getVertexDegree(v);
+		  }
 		  taskSprites.push_back(TaskSprite(task_id,x,y,true));
 
 		  //returnStream <<  "task_" << task_id << "[label=\"Task\\n" << task_id << "\", style=\"filled\", color=\"red\", fontsize=\"2\", shape=\"circle\", pos=\"" << x << "," << y << "!\", fixedsize=\"shape\", width=0.1, height=0.1];" << std::endl;
-- 
2.43.0


From 4f707d83e61dc81b87f89dd4f253ce2d1180ef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:10 +0000
Subject: [PATCH 48/49] fix: the validator let executions that take no time
 produce before they consume

---
 src/libkiter/models/Scheduling.cpp | 76 ++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 19 deletions(-)

diff --git a/src/libkiter/models/Scheduling.cpp b/src/libkiter/models/Scheduling.cpp
index 2201ea7..e5e12ef 100644
--- a/src/libkiter/models/Scheduling.cpp
+++ b/src/libkiter/models/Scheduling.cpp
@@ -8,6 +8,7 @@
 #include "Scheduling.h"
 #include <models/Dataflow.h>
 #include <algorithm>
+#include <set>
 #include <tuple>
 
 void models::Scheduling::verbose_print() const {
@@ -213,8 +214,8 @@ std::string models::Scheduling::asASCII (int line_size) const{
 }
 
 
-// One end (false) or start (true) of an execution of a task : time, start, task id, execution index (from 0)
-typedef std::tuple<TIME_UNIT, bool, ARRAY_INDEX, EXEC_COUNT> schedule_event_t;
+// An execution of a task : start or end time, task id, execution index (from 0)
+typedef std::tuple<TIME_UNIT, ARRAY_INDEX, EXEC_COUNT> schedule_event_t;
 
 bool models::Scheduling::is_valid_schedule () const{
 
@@ -267,8 +268,7 @@ bool models::Scheduling::is_valid_schedule () const{
 				return false;
 			}
 			previous_end = start + g->getVertexDuration(t, phase_of(t, k)) - tolerance;
-			events.push_back(schedule_event_t(start, true, id, k));
-			events.push_back(schedule_event_t(previous_end, false, id, k));
+			events.push_back(schedule_event_t(start, id, k));
 		}
 	}}
 
@@ -281,22 +281,60 @@ bool models::Scheduling::is_valid_schedule () const{
 		buffer_load[g->getEdgeId(c)] = g->getPreload(c);
 	}}
 
-	for (const schedule_event_t& event : events) {
-		Vertex t = g->getVertexById(std::get<2>(event));
-		const PHASE_INDEX phase = phase_of(t, std::get<3>(event));
-		if (std::get<1>(event)) {
-			{ForInputEdges(g,t,c) {
-				buffer_load[g->getEdgeId(c)] -= g->getEdgeOutPhase(c, phase);
-				// Invalid Schedule Conditon - negative buffer load
-				if (buffer_load[g->getEdgeId(c)] < 0) {
-					VERBOSE_INFO("Invalid schedule: task " << std::get<2>(event) << " starts at t=" << std::get<0>(event) << " without its inputs");
-					return false;
+	auto produce = [&] (const schedule_event_t& event) {
+		Vertex t = g->getVertexById(std::get<1>(event));
+		{ForOutputEdges(g,t,c) {
+			buffer_load[g->getEdgeId(c)] += g->getEdgeInPhase(c, phase_of(t, std::get<2>(event)));
+		}}
+	};
+
+	auto has_inputs = [&] (const schedule_event_t& event) {
+		Vertex t = g->getVertexById(std::get<1>(event));
+		{ForInputEdges(g,t,c) {
+			if (buffer_load[g->getEdgeId(c)] < g->getEdgeOutPhase(c, phase_of(t, std::get<2>(event)))) return false;
+		}}
+		return true;
+	};
+
+	std::set<schedule_event_t> running; // by end time
+
+	for (size_t next = 0 ; next < events.size() ; ) {
+
+		// These executions start together
+		std::vector<schedule_event_t> starting;
+		const TIME_UNIT now = std::get<0>(events[next]) + tolerance;
+		while (next < events.size() && std::get<0>(events[next]) <= now) starting.push_back(events[next++]);
+
+		while (!running.empty() && std::get<0>(*running.begin()) <= now) {
+			produce(*running.begin());
+			running.erase(running.begin());
+		}
+
+		// An execution that takes no time may feed another one that starts at the same time
+		while (!starting.empty()) {
+			std::vector<schedule_event_t> waiting;
+			std::set<ARRAY_INDEX> blocked; // executions of a task start in order
+			for (const schedule_event_t& event : starting) {
+				Vertex t = g->getVertexById(std::get<1>(event));
+				if (blocked.count(std::get<1>(event)) || !has_inputs(event)) {
+					blocked.insert(std::get<1>(event));
+					waiting.push_back(event);
+					continue;
 				}
-			}}
-		} else {
-			{ForOutputEdges(g,t,c) {
-				buffer_load[g->getEdgeId(c)] += g->getEdgeInPhase(c, phase);
-			}}
+				const PHASE_INDEX phase = phase_of(t, std::get<2>(event));
+				{ForInputEdges(g,t,c) {
+					buffer_load[g->getEdgeId(c)] -= g->getEdgeOutPhase(c, phase);
+				}}
+				const TIME_UNIT duration = g->getVertexDuration(t, phase);
+				if (duration > 0) running.insert(schedule_event_t(std::get<0>(event) + duration, std::get<1>(event), std::get<2>(event)));
+				else produce(event);
+			}
+			// Invalid Schedule Conditon - no execution finds its inputs
+			if (waiting.size() == starting.size()) {
+				VERBOSE_INFO("Invalid schedule: task " << std::get<1>(waiting[0]) << " starts at t=" << std::get<0>(waiting[0]) << " without its inputs");
+				return false;
+			}
+			starting = waiting;
 		}
 	}
 
-- 
2.43.0


From 8472409dd8194d9d6589bf3a5f669ffd325dbfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:10 +0000
Subject: [PATCH 49/49] fix: the cycle ratio of a graph with circuits that take
 no time was wrong

---
 src/libkiter/commons/howard_cycle_ratio.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/commons/howard_cycle_ratio.hpp b/src/libkiter/commons/howard_cycle_ratio.hpp
index 2ba01ca..4bdba1c 100644
--- a/src/libkiter/commons/howard_cycle_ratio.hpp
+++ b/src/libkiter/commons/howard_cycle_ratio.hpp
@@ -351,6 +351,10 @@ namespace boost {
             v = target(m_policy[v], m_g);
           }
         while (v != sv);
+        // a circuit that takes no time constrains nothing, unless no ratio can satisfy it
+        if (sums_.second == float_t(0) && !m_cmp(float_t(0), sums_.first)) {
+        	return m_bound;
+        }
         float_t cr = sums_.first / sums_.second;
 
     	VERBOSE_HOWARD("  Compare m_cr and cr " << m_cr << "->" << cr);
@@ -469,7 +473,7 @@ namespace boost {
                     vertex_t t = target(*oei, m_g);
                     //Current distance from *vi to some vertex
                     float_t dis_ = m_ew1m[*oei] - m_ew2m[*oei] * cr + m_dm[t];
-                    if ( m_cmp(m_dm[*vi] - eps_* EPSILON_IMPROVE_RATIO , dis_) )
+                    if ( m_cmp(m_dm[*vi] - eps_* EPSILON_IMPROVE_RATIO * std::max(float_t(1), std::abs(m_dm[*vi])), dis_) )
                       {
                         improve_policy(*vi, *oei);
                         m_dm[*vi] = dis_;
-- 
2.43.0

