From bd0d59e15e4d3338f5126b57648157da647ac050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 01/24] fix: do not let reverse labels of equal time replace
 each other (endless journey reconstruction)

---
 connection_scan_algorithm/src/reverse_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 8a1d20c..f980f7b 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -135,7 +135,7 @@ namespace TrRouting
 
                 if (footpathTravelTime <= parameters.getMaxTransferWalkingTravelTimeSeconds())
                 {                  
-                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds >= nodesReverseTentativeTime.at(transferableNode.node.uid))
+                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds > nodesReverseTentativeTime.at(transferableNode.node.uid))
                   {
                     footpathDistance = nodeDeparture.reverseTransferableNodes.at(footpathIndex).distance;
                     nodesReverseTentativeTime[transferableNode.node.uid] = connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds;
@@ -332,7 +332,7 @@ namespace TrRouting
 
                 if (footpathTravelTime <= parameters.getMaxTransferWalkingTravelTimeSeconds())
                 {
-                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds >= nodesReverseTentativeTime.at(transferableNode.node.uid))
+                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds > nodesReverseTentativeTime.at(transferableNode.node.uid))
                   {
                     footpathDistance = nodeDeparture.reverseTransferableNodes.at(footpathIndex).distance;
                     nodesReverseTentativeTime[transferableNode.node.uid] = connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds;
-- 
2.43.0


From 5e2a1abb697641c749bd7684453f4406256d0522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:35 +0000
Subject: [PATCH 02/24] fix: keep the walk and the cut steps consistent when a
 journey is optimized

---
 .../src/optimize_journey.cpp                  | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/connection_scan_algorithm/src/optimize_journey.cpp b/connection_scan_algorithm/src/optimize_journey.cpp
index ff60bc9..69f5314 100644
--- a/connection_scan_algorithm/src/optimize_journey.cpp
+++ b/connection_scan_algorithm/src/optimize_journey.cpp
@@ -209,14 +209,9 @@ namespace TrRouting
             else
             {
               usedOptimizationCases.push_back(1);
-              if (toJourneyStepIdx - fromJourneyStepIdx == 1)
-              {
-                journey.erase(journey.begin() + toJourneyStepIdx);
-              }
-              else if (toJourneyStepIdx - fromJourneyStepIdx > 1) // could not split correctly...
-              {
-                journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
-              }
+              // the steps up to toJourneyStep included are cut, the walk after toJourneyStep now starts where we get off
+              journey[fromJourneyStepIdx].copyTransferTimeDistance(journey[toJourneyStepIdx]);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx + 1);
               journey[fromJourneyStepIdx].setFinalExitConnection(connection);
 
               break;
@@ -246,7 +241,9 @@ namespace TrRouting
             {
               usedOptimizationCases.push_back(2);
               journey[toJourneyStepIdx].setFinalEnterConnection(connection);
-              journey[toJourneyStepIdx].setTransferTimeDistance(0,0);
+              // the change is now at the same node: no walk after fromJourneyStep, no step in between
+              journey[fromJourneyStepIdx].setTransferTimeDistance(0,0);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
               break;
             }
           }
@@ -275,7 +272,9 @@ namespace TrRouting
             {
               usedOptimizationCases.push_back(3);
               journey[fromJourneyStepIdx].setFinalExitConnection(connection);
-              journey[toJourneyStepIdx].setTransferTimeDistance(0,0);
+              // the change is now at the same node: no walk after fromJourneyStep, no step in between
+              journey[fromJourneyStepIdx].setTransferTimeDistance(0,0);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
               break;
             }
           }
@@ -321,6 +320,10 @@ namespace TrRouting
                 usedOptimizationCases.push_back(4);
                 journey[fromJourneyStepIdx].setFinalExitConnection(exitConnection.value());
                 journey[toJourneyStepIdx].setFinalEnterConnection(connection);
+                // the change is now at the same node: no walk after fromJourneyStep, no step in between
+                journey[fromJourneyStepIdx].setTransferTimeDistance(0,0);
+                journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
+                break;
               }
               else
               {
-- 
2.43.0


From 8e93e5c93e6258f12186bd382df00c378251f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 03/24] fix: start the total of transfer walking distances at 0

---
 connection_scan_algorithm/src/forward_journey.cpp | 2 +-
 connection_scan_algorithm/src/reverse_journey.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_journey.cpp b/connection_scan_algorithm/src/forward_journey.cpp
index 14fe112..89d644b 100644
--- a/connection_scan_algorithm/src/forward_journey.cpp
+++ b/connection_scan_algorithm/src/forward_journey.cpp
@@ -38,7 +38,7 @@ namespace TrRouting
       int totalTransferWaitingTime { 0}; int inVehicleTime          {-1};
       int totalDistance            { 0}; int distance               {-1};
       int inVehicleDistance        {-1}; int totalInVehicleDistance { 0}; int totalWalkingDistance   { 0};
-      int totalTransferDistance    {-1}; int accessDistance         { 0}; int egressDistance         { 0};
+      int totalTransferDistance    { 0}; int accessDistance         { 0}; int egressDistance         { 0};
       int accessWalkingTime      {-1};
       int transferTime             {-1}; int egressWalkingTime      {-1};
       int waitingTime              {-1}; int accessWaitingTime      {-1};
diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 218a32f..7355ee7 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -31,7 +31,7 @@ namespace TrRouting
     int totalTransferWaitingTime { 0}; int inVehicleTime          {-1};
     int totalDistance            { 0}; int distance               {-1};
     int inVehicleDistance        {-1}; int totalInVehicleDistance { 0}; int totalWalkingDistance { 0};
-    int totalTransferDistance    {-1}; int accessDistance         { 0}; int egressDistance       { 0};
+    int totalTransferDistance    { 0}; int accessDistance         { 0}; int egressDistance       { 0};
     int accessWalkingTime      {-1};
     int transferTime             {-1}; int egressWalkingTime      {-1};
     int waitingTime              {-1}; int accessWaitingTime      {-1};
-- 
2.43.0


From beac6bc0847542e5e744563ab6c75993f566d766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 04/24] fix: keep the boarding with the latest departure at
 each access stop

---
 connection_scan_algorithm/src/reverse_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index f980f7b..5f38282 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -149,7 +149,7 @@ namespace TrRouting
                      //TODO Really not sure this is equivalent
                      reverseAccessJourneysSteps.count(transferableNode.node.uid) == 0
                      || 
-                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() <= connectionDepartureTime - connectionMinWaitingTimeSeconds
+                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds()) < connectionDepartureTime - connectionMinWaitingTimeSeconds
                     )
                   )
                   {                    
@@ -346,7 +346,7 @@ namespace TrRouting
                      //TODO Really not sure this is equivalent
                      reverseAccessJourneysSteps.count(transferableNode.node.uid) == 0
                      ||
-                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() <= connectionDepartureTime - connectionMinWaitingTimeSeconds
+                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds()) < connectionDepartureTime - connectionMinWaitingTimeSeconds
                     )
                   )
                   {
-- 
2.43.0


From 8e6941d4cba71097c214e9edc5dbf90fe7810e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 05/24] fix: subtract the effective minimum waiting time in the
 arrival-time accessibility

---
 connection_scan_algorithm/src/reverse_journey.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 7355ee7..86bb2d9 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -322,9 +322,8 @@ namespace TrRouting
       }
 
       if (reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().has_value()) {
-        //TODO Should check taht MinWaiting is not -1 or use OrDefault(0)
         //TODO Could move this operation into a function of class Connection
-        int departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTime();
+        int departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
         if (arrivalTimeSeconds - departureTimeD <=  parameters.getMaxTotalTravelTimeSeconds()) {
           reachableNodesCount++;
 
-- 
2.43.0


From 64806967a0b9367ddc4e97425898bed82e2c6bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:49 +0000
Subject: [PATCH 06/24] fix: apply max_first_waiting_time to the boarding also
 when it is below the minimum waiting time

---
 connection_scan_algorithm/src/reverse_calculation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 5f38282..4e8498b 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -163,7 +163,7 @@ namespace TrRouting
                       if (
                         departureTimeSeconds == -1
                         ||
-                        parameters.getMaxFirstWaitingTimeSeconds() < connectionMinWaitingTimeSeconds
+                        parameters.getMaxFirstWaitingTimeSeconds() <= 0 // no maximum
                         ||
                         connectionDepartureTime - departureTimeSeconds - nodeDepartureInNodesAccessIte->second.time <= parameters.getMaxFirstWaitingTimeSeconds()
                       )
-- 
2.43.0


From 11b83e344430e6ed0fd212e086a7403131f50047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:50 +0000
Subject: [PATCH 07/24] fix: report no service when no permitted boarding
 (alighting) is reachable

---
 .../src/forward_calculation.cpp                      | 12 ++++++++++--
 .../src/reverse_calculation.cpp                      | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_calculation.cpp b/connection_scan_algorithm/src/forward_calculation.cpp
index 2251bc8..e9349b4 100644
--- a/connection_scan_algorithm/src/forward_calculation.cpp
+++ b/connection_scan_algorithm/src/forward_calculation.cpp
@@ -155,7 +155,11 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            // does not count if boarding is not permitted here and the trip was not boarded before
+            if (currentTripQueryOverlay.enterConnection.has_value())
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
@@ -331,7 +335,11 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            // does not count if boarding is not permitted here and the trip was not boarded before
+            if (currentTripQueryOverlay.enterConnection.has_value())
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 4e8498b..854bbbe 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -176,7 +176,11 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            // does not count if alighting is not permitted here and the trip is not left later
+            if (currentTripQueryOverlay.exitConnection.has_value())
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
@@ -373,7 +377,11 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            // does not count if alighting is not permitted here and the trip is not left later
+            if (currentTripQueryOverlay.exitConnection.has_value())
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
-- 
2.43.0


From 9fc9b09089dbe871071eea43936affa14a6e3feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:27 +0000
Subject: [PATCH 08/24] fix: forget the cached connection sets when schedules
 or scenarios are refreshed

---
 include/connection_cache.hpp |  4 ++++
 src/connection_cache.cpp     | 11 +++++++++++
 src/transit_data.cpp         | 16 ++++++++++------
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/connection_cache.hpp b/include/connection_cache.hpp
index 5ed4e2d..bc18bc0 100644
--- a/include/connection_cache.hpp
+++ b/include/connection_cache.hpp
@@ -28,6 +28,8 @@ class ScenarioConnectionCache {
     
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const = 0;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache) = 0;
+    // Forget all connection sets, for when the data they refer to changes
+    virtual void clear() = 0;
 };
 
 /**
@@ -45,6 +47,7 @@ class ScenarioConnectionCacheOne : public ScenarioConnectionCache {
 
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache);
+    virtual void clear();
 
   private:
   mutable std::shared_mutex mutex; //Reader/Writer locking
@@ -68,6 +71,7 @@ class ScenarioConnectionCacheAll : public ScenarioConnectionCache {
 
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache);
+    virtual void clear();
 
   private:
     mutable std::shared_mutex mutex; //Reader/Writer locking
diff --git a/src/connection_cache.cpp b/src/connection_cache.cpp
index 87c9959..02f0882 100644
--- a/src/connection_cache.cpp
+++ b/src/connection_cache.cpp
@@ -22,6 +22,12 @@ namespace TrRouting {
     lastConnection = cache;
   }
 
+  void ScenarioConnectionCacheOne::clear() {
+    std::unique_lock lock(mutex); //Exclusive lock when writing
+    lastUuid.reset();
+    lastConnection.reset();
+  }
+
   // ScenarioConnectionCacheAll
   std::optional<std::shared_ptr<ConnectionSet>> ScenarioConnectionCacheAll::get(boost::uuids::uuid uuid) const {
     std::shared_lock lock(mutex); //Sharing lock when reading
@@ -39,4 +45,9 @@ namespace TrRouting {
     std::unique_lock lock(mutex); //Exclusive lock when writing
     connectionSets[uuid] = cache;
   }
+
+  void ScenarioConnectionCacheAll::clear() {
+    std::unique_lock lock(mutex); //Exclusive lock when writing
+    connectionSets.clear();
+  }
 }
diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index 587bc16..e9d5ffc 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -23,12 +23,6 @@ namespace TrRouting {
   TransitData::TransitData(DataFetcher& fetcher, bool cacheAllScenarios) :
     dataFetcher(fetcher)
   {
-    DataStatus loadStatus = loadAllData();
-    if (loadStatus != DataStatus::READY) {
-      //TODO For now, don't throw on error because Transit server expect to get the dataStatus
-      //throw std::exception("Incomplete transit data");
-      spdlog::error("TransitData loading had error, object will not be valid");
-    }
     if (cacheAllScenarios) {
       scenarioConnectionCache = new ScenarioConnectionCacheAll();
       spdlog::info("Will cache all connectionSets");
@@ -36,6 +30,12 @@ namespace TrRouting {
       scenarioConnectionCache = new ScenarioConnectionCacheOne();
       spdlog::info("Will cache one connectionSet");
     }
+    DataStatus loadStatus = loadAllData();
+    if (loadStatus != DataStatus::READY) {
+      //TODO For now, don't throw on error because Transit server expect to get the dataStatus
+      //throw std::exception("Incomplete transit data");
+      spdlog::error("TransitData loading had error, object will not be valid");
+    }
   }
 
   TransitData::~TransitData() {
@@ -127,11 +127,15 @@ namespace TrRouting {
 
   int TransitData::updateScenarios(std::string customPath)
   {
+    // The cached connection sets were filtered with the previous scenarios
+    scenarioConnectionCache->clear();
     return dataFetcher.getScenarios(scenarios, getServices(), getLines(), getAgencies(), getNodes(), getModes(), customPath);
   }
 
   int TransitData::updateSchedules(std::string customPath)
   {
+    // The cached connection sets refer to the trips and connections that are about to be replaced
+    scenarioConnectionCache->clear();
     int ret =  dataFetcher.getSchedules(
       trips,
       getLines(),
-- 
2.43.0


From 7e0034a7dd3229adb56ccdd5f1eb2a2dfdae0238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:33 +0000
Subject: [PATCH 09/24] fix: answer from the current state of the data, not
 from its state at start-up

---
 .../src/transit_routing_http_server.cpp           | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 67cc566..58bb61a 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -122,9 +122,6 @@ int main(int argc, char** argv) {
 
   spdlog::info("preparing calculator...");
   TransitData transitData(*fetcher, programOptions.cacheAllConnectionSets);
-  //TODO We wanted to handle error in the constructor, but later part of this code expect a dataStatus
-  // leaving as a todo
-  DataStatus dataStatus = transitData.getDataStatus();
 
   // Selection which geofilter to use. OSRM is the default one. Euclidean mostly used for debugging and testing
   GeoFilter *geoFilter = 0;
@@ -299,10 +296,10 @@ int main(int argc, char** argv) {
 
   // Routing request for a single origin destination
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
-  server.resource["^/v2/route[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/route[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static int routeRequestId = 0;
-    std::string response = getFastErrorResponse(dataStatus);
+    std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
       *serverResponse << "HTTP/1.1 200 OK\r\nAccess-Control-Allow-Origin: *\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: " << response.length() << "\r\n\r\n" << response;
@@ -369,11 +366,11 @@ int main(int argc, char** argv) {
 
   // Request a summary of lines data for a route
   // TODO Copy pasted from v2/route. There's a lot in common, it should be extracted to common class, just the response parser is different
-  server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static int summaryRequestId = 0;
 
-    std::string response = getFastErrorResponse(dataStatus);
+    std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
       *serverResponse << "HTTP/1.1 200 OK\r\nAccess-Control-Allow-Origin: *\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: " << response.length() << "\r\n\r\n" << response;
@@ -440,11 +437,11 @@ int main(int argc, char** argv) {
 
   // Routing request for a single origin destination
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
-  server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static int accessibilityRequestId = 0;
 
-    std::string response = getFastErrorResponse(dataStatus);
+    std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
       *serverResponse << "HTTP/1.1 200 OK\r\nAccess-Control-Allow-Origin: *\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: " << response.length() << "\r\n\r\n" << response;
-- 
2.43.0


From c1af77b86d55129d3ecefb348ea50845fce64679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:25 +0000
Subject: [PATCH 10/24] fix: keep loading the other kinds of data when one of
 them cannot be read

---
 src/transit_data.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index e9d5ffc..f8ec20d 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -265,6 +265,8 @@ namespace TrRouting {
   
   DataStatus TransitData::loadAllData() {
     int ret = 0;
+    // What cannot be read must not hide the other kinds of data: note the error and keep loading
+    bool readError = false;
 
     spdlog::debug("preparing nodes, routes, trips, connections and footpaths...");
     
@@ -274,13 +276,13 @@ namespace TrRouting {
     // Ignore missing nodes file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     ret = updateDataSources();
     // Ignore missing data sources file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     /* TODO #167
     ret = updateHouseholds();
@@ -292,12 +294,12 @@ namespace TrRouting {
     ret = updatePersons();
     if (ret < 0)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     ret = updateOdTrips();
     if (ret < 0)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     /* TODO #167
     ret = updatePlaces();
@@ -310,40 +312,40 @@ namespace TrRouting {
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     ret = updateServices();
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     ret = updateLines();
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     ret = updatePaths();
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     ret = updateScenarios();
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
     ret = updateSchedules();
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      readError = true;
     }
 
-    return getDataStatus();
+    return readError ? DataStatus::DATA_READ_ERROR : getDataStatus();
   }
   
   std::shared_ptr<ConnectionSet> TransitData::getConnectionsForScenario(const Scenario & scenario) const {
-- 
2.43.0


From 13b645607de34294a5407bc3422c8873a6c7a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:36 +0000
Subject: [PATCH 11/24] fix: skip unreadable node files instead of aborting

---
 src/nodes_cache_fetcher.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/nodes_cache_fetcher.cpp b/src/nodes_cache_fetcher.cpp
index a5cd220..c6387b7 100644
--- a/src/nodes_cache_fetcher.cpp
+++ b/src/nodes_cache_fetcher.cpp
@@ -40,6 +40,7 @@ namespace TrRouting
     std::string nodeCacheFileName{""};
     std::string nodeCacheFileNamePath{""};
     boost::uuids::string_generator uuidGenerator;
+    int ret = 0;
 
     spdlog::info("Fetching {} from cache... {}", tStr, customPath);
 
@@ -126,6 +127,10 @@ namespace TrRouting
 
         cNode::Reader capnpT = capnpTMessage.getRoot<cNode>();
         const unsigned int transferableNodesCount {capnpT.getTransferableNodesUuids().size()};
+        if (capnpT.getTransferableNodesTravelTimes().size() < transferableNodesCount || capnpT.getTransferableNodesDistances().size() < transferableNodesCount)
+        {
+          throw std::length_error("fewer travel times or distances than transferable nodes");
+        }
 
         std::vector<NodeTimeDistance> transferableNodes;
         std::vector<NodeTimeDistance> reverseTransferableNodes;
@@ -148,16 +153,19 @@ namespace TrRouting
           transferableNodes.push_back(NodeTimeDistance(ts.at(nodeUuid),
                                                        travelTime,
                                                        distance));
-
-          // Fill in reverse transfer information
-          ts.at(nodeUuid).reverseTransferableNodes.push_back(NodeTimeDistance(t,
-                                                                              travelTime,
-                                                                              distance));
         }
         // Save transferable nodes in object
         t.transferableNodes.clear();
         std::copy(transferableNodes.begin(), transferableNodes.end(), std::back_inserter(t.transferableNodes));
 
+        // Fill in reverse transfer information
+        for (const auto & transferable : transferableNodes)
+        {
+          ts.at(transferable.node.uuid).reverseTransferableNodes.push_back(NodeTimeDistance(t,
+                                                                                            transferable.time,
+                                                                                            transferable.distance));
+        }
+
         // put same node transfer at the beginning:
         t.reverseTransferableNodes.push_back(NodeTimeDistance(t, 0, 0));
 
@@ -165,8 +173,12 @@ namespace TrRouting
       catch (const kj::Exception& e)
       {
         spdlog::error("-- Error reading node cache file -- {}: {}", nodeCacheFileNamePath, e.getDescription().cStr());
-        close(fd);
-        return -EBADMSG;
+        ret = -EBADMSG;
+      }
+      catch (const std::exception& e)
+      {
+        spdlog::error("-- Error reading node cache file -- {}: {}", nodeCacheFileNamePath, e.what());
+        ret = -EINVAL;
       }
       close(fd);
     }
@@ -226,7 +238,7 @@ namespace TrRouting
 
       }
   
-      return 0;
+      return ret;
     }
     catch (const std::exception& ex)
     {
-- 
2.43.0


From 77f142f10a90576ff56e15cbd464d578e7f1a017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:36 +0000
Subject: [PATCH 12/24] fix: skip inconsistent trips and survive unknown or
 malformed identifiers in schedules

---
 src/trips_and_connections_cache_fetcher.cpp | 31 ++++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/trips_and_connections_cache_fetcher.cpp b/src/trips_and_connections_cache_fetcher.cpp
index b1dfb94..cf0fa69 100644
--- a/src/trips_and_connections_cache_fetcher.cpp
+++ b/src/trips_and_connections_cache_fetcher.cpp
@@ -77,7 +77,20 @@ namespace TrRouting
               pathUuid     = uuidGenerator(pathUuidStr);
               Path &path = paths.at(pathUuid);
               
-              trips.emplace(tripUuid, Trip(tripUuid,
+              auto arrivalTimesSeconds   = capnpTrip.getNodeArrivalTimesSeconds();
+              auto departureTimesSeconds = capnpTrip.getNodeDepartureTimesSeconds();
+              auto canBoards             = capnpTrip.getNodesCanBoard();
+              auto canUnboards           = capnpTrip.getNodesCanUnboard();
+              nodeTimesCount             = arrivalTimesSeconds.size();
+
+              // Every connection needs its times, permissions and stops of the path
+              if (nodeTimesCount == 0 || nodeTimesCount > path.nodesRef.size() || departureTimesSeconds.size() + 1 < nodeTimesCount || canBoards.size() + 1 < nodeTimesCount || canUnboards.size() < nodeTimesCount)
+              {
+                spdlog::error("-- Ignoring trip with inconsistent stop times -- {} in {}", tripUuidStr, cacheFilePath);
+                continue;
+              }
+
+              bool isNewTrip = trips.emplace(tripUuid, Trip(tripUuid,
                                            line.agency,
                                            line,
                                            path,
@@ -85,18 +98,18 @@ namespace TrRouting
                                            service,
                                            line.allowSameLineTransfers,
                                            capnpTrip.getTotalCapacity(),
-                                           capnpTrip.getSeatedCapacity()));
+                                           capnpTrip.getSeatedCapacity())).second;
+              if (!isNewTrip)
+              {
+                spdlog::error("-- Ignoring duplicate trip -- {} in {}", tripUuidStr, cacheFilePath);
+                continue;
+              }
               //Current trip
               Trip & trip = trips.at(tripUuid);
               
               // TODO This should probably be done in the Trip constructor (setting the back reference)
               path.tripsRef.push_back(trip);
 
-              nodeTimesCount             = capnpTrip.getNodeArrivalTimesSeconds().size();
-              auto arrivalTimesSeconds   = capnpTrip.getNodeArrivalTimesSeconds();
-              auto departureTimesSeconds = capnpTrip.getNodeDepartureTimesSeconds();
-              auto canBoards             = capnpTrip.getNodesCanBoard();
-              auto canUnboards           = capnpTrip.getNodesCanUnboard();
               trip.connectionDepartureTimes.resize(nodeTimesCount);
               // nodeTimesCount - 1, since we process node pairs, we have to stop and the second from last
               for (unsigned long nodeTimeI = 0; nodeTimeI < nodeTimesCount - 1; nodeTimeI++)
@@ -131,6 +144,10 @@ namespace TrRouting
         // TODO Do something about faulty cache files?
         spdlog::error("-- Error reading line cache file -- {}: {}", cacheFilePath, e.getDescription().cStr());
       }
+      catch (const std::exception& e)
+      {
+        spdlog::error("-- Error reading line cache file -- {}: {}", cacheFilePath, e.what());
+      }
 
       close(fd);
     }
-- 
2.43.0


From 06e763cc648a4ee052bd923642ce4cf18e4ca58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 13/24] fix: give the hour index of a connection set an entry
 for every hour up to the last one

The last hours had no entry when the trips ended early (reading past the end
of the index) or too many when a departure was later.
---
 src/connection_set.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/connection_set.cpp b/src/connection_set.cpp
index 13c04b5..596a711 100644
--- a/src/connection_set.cpp
+++ b/src/connection_set.cpp
@@ -40,7 +40,7 @@ namespace TrRouting {
          ite++) {
       // We can have a gap of multiple hours between 2 connections, so the current iterator
       // can be valid for multiple hour slots
-      while ((*ite).get().getDepartureTime() >= currentHour * 3600) {
+      while (currentHour <= CONNECTION_ITERATOR_CACHE_END_HOUR && (*ite).get().getDepartureTime() >= currentHour * 3600) {
         forwardConnectionsBeginIteratorCache.push_back(ite);
         currentHour++;
       }
@@ -49,7 +49,7 @@ namespace TrRouting {
     //Finish filling forward cache
     //We reached the end of the forwardConnections in the previous loop, so here we
     //fill the rest of the forward cache with end iterator
-    for (;currentHour < CONNECTION_ITERATOR_CACHE_END_HOUR; currentHour++) {
+    for (;currentHour <= CONNECTION_ITERATOR_CACHE_END_HOUR; currentHour++) {
       forwardConnectionsBeginIteratorCache.push_back(forwardConnections.cend());
     }
 
-- 
2.43.0


From 0a2f96f16d41b5c39ce3e326b5613ce7920ab294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 14/24] fix: do not wrap minimum waiting times longer than
 32767 seconds

The minimum waiting time went through 16-bit integers, so that a long one
became negative and journeys could board before they arrive.
---
 connection_scan_algorithm/src/forward_calculation.cpp     | 4 ++--
 .../src/parameters/common_parameters.cpp                  | 5 +++++
 connection_scan_algorithm/src/reverse_calculation.cpp     | 8 ++++----
 include/connection.hpp                                    | 2 +-
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_calculation.cpp b/connection_scan_algorithm/src/forward_calculation.cpp
index e9349b4..e22a642 100644
--- a/connection_scan_algorithm/src/forward_calculation.cpp
+++ b/connection_scan_algorithm/src/forward_calculation.cpp
@@ -18,7 +18,7 @@ namespace TrRouting
     int   nodeDepartureTentativeTime      {MAX_INT};
     int   connectionDepartureTime         {-1};
     int   connectionArrivalTime           {-1};
-    short connectionMinWaitingTimeSeconds {-1};
+    int   connectionMinWaitingTimeSeconds {-1};
     //long long   footpathsRangeStart       {-1};
     //long long   footpathsRangeEnd         {-1};
     int   footpathIndex                   {-1};
@@ -213,7 +213,7 @@ namespace TrRouting
     int   nodeDepartureTentativeTime      {MAX_INT};
     int   connectionDepartureTime         {-1};
     int   connectionArrivalTime           {-1};
-    short connectionMinWaitingTimeSeconds {-1};
+    int   connectionMinWaitingTimeSeconds {-1};
     //long long   footpathsRangeStart       {-1};
     //long long   footpathsRangeEnd         {-1};
     int   footpathIndex                   {-1};
diff --git a/connection_scan_algorithm/src/parameters/common_parameters.cpp b/connection_scan_algorithm/src/parameters/common_parameters.cpp
index 7723ea8..eb3f067 100644
--- a/connection_scan_algorithm/src/parameters/common_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/common_parameters.cpp
@@ -123,6 +123,11 @@ namespace TrRouting
         {
           minWaitingTimeSeconds = 0;
         }
+        // Longer than any schedule: keep sums with times of the day within the integer range
+        else if (minWaitingTimeSeconds > MAX_INT / 2)
+        {
+          minWaitingTimeSeconds = MAX_INT / 2;
+        }
         continue;
       }
       else if (parameterWithValue.first == "max_travel_time")
diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 854bbbe..1010087 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -19,8 +19,8 @@ namespace TrRouting
     std::optional<std::reference_wrapper<const Connection>> tripExitConnection;
     int  connectionDepartureTime          {-1};
     int  connectionArrivalTime            {-1};
-    short connectionMinWaitingTimeSeconds {-1};
-    short journeyConnectionMinWaitingTimeSeconds {-1};
+    int  connectionMinWaitingTimeSeconds {-1};
+    int  journeyConnectionMinWaitingTimeSeconds {-1};
     //long long  footpathsRangeStart        {-1};
     //long long  footpathsRangeEnd          {-1};
     int  footpathIndex                    {-1};
@@ -232,8 +232,8 @@ namespace TrRouting
     std::optional<std::reference_wrapper<const Connection>> tripExitConnection;
     int  connectionDepartureTime          {-1};
     int  connectionArrivalTime            {-1};
-    short connectionMinWaitingTimeSeconds {-1};
-    short journeyConnectionMinWaitingTimeSeconds {-1};
+    int  connectionMinWaitingTimeSeconds {-1};
+    int  journeyConnectionMinWaitingTimeSeconds {-1};
     //long long  footpathsRangeStart        {-1};
     //long long  footpathsRangeEnd          {-1};
     int  footpathIndex                    {-1};
diff --git a/include/connection.hpp b/include/connection.hpp
index 1c6adde..53fb85c 100644
--- a/include/connection.hpp
+++ b/include/connection.hpp
@@ -42,7 +42,7 @@ namespace TrRouting
     int getSequenceInTrip() const {return sequenceInTrip;}
     bool canTransferSameLine() const {return canTransferSameLineValue;}
     short getMinWaitingTime() const {return minWaitingTimeSeconds;}
-    short getMinWaitingTimeOrDefault(short defaultMinWaitingTime) const {
+    int getMinWaitingTimeOrDefault(int defaultMinWaitingTime) const {
       if (minWaitingTimeSeconds >= 0) {
         return minWaitingTimeSeconds;
       } else {
-- 
2.43.0


From 9fca8fd67c6cfbbbd342dd3b15b98d8a1bf04f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 15/24] fix: reject numbers and coordinates followed by other
 characters or not finite

---
 .../parameters/accessibility_parameters.cpp   |  2 +-
 .../src/parameters/common_parameters.cpp      | 26 ++++++++++++++++++-
 .../src/parameters/route_parameters.cpp       |  4 +--
 include/parameters.hpp                        | 10 +++++++
 4 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp b/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
index c1a9c30..9ddff47 100644
--- a/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
@@ -60,7 +60,7 @@ namespace TrRouting
           {
             throw ParameterException(ParameterException::Type::INVALID_PLACE);
           }
-          place = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
+          place = Point(CommonParameters::getCoordinateValue(latitudeLongitudeVector[1]), CommonParameters::getCoordinateValue(latitudeLongitudeVector[0]));
         }
         catch (...)
         {
diff --git a/connection_scan_algorithm/src/parameters/common_parameters.cpp b/connection_scan_algorithm/src/parameters/common_parameters.cpp
index eb3f067..9f3c5d9 100644
--- a/connection_scan_algorithm/src/parameters/common_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/common_parameters.cpp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <boost/uuid/string_generator.hpp>
 #include <boost/algorithm/string.hpp>
 
@@ -56,7 +57,13 @@ namespace TrRouting
   int CommonParameters::getIntegerValue(std::string strValue) {
     try
     {
-      return std::stoi(strValue);
+      size_t parsedLength = 0;
+      int value = std::stoi(strValue, &parsedLength);
+      if (parsedLength != strValue.size())
+      {
+        throw ParameterException(ParameterException::Type::INVALID_NUMERICAL_DATA);
+      }
+      return value;
     }
     catch (...)
     {
@@ -65,6 +72,23 @@ namespace TrRouting
     }
   }
 
+  double CommonParameters::getCoordinateValue(std::string strValue) {
+    try
+    {
+      size_t parsedLength = 0;
+      double value = std::stod(strValue, &parsedLength);
+      if (parsedLength != strValue.size() || !std::isfinite(value))
+      {
+        throw ParameterException(ParameterException::Type::INVALID_NUMERICAL_DATA);
+      }
+      return value;
+    }
+    catch (...)
+    {
+      throw ParameterException(ParameterException::Type::INVALID_NUMERICAL_DATA);
+    }
+  }
+
   CommonParameters CommonParameters::createCommonParameter(std::vector<std::pair<std::string, std::string>> &parameters, const std::map<boost::uuids::uuid, Scenario> &scenarios)
   {
     boost::uuids::string_generator uuidGenerator;
diff --git a/connection_scan_algorithm/src/parameters/route_parameters.cpp b/connection_scan_algorithm/src/parameters/route_parameters.cpp
index 0120005..63dd183 100644
--- a/connection_scan_algorithm/src/parameters/route_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/route_parameters.cpp
@@ -79,7 +79,7 @@ namespace TrRouting
           {
             throw ParameterException(ParameterException::Type::INVALID_ORIGIN);
           }
-          origin = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
+          origin = Point(CommonParameters::getCoordinateValue(latitudeLongitudeVector[1]), CommonParameters::getCoordinateValue(latitudeLongitudeVector[0]));
         }
         catch (...)
         {
@@ -95,7 +95,7 @@ namespace TrRouting
           {
             throw ParameterException(ParameterException::Type::INVALID_DESTINATION);
           }
-          destination = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
+          destination = Point(CommonParameters::getCoordinateValue(latitudeLongitudeVector[1]), CommonParameters::getCoordinateValue(latitudeLongitudeVector[0]));
         }
         catch (...)
         {
diff --git a/include/parameters.hpp b/include/parameters.hpp
index 2b741e0..e183e45 100644
--- a/include/parameters.hpp
+++ b/include/parameters.hpp
@@ -152,6 +152,16 @@ namespace TrRouting
        * @return int The converted integer
        */
       static int getIntegerValue(std::string strValue);
+
+      /**
+       * @brief Helper function to get the value of a coordinate from a string,
+       * or throw a ParameterException if the whole string is not a finite
+       * number.
+       *
+       * @param strValue Coordinate string value
+       * @return double The converted coordinate
+       */
+      static double getCoordinateValue(std::string strValue);
   };
 
   class RouteParameters : public CommonParameters {
-- 
2.43.0


From ab403528d0b98dbdce4d2a09052456d292e619d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 16/24] fix: report a malformed scenario id like an unknown
 scenario

---
 .../src/parameters/common_parameters.cpp          | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/connection_scan_algorithm/src/parameters/common_parameters.cpp b/connection_scan_algorithm/src/parameters/common_parameters.cpp
index 9f3c5d9..6d10fb1 100644
--- a/connection_scan_algorithm/src/parameters/common_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/common_parameters.cpp
@@ -129,12 +129,19 @@ namespace TrRouting
       // scenario:
       else if (parameterWithValue.first == "scenario_id")
       {
-        boost::uuids::uuid scenarioUuid  = uuidGenerator(parameterWithValue.second);
+        try
+        {
+          boost::uuids::uuid scenarioUuid  = uuidGenerator(parameterWithValue.second);
 
-        auto scenarioIte = scenarios.find(scenarioUuid);
-        if (scenarioIte != scenarios.end())
+          auto scenarioIte = scenarios.find(scenarioUuid);
+          if (scenarioIte != scenarios.end())
+          {
+            scenario = scenarioIte->second;
+          }
+        }
+        catch (const std::runtime_error &)
         {
-          scenario = scenarioIte->second;
+          // Not a uuid, so no scenario has this id
         }
         continue;
       }
-- 
2.43.0


From 7d66a44c130b74f854540e04ae7515fcca0adcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:26 +0000
Subject: [PATCH 17/24] fix: answer the documented error codes for a missing or
 invalid place

---
 connection_scan_algorithm/src/transit_routing_http_server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 58bb61a..94fbaf5 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -94,6 +94,8 @@ std::string getResponseCode(ParameterException::Type type)
     case ParameterException::Type::MISSING_TIME_OF_TRIP: return "MISSING_PARAM_TIME_OF_TRIP";
     case ParameterException::Type::INVALID_ORIGIN: return "INVALID_ORIGIN";
     case ParameterException::Type::INVALID_DESTINATION: return "INVALID_DESTINATION";
+    case ParameterException::Type::MISSING_PLACE: return "MISSING_PARAM_PLACE";
+    case ParameterException::Type::INVALID_PLACE: return "INVALID_PLACE";
     case ParameterException::Type::INVALID_NUMERICAL_DATA: return "INVALID_NUMERICAL_DATA";
     default: return "PARAM_ERROR_UNKNOWN";
   }
-- 
2.43.0


From 20b9616f09081147a3c945ad7b5bbc42773a5061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 18/24] fix: list only the known cache names in the answer of
 /updateCache

An unknown first name removed a character from an empty string, and an unknown
name after a known one was listed as refreshed. The custom path is escaped.
---
 .../src/transit_routing_http_server.cpp         | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 94fbaf5..44ced2d 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -10,6 +10,7 @@
 #include <iterator>
 #include "spdlog/spdlog.h"
 
+#include <nlohmann/json.hpp>
 #include <boost/uuid/uuid.hpp>
 #include <boost/program_options.hpp>
 #include <boost/property_tree/json_parser.hpp>
@@ -181,10 +182,10 @@ int main(int argc, char** argv) {
       }
     }
 
-    bool correctCacheName {false};
     //TODO Merge this and the preparations.cpp code
     for(std::string cacheName : cacheNames)
     {
+      bool correctCacheName {false};
       if (cacheName == "data_sources" || cacheName == "all")
       {
         correctCacheName = true;
@@ -250,7 +251,6 @@ int main(int argc, char** argv) {
         transitData.updateSchedules(customCacheDirectoryPath);
       }
 
-      //TODO This is incorrect if we have multiple name and the second one is wrong, correctCacheName is always true
       if (correctCacheName)
       {
         cacheNamesStr += cacheName;
@@ -258,14 +258,17 @@ int main(int argc, char** argv) {
       }
     }
 
-    //TODO do this only if we had at least one correct name
-    //Reinit some data after the update
-    // TODO Just the schedules???
-    if (cacheNames.size() > 0)
+    // There was at least one correct name
+    if (!cacheNamesStr.empty())
     {
       // Remove last ","
       cacheNamesStr.pop_back();
-      response = "{\"status\": \"success\", \"cache_names\": \"" + cacheNamesStr + "\", \"custom_cache_path\": \"" + customCacheDirectoryPath + "\"}";
+      nlohmann::json json;
+      json["status"] = "success";
+      json["cache_names"] = cacheNamesStr;
+      json["custom_cache_path"] = customCacheDirectoryPath;
+      // The path comes from the request and can contain anything
+      response = json.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
     }
     else
     {
-- 
2.43.0


From a5cf74f9860c46bb3179b326bed81885c46b2a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 19/24] fix: refresh the caches that refer to a refreshed one,
 in dependency order

Refreshing nodes or lines alone, for example, left paths, scenarios and trips
referring to freed data.
---
 .../src/transit_routing_http_server.cpp       | 95 +++++++++++--------
 1 file changed, 54 insertions(+), 41 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 44ced2d..fea7762 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -4,6 +4,7 @@
 //Added for the json-example
 #define BOOST_SPIRIT_THREADSAFE
 
+#include <set>
 #include <vector>
 #include <algorithm>
 #include <string>
@@ -182,80 +183,92 @@ int main(int argc, char** argv) {
       }
     }
 
-    //TODO Merge this and the preparations.cpp code
+    // Names of the caches, in dependency order
+    const std::vector<std::string> knownCacheNames {
+      "data_sources", "persons", "od_trips", "agencies", "services", "nodes", "lines", "paths", "scenarios", "schedules"
+      // TODO #167 "households", "places"
+    };
+    std::set<std::string> cachesToUpdate;
     for(std::string cacheName : cacheNames)
     {
-      bool correctCacheName {false};
-      if (cacheName == "data_sources" || cacheName == "all")
+      if (cacheName == "all")
       {
-        correctCacheName = true;
-        transitData.updateDataSources(customCacheDirectoryPath);
+        cachesToUpdate.insert(knownCacheNames.begin(), knownCacheNames.end());
       }
-      /* TODO #167
-      if (cacheName == "households" || cacheName == "all")
+      else if (std::find(knownCacheNames.begin(), knownCacheNames.end(), cacheName) != knownCacheNames.end())
       {
-        correctCacheName = true;
-        transitData.updateHouseholds(customCacheDirectoryPath);
+        cachesToUpdate.insert(cacheName);
       }
-      */
-      if (cacheName == "persons" || cacheName == "all")
+      else
       {
-        correctCacheName = true;
-        transitData.updatePersons(customCacheDirectoryPath);
+        continue;
       }
-      if (cacheName == "od_trips" || cacheName == "all")
+      cacheNamesStr += cacheName;
+      cacheNamesStr += ",";
+    }
+
+    // The caches that refer to data of an updated cache need to be read again too
+    if (cachesToUpdate.count("agencies"))
+    {
+      cachesToUpdate.insert("lines");
+    }
+    if (cachesToUpdate.count("lines") || cachesToUpdate.count("nodes"))
+    {
+      cachesToUpdate.insert("paths");
+    }
+    if (cachesToUpdate.count("paths") || cachesToUpdate.count("services"))
+    {
+      cachesToUpdate.insert("scenarios");
+      cachesToUpdate.insert("schedules");
+    }
+
+    //TODO Merge this and the preparations.cpp code
+    for(const std::string & cacheName : knownCacheNames)
+    {
+      if (!cachesToUpdate.count(cacheName))
       {
-        correctCacheName = true;
-        transitData.updateOdTrips(customCacheDirectoryPath);
+        continue;
       }
-      /* TODO #167
-      if (cacheName == "places" || cacheName == "all")
+      if (cacheName == "data_sources")
       {
-        correctCacheName = true;
-        transitData.updatePlaces(customCacheDirectoryPath);
+        transitData.updateDataSources(customCacheDirectoryPath);
+      }
+      else if (cacheName == "persons")
+      {
+        transitData.updatePersons(customCacheDirectoryPath);
       }
-      */
-      if (cacheName == "agencies" || cacheName == "all")
+      else if (cacheName == "od_trips")
+      {
+        transitData.updateOdTrips(customCacheDirectoryPath);
+      }
+      else if (cacheName == "agencies")
       {
-        correctCacheName = true;
         transitData.updateAgencies(customCacheDirectoryPath);
       }
-      if (cacheName == "services" || cacheName == "all")
+      else if (cacheName == "services")
       {
-        correctCacheName = true;
         transitData.updateServices(customCacheDirectoryPath);
       }
-      if (cacheName == "nodes" || cacheName == "all")
+      else if (cacheName == "nodes")
       {
-        correctCacheName = true;
         transitData.updateNodes(customCacheDirectoryPath);
       }
-      if (cacheName == "lines" || cacheName == "all")
+      else if (cacheName == "lines")
       {
-        correctCacheName = true;
         transitData.updateLines(customCacheDirectoryPath);
       }
-      if (cacheName == "paths" || cacheName == "all")
+      else if (cacheName == "paths")
       {
-        correctCacheName = true;
         transitData.updatePaths(customCacheDirectoryPath);
       }
-      if (cacheName == "scenarios" || cacheName == "all")
+      else if (cacheName == "scenarios")
       {
-        correctCacheName = true;
         transitData.updateScenarios(customCacheDirectoryPath);
       }
-      if (cacheName == "schedules" || cacheName == "all")
+      else if (cacheName == "schedules")
       {
-        correctCacheName = true;
         transitData.updateSchedules(customCacheDirectoryPath);
       }
-
-      if (correctCacheName)
-      {
-        cacheNamesStr += cacheName;
-        cacheNamesStr += ",";
-      }
     }
 
     // There was at least one correct name
-- 
2.43.0


From e865163511f4f1a3a0dd3e0a717ad7346f4921e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:52 +0000
Subject: [PATCH 20/24] fix: do not read past the travel times and distances of
 an od trip's nodes

---
 src/od_trips_cache_fetcher.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/od_trips_cache_fetcher.cpp b/src/od_trips_cache_fetcher.cpp
index e907b24..c86e234 100644
--- a/src/od_trips_cache_fetcher.cpp
+++ b/src/od_trips_cache_fetcher.cpp
@@ -153,6 +153,10 @@ namespace TrRouting
 
             const unsigned int originNodesCount {capnpT.getOriginNodesUuids().size()};
             std::vector<NodeTimeDistance> originNodes;
+            if (capnpT.getOriginNodesTravelTimes().size() < originNodesCount || capnpT.getOriginNodesDistances().size() < originNodesCount)
+            {
+              throw std::length_error("fewer travel times or distances than origin nodes");
+            }
             for (unsigned int j = 0; j < originNodesCount; j++)
             {
               std::string nodeUuid {capnpT.getOriginNodesUuids()[j]};
@@ -163,6 +167,10 @@ namespace TrRouting
 
             const unsigned int destinationNodesCount {capnpT.getDestinationNodesUuids().size()};
             std::vector<NodeTimeDistance> destinationNodes;
+            if (capnpT.getDestinationNodesTravelTimes().size() < destinationNodesCount || capnpT.getDestinationNodesDistances().size() < destinationNodesCount)
+            {
+              throw std::length_error("fewer travel times or distances than destination nodes");
+            }
             for (unsigned int j = 0; j < destinationNodesCount; j++)
             {
               std::string nodeUuid {capnpT.getDestinationNodesUuids()[j]};
-- 
2.43.0


From f3b3c1de7b6223ae1c970e694ab8b9bfdf9f6c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:52 +0000
Subject: [PATCH 21/24] fix: answer requests when a name of the data is not
 valid UTF-8

---
 .../src/transit_routing_http_server.cpp          | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index fea7762..0e448bd 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -343,20 +343,20 @@ int main(int argc, char** argv) {
         if (queryParams.isWithAlternatives())
         {
           TrRouting::AlternativesResult alternativeResult = calculator.alternativesRouting(queryParams);
-          response = ResultToV2Response::resultToJsonString(alternativeResult, queryParams).dump(2);
+          response = ResultToV2Response::resultToJsonString(alternativeResult, queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         }
         else
         {
           std::unique_ptr<TrRouting::SingleCalculationResult> routingResult = calculator.calculateSingle(queryParams);
           if (routingResult.get() != nullptr) {
-            response = ResultToV2Response::resultToJsonString(*routingResult.get(), queryParams).dump(2);
+            response = ResultToV2Response::resultToJsonString(*routingResult.get(), queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
           }
         }
 
         spdlog::info("-- route request complete -- {}", currentRequestId);
 
       } catch (NoRoutingFoundException &e) {
-        response = ResultToV2Response::noRoutingFoundResponse(queryParams, e.getReason()).dump(2);
+        response = ResultToV2Response::noRoutingFoundResponse(queryParams, e.getReason()).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         spdlog::info("-- route request not found -- {}", currentRequestId);
 
       }
@@ -415,20 +415,20 @@ int main(int argc, char** argv) {
         if (queryParams.isWithAlternatives())
         {
           TrRouting::AlternativesResult alternativeResult = calculator.alternativesRouting(queryParams);
-          response = ResultToV2SummaryResponse::resultToJsonString(alternativeResult, queryParams).dump(2);
+          response = ResultToV2SummaryResponse::resultToJsonString(alternativeResult, queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         }
         else
         {
           std::unique_ptr<TrRouting::SingleCalculationResult> routingResult = calculator.calculateSingle(queryParams);
           if (routingResult.get() != nullptr) {
-            response = ResultToV2SummaryResponse::resultToJsonString(*routingResult.get(), queryParams).dump(2);
+            response = ResultToV2SummaryResponse::resultToJsonString(*routingResult.get(), queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
           }
         }
 
         spdlog::info("-- summary request complete -- {}", currentRequestId);
 
       } catch (NoRoutingFoundException &e) {
-        response = ResultToV2SummaryResponse::noRoutingFoundResponse(queryParams, e.getReason()).dump(2);
+        response = ResultToV2SummaryResponse::noRoutingFoundResponse(queryParams, e.getReason()).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         spdlog::info("-- summary request not found -- {}", currentRequestId);
       }
 
@@ -485,13 +485,13 @@ int main(int argc, char** argv) {
       try {
         std::unique_ptr<AllNodesResult> accessibilityResult = calculator.calculateAllNodes(queryParams);
         if (accessibilityResult.get() != nullptr) {
-          response = ResultToV2AccessibilityResponse::resultToJsonString(*accessibilityResult.get(), queryParams).dump(2);
+          response = ResultToV2AccessibilityResponse::resultToJsonString(*accessibilityResult.get(), queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         }
 
         spdlog::info("-- accessibility request complete -- {}", currentRequestId);
 
       } catch (NoRoutingFoundException &e) {
-        response = ResultToV2AccessibilityResponse::noRoutingFoundResponse(queryParams, e.getReason()).dump(2);
+        response = ResultToV2AccessibilityResponse::noRoutingFoundResponse(queryParams, e.getReason()).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         spdlog::info("-- accessibility request not found -- {}", currentRequestId);
       }
 
-- 
2.43.0


From 05a9fa9f518cbf6427362f765d99b637716a4abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:52 +0000
Subject: [PATCH 22/24] fix: ignore the entries of a walking router's reply
 beyond the requested nodes

---
 src/osrmgeofilter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/osrmgeofilter.cpp b/src/osrmgeofilter.cpp
index 6b95f1c..068c1a1 100644
--- a/src/osrmgeofilter.cpp
+++ b/src/osrmgeofilter.cpp
@@ -1,4 +1,5 @@
 #include "osrmgeofilter.hpp"
+#include <algorithm>
 #include <nlohmann/json.hpp>
 #include "point.hpp"
 #include "node.hpp"
@@ -90,6 +91,8 @@ namespace TrRouting {
     {
       int numberOfDurations = responseJson["durations"][0].size();
       int numberOfDistances = responseJson["distances"][0].size();
+      // The reply can have more entries than the number of nodes in the request
+      numberOfDurations = std::min(numberOfDurations, (int)birdDistanceAccessibleNodeIndexes.size() + 1);
 
       if (numberOfDurations > 0 && numberOfDistances > 0)
       {
-- 
2.43.0


From 445e55413eae0f5f9cee10fcce97cc0b295ba4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:52 +0000
Subject: [PATCH 23/24] fix: count requests without a data race between the
 server's threads

---
 .../src/transit_routing_http_server.cpp                    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 0e448bd..e92ea00 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -5,6 +5,7 @@
 #define BOOST_SPIRIT_THREADSAFE
 
 #include <set>
+#include <atomic>
 #include <vector>
 #include <algorithm>
 #include <string>
@@ -316,7 +317,7 @@ int main(int argc, char** argv) {
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
   server.resource["^/v2/route[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int routeRequestId = 0;
+    static std::atomic<int> routeRequestId {0};
     std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
@@ -386,7 +387,7 @@ int main(int argc, char** argv) {
   // TODO Copy pasted from v2/route. There's a lot in common, it should be extracted to common class, just the response parser is different
   server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int summaryRequestId = 0;
+    static std::atomic<int> summaryRequestId {0};
 
     std::string response = getFastErrorResponse(transitData.getDataStatus());
 
@@ -457,7 +458,7 @@ int main(int argc, char** argv) {
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
   server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int accessibilityRequestId = 0;
+    static std::atomic<int> accessibilityRequestId {0};
 
     std::string response = getFastErrorResponse(transitData.getDataStatus());
 
-- 
2.43.0


From b94b5aae3c037a05587247cef2b5a4df23e1d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 24/24] fix: skip trips whose times go backwards and walks of
 negative duration

---
 src/nodes_cache_fetcher.cpp                 |  4 ++++
 src/trips_and_connections_cache_fetcher.cpp | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/nodes_cache_fetcher.cpp b/src/nodes_cache_fetcher.cpp
index c6387b7..7b17c65 100644
--- a/src/nodes_cache_fetcher.cpp
+++ b/src/nodes_cache_fetcher.cpp
@@ -150,6 +150,10 @@ namespace TrRouting
           
           int travelTime = capnpT.getTransferableNodesTravelTimes()[j];
           int distance = capnpT.getTransferableNodesDistances()[j];
+          if (travelTime < 0) {
+            spdlog::error("Negative travel time to transferable node {} in file {}", nodeUuidStr, nodeCacheFileNamePath);
+            continue;
+          }
           transferableNodes.push_back(NodeTimeDistance(ts.at(nodeUuid),
                                                        travelTime,
                                                        distance));
diff --git a/src/trips_and_connections_cache_fetcher.cpp b/src/trips_and_connections_cache_fetcher.cpp
index cf0fa69..5efe120 100644
--- a/src/trips_and_connections_cache_fetcher.cpp
+++ b/src/trips_and_connections_cache_fetcher.cpp
@@ -90,6 +90,21 @@ namespace TrRouting
                 continue;
               }
 
+              // Time cannot go backwards along a trip
+              bool areTimesOrdered = true;
+              for (unsigned long nodeTimeI = 0; nodeTimeI + 1 < nodeTimesCount; nodeTimeI++)
+              {
+                if (arrivalTimesSeconds[nodeTimeI + 1] < departureTimesSeconds[nodeTimeI] || (nodeTimeI > 0 && departureTimesSeconds[nodeTimeI] < arrivalTimesSeconds[nodeTimeI]))
+                {
+                  areTimesOrdered = false;
+                }
+              }
+              if (!areTimesOrdered || (nodeTimesCount > 1 && departureTimesSeconds[0] < 0))
+              {
+                spdlog::error("-- Ignoring trip with decreasing or negative stop times -- {} in {}", tripUuidStr, cacheFilePath);
+                continue;
+              }
+
               bool isNewTrip = trips.emplace(tripUuid, Trip(tripUuid,
                                            line.agency,
                                            line,
-- 
2.43.0

