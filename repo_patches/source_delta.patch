From 0c3cf79fb53e866a2e7215e355fa646ed2dbb23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 01/67] fix: make UndirectedGraph::getEdgeObjects(v1, v2)
 usable

The member function could not be instantiated (the filter received a
reference and used it as a pointer).
---
 include/powsybl/math/UndirectedGraph.hxx | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 90746fd..f8b8517 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -239,20 +239,12 @@ typename UndirectedGraph<V, E>::template const_range<E> UndirectedGraph<V, E>::g
     checkVertex(v1);
     checkVertex(v2);
 
-    const std::vector<std::vector<unsigned long> >& adjacencyList = getAdjacencyList();
-    const std::vector<unsigned long>& adjacentEdges = adjacencyList[v1];
-
-    const auto& edgeMapper = [this](const unsigned long& e) {
-        return m_edges[e].get();
-    };
-    const auto& edgeFilter = [v1, v2](const Edge& edge) {
-        return ((edge->getVertex1() == v1 && edge->getVertex2() == v2) || (edge->getVertex1() == v2 && edge->getVertex2() == v1));
+    const auto& filter = [v1, v2](const std::unique_ptr<Edge>& edge) {
+        return static_cast<bool>(edge) &&
+            ((edge->getVertex1() == v1 && edge->getVertex2() == v2) || (edge->getVertex1() == v2 && edge->getVertex2() == v1));
     };
 
-    return adjacentEdges |
-        boost::adaptors::transformed(edgeMapper) |
-        boost::adaptors::filtered(edgeFilter) |
-        boost::adaptors::transformed(Edge::map);
+    return m_edges | boost::adaptors::filtered(filter) | boost::adaptors::indirected | boost::adaptors::transformed(Edge::map);
 }
 
 template <typename V, typename E>
-- 
2.43.0


From 1415e3cfc165f01ba8ced5410f2101a6119a4ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 02/67] fix: let UndirectedGraph::removeAllVertices succeed
 once all the edges are removed

Removing an edge which is not the last one leaves an empty slot, which was
taken for a remaining edge.
---
 include/powsybl/math/UndirectedGraph.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index f8b8517..a51a752 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -334,10 +334,12 @@ void UndirectedGraph<V, E>::removeAllEdges() {
 
 template <typename V, typename E>
 void UndirectedGraph<V, E>::removeAllVertices() {
-    if (!m_edges.empty()) {
+    if (getEdgeCount() != 0) {
         throw PowsyblException("Cannot remove all vertices because there is still some edges in the graph");
     }
 
+    m_edges.clear();
+    m_removedEdges.clear();
     m_vertices.clear();
     m_availableVertices.clear();
 
-- 
2.43.0


From 0717536a8448cabf1871a6265bbb04cd7e087753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 03/67] fix: do not read past the end of the vertices in
 removeIsolatedVertices

The lazy range of vertices was evaluated while the removals were shrinking
the underlying vector.
---
 include/powsybl/math/UndirectedGraph.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index a51a752..076811a 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -372,8 +372,9 @@ void UndirectedGraph<V, E>::removeIsolatedVertices() {
         connectedVertices.emplace(getVertex2(e));
     }
 
-    for (const auto& v : getVertices()) {
-        if ((connectedVertices.find(v) == connectedVertices.end()) && !getVertexObject(v)) {
+    // m_vertices may shrink when a vertex is removed
+    for (unsigned long v = 0; v < m_vertices.size(); ++v) {
+        if (vertexExists(v) && (connectedVertices.find(v) == connectedVertices.end()) && !getVertexObject(v)) {
             removeVertex(v);
         }
     }
-- 
2.43.0


From 6e5aedcfcd4b0c8eab9d2969e1a2d93916b49ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 04/67] fix: invalidate the calculated topologies of every
 variant when switches, buses or internal connections are added or removed

---
 src/iidm/BusBreakerVoltageLevel.cpp  | 18 ++++++++++++++++++
 src/iidm/NetworkViews.cpp            |  2 +-
 src/iidm/NodeBreakerVoltageLevel.cpp | 27 ++++++++++++++++++++++-----
 3 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 4f59035..bd48590 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -37,6 +37,9 @@ Bus& BusBreakerVoltageLevel::addBus(std::unique_ptr<ConfiguredBus>&& ptrBus) {
     unsigned long node = m_graph.addVertex();
     m_graph.setVertexObject(node, stdcxx::ref(bus));
     m_buses.insert(std::make_pair(bus.getId(), node));
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 
     return bus;
 }
@@ -48,6 +51,9 @@ Switch& BusBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch, c
     Switch& aSwitch = getNetwork().checkAndAdd(std::move(ptrSwitch));
     unsigned long e = m_graph.addEdge(v1, v2, stdcxx::ref(aSwitch));
     m_switches.insert(std::make_pair(aSwitch.getId(), e));
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 
     return aSwitch;
 }
@@ -303,6 +309,9 @@ void BusBreakerVoltageLevel::removeAllBuses() {
             throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connected equipments", bus.getId()));
         }
     }
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
     for (const auto& it : m_graph.getVertexObjects()) {
         getNetwork().remove(it.get());
     }
@@ -318,6 +327,9 @@ void BusBreakerVoltageLevel::removeAllSwitches() {
 
     m_graph.removeAllEdges();
     m_switches.clear();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 void BusBreakerVoltageLevel::removeBus(const std::string& busId) {
@@ -339,6 +351,9 @@ void BusBreakerVoltageLevel::removeBus(const std::string& busId) {
         }
     }
 
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
     const auto& it = m_buses.find(busId);
     m_graph.removeVertex(it->second);
     m_buses.erase(it);
@@ -353,6 +368,9 @@ void BusBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
 
     const auto& aSwitch = m_graph.removeEdge(it->second);
     m_switches.erase(it);
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
     getNetwork().remove(aSwitch.get());
 }
 
diff --git a/src/iidm/NetworkViews.cpp b/src/iidm/NetworkViews.cpp
index bc848bf..1634833 100644
--- a/src/iidm/NetworkViews.cpp
+++ b/src/iidm/NetworkViews.cpp
@@ -86,7 +86,7 @@ stdcxx::range<Switch> BusBreakerView::getSwitches() {
 }
 
 void BusBreakerView::invalidateCache() {
-    m_network.getBusViewCache().invalidate();
+    m_network.getBusBreakerViewCache().invalidate();
 }
 
 BusView::BusView(Network& network) :
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index d4d080a..ba3a6db 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -34,7 +34,9 @@ void NodeBreakerVoltageLevel::addInternalConnection(unsigned long node1, unsigne
     m_graph.addVertexIfNotPresent(node1);
     m_graph.addVertexIfNotPresent(node2);
     m_graph.addEdge(node1, node2, stdcxx::ref<Switch>());
-    invalidateCache();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 Switch& NodeBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch, unsigned long node1, unsigned long node2) {
@@ -43,6 +45,9 @@ Switch& NodeBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch,
     m_graph.addVertexIfNotPresent(node2);
     unsigned long e = m_graph.addEdge(node1, node2, stdcxx::ref(aSwitch));
     m_switches.insert(std::make_pair(aSwitch.getId(), e));
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 
     return aSwitch;
 }
@@ -358,15 +363,21 @@ void NodeBreakerVoltageLevel::removeInternalConnections(unsigned long node1, uns
         return !m_graph.getEdgeObject(edge) && ((m_graph.getVertex1(edge) == node1 && m_graph.getVertex2(edge) == node2) || (m_graph.getVertex1(edge) == node2 && m_graph.getVertex2(edge) == node1));
     };
 
-    const auto& internalConnectionsToBeRemoved = m_graph.getEdges() | boost::adaptors::filtered(filter);
-    if (boost::empty(internalConnectionsToBeRemoved)) {
+    // copy the edges, as they cannot be iterated while they are being removed
+    std::vector<unsigned long> internalConnectionsToBeRemoved;
+    for (unsigned long e : m_graph.getEdges() | boost::adaptors::filtered(filter)) {
+        internalConnectionsToBeRemoved.push_back(e);
+    }
+    if (internalConnectionsToBeRemoved.empty()) {
         throw PowsyblException(stdcxx::format("Internal connection not found between %1% and %2%", node1, node2));
     }
     for (unsigned long ic : internalConnectionsToBeRemoved) {
         m_graph.removeEdge(ic);
     }
     clean();
-    invalidateCache();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
@@ -379,15 +390,21 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
     clean();
 
     m_switches.erase(it);
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
     getNetwork().remove(aSwitch.get());
 }
 
 void NodeBreakerVoltageLevel::removeTopology() {
-    for (Switch& s : m_graph.getEdgeObjects()) {
+    for (Switch& s : getSwitches()) {
         getNetwork().getIndex().remove(s);
     }
     m_graph.removeAllEdges();
     m_switches.clear();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 void NodeBreakerVoltageLevel::traverse(NodeTerminal& terminal, VoltageLevel::TopologyTraverser& traverser) const {
-- 
2.43.0


From 7e73285d467c51750b150797b1a7429465de040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 05/67] fix: change the connectable bus of a terminal in the
 working variant only, and detach it from its bus in each variant

---
 src/iidm/BusBreakerVoltageLevel.cpp | 5 ++---
 src/iidm/BusTerminalViews.cpp       | 6 ++++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index bd48590..4b419f5 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -115,10 +115,9 @@ void BusBreakerVoltageLevel::detach(Terminal& terminal) {
     assert(stdcxx::isInstanceOf<BusTerminal>(terminal));
 
     auto& busTerminal = dynamic_cast<BusTerminal&>(terminal);
-    auto& bus = getConfiguredBus(busTerminal.getConnectableBusId(), true).get();
 
-    getNetwork().getVariantManager().forEachVariant([&bus, &busTerminal, this]() {
-        bus.removeTerminal(busTerminal);
+    getNetwork().getVariantManager().forEachVariant([&busTerminal, this]() {
+        getConfiguredBus(busTerminal.getConnectableBusId(), true).get().removeTerminal(busTerminal);
         busTerminal.setConnectableBusId("");
 
         invalidateCache();
diff --git a/src/iidm/BusTerminalViews.cpp b/src/iidm/BusTerminalViews.cpp
index d769720..369f0e9 100644
--- a/src/iidm/BusTerminalViews.cpp
+++ b/src/iidm/BusTerminalViews.cpp
@@ -50,9 +50,11 @@ void BusBreakerViewImpl::setConnectableBus(const std::string& busId) {
     // Assert that the new bus exists
     voltageLevel.getConfiguredBus(busId, true);
 
-    voltageLevel.detach(m_terminal);
+    // the connectable bus is specific to each variant: move the terminal in the working variant only
+    voltageLevel.getConfiguredBus(m_terminal.getConnectableBusId(), true).get().removeTerminal(m_terminal);
     m_terminal.setConnectableBusId(busId);
-    voltageLevel.attach(m_terminal, false);
+    voltageLevel.getConfiguredBus(busId, true).get().addTerminal(m_terminal);
+    voltageLevel.invalidateCache();
 }
 
 BusViewImpl::BusViewImpl(powsybl::iidm::BusTerminal& terminal):
-- 
2.43.0


From ffa93ed185037ef6b114c8e3789530bbaa70283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 06/67] fix: refuse to remove a bus which has equipments in
 another variant

---
 src/iidm/BusBreakerVoltageLevel.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 4b419f5..4061a83 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -302,12 +302,14 @@ void BusBreakerVoltageLevel::removeAllBuses() {
     if (m_graph.getEdgeCount() > 0) {
         throw ValidationException(*this, stdcxx::format("Cannot remove all buses because there is still some switches"));
     }
-    for (const auto& it : m_graph.getVertexObjects()) {
-        const auto& bus = it.get();
-        if (bus.getTerminalCount() > 0) {
-            throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connected equipments", bus.getId()));
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        for (const auto& it : m_graph.getVertexObjects()) {
+            const auto& bus = it.get();
+            if (bus.getTerminalCount() > 0) {
+                throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connected equipments", bus.getId()));
+            }
         }
-    }
+    });
     getNetwork().getVariantManager().forEachVariant([this]() {
         invalidateCache();
     });
@@ -333,9 +335,11 @@ void BusBreakerVoltageLevel::removeAllSwitches() {
 
 void BusBreakerVoltageLevel::removeBus(const std::string& busId) {
     const auto& bus = getConfiguredBus(busId, true);
-    if (bus.get().getTerminalCount() > 0) {
-        throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connectable equipments", busId));
-    }
+    getNetwork().getVariantManager().forEachVariant([&bus, &busId, this]() {
+        if (bus.get().getTerminalCount() > 0) {
+            throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connectable equipments", busId));
+        }
+    });
 
     for (const auto& it : m_switches) {
         const auto& switchId = it.first;
-- 
2.43.0


From 004c1206ed800127f0db85cb7da6f5c16327c2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 07/67] fix: size the list of encountered buses from the
 highest vertex

---
 src/iidm/BusBreakerVoltageLevelTopology.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/BusBreakerVoltageLevelTopology.cpp b/src/iidm/BusBreakerVoltageLevelTopology.cpp
index debc17e..48f1cc8 100644
--- a/src/iidm/BusBreakerVoltageLevelTopology.cpp
+++ b/src/iidm/BusBreakerVoltageLevelTopology.cpp
@@ -110,7 +110,7 @@ void CalculatedBusTopology::updateCache() {
 
     const auto& graph = m_voltageLevel.getGraph();
 
-    std::vector<bool> encountered(graph.getVertexCount(), false);
+    std::vector<bool> encountered(graph.getMaxVertex(), false);
     for (unsigned long v : graph.getVertices()) {
         if (!encountered[v]) {
 
-- 
2.43.0


From 804705bf02a898c1253dd50e58630d634b7b29e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 08/67] fix: look for a bus in its voltage level only

---
 src/iidm/BusBreakerVoltageLevelViews.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevelViews.cpp b/src/iidm/BusBreakerVoltageLevelViews.cpp
index 668eaac..ef093f1 100644
--- a/src/iidm/BusBreakerVoltageLevelViews.cpp
+++ b/src/iidm/BusBreakerVoltageLevelViews.cpp
@@ -30,10 +30,6 @@ stdcxx::CReference<Bus> BusBreakerViewImpl::getBus(const std::string& busId) con
 }
 
 stdcxx::Reference<Bus> BusBreakerViewImpl::getBus(const std::string& busId) {
-    const auto& bus = m_voltageLevel.getNetwork().find<Bus>(busId);
-    if (bus) {
-        return stdcxx::ref(bus.get());
-    }
     return stdcxx::ref<Bus>(m_voltageLevel.getConfiguredBus(busId, false));
 }
 
-- 
2.43.0


From 6be83801be5f1414414b5c3d9d6b9d0a02bf632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 09/67] fix: do not abort when the merged bus of an unknown
 configured bus is requested

---
 src/iidm/BusBreakerVoltageLevelTopology.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iidm/BusBreakerVoltageLevelTopology.cpp b/src/iidm/BusBreakerVoltageLevelTopology.cpp
index 48f1cc8..a7e9e73 100644
--- a/src/iidm/BusBreakerVoltageLevelTopology.cpp
+++ b/src/iidm/BusBreakerVoltageLevelTopology.cpp
@@ -46,6 +46,10 @@ stdcxx::Reference<MergedBus> CalculatedBusTopology::getMergedBus(const std::stri
 }
 
 stdcxx::Reference<MergedBus> CalculatedBusTopology::getMergedBus(const stdcxx::Reference<ConfiguredBus>& bus) {
+    if (!bus) {
+        return stdcxx::ref<MergedBus>();
+    }
+
     updateCache();
 
     return m_cache->getMergedBus(bus);
-- 
2.43.0


From cd74c9da5a72b9f6c37ae55b6406f951fa1fe81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 10/67] fix: do not abort when a terminal is detached from a
 voltage level with non consecutive nodes

---
 src/iidm/NodeBreakerVoltageLevel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index ba3a6db..c729a9d 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -135,7 +135,7 @@ void NodeBreakerVoltageLevel::detach(Terminal& terminal) {
     auto& nodeTerminal = dynamic_cast<NodeTerminal&>(terminal);
 
     unsigned long node = nodeTerminal.getNode();
-    assert(node < m_graph.getVertexCount());
+    assert(m_graph.vertexExists(node));
     assert(stdcxx::areSame(m_graph.getVertexObject(node).get(), nodeTerminal));
 
     getNetwork().getVariantManager().forEachVariant([this]() {
-- 
2.43.0


From f7d5bf050f5929184b6d51cb40c82cd38049b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 11/67] fix: check that a node is free before the equipment is
 added to the network

---
 src/iidm/NodeBreakerVoltageLevel.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index c729a9d..5abaec0 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -59,18 +59,19 @@ void NodeBreakerVoltageLevel::allocateVariantArrayElement(const std::set<unsigne
 
 void NodeBreakerVoltageLevel::attach(Terminal& terminal, bool test) {
     checkTerminal(terminal);
+
+    auto& nodeTerminal = dynamic_cast<NodeTerminal&>(terminal);
+    unsigned long node = nodeTerminal.getNode();
+    const stdcxx::Reference<NodeTerminal>& tmp = m_graph.vertexExists(node) ? m_graph.getVertexObject(node) : stdcxx::Reference<NodeTerminal>();
+    if (static_cast<bool>(tmp)) {
+        throw ValidationException(terminal.getConnectable(),
+            stdcxx::format("An equipment (%1%) is already connected to the node %2% of voltage level %3%",
+                            tmp.get().getConnectable().get().getId(), node, getId()));
+    }
+
     if (!test) {
-        auto& nodeTerminal = dynamic_cast<NodeTerminal&>(terminal);
-        unsigned long node = nodeTerminal.getNode();
         m_graph.addVertexIfNotPresent(node);
 
-        const stdcxx::Reference<NodeTerminal>& tmp = m_graph.getVertexObject(node);
-        if (static_cast<bool>(tmp)) {
-            throw ValidationException(terminal.getConnectable(),
-                stdcxx::format("An equipment (%1%) is already connected to the node %2% of voltage level %3%",
-                                tmp.get().getConnectable().get().getId(), node, getId()));
-        }
-
         // create the link terminal <-> graph vertex
         m_graph.setVertexObject(node, stdcxx::ref(nodeTerminal));
 
-- 
2.43.0


From 0dea3a6936be172a20312a8c11d505b9c647108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 12/67] fix: recompute the connected components after an HVDC
 line is added or removed

---
 src/iidm/HvdcLine.cpp      | 3 +++
 src/iidm/HvdcLineAdder.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/iidm/HvdcLine.cpp b/src/iidm/HvdcLine.cpp
index 1c0e66b..bf1107c 100644
--- a/src/iidm/HvdcLine.cpp
+++ b/src/iidm/HvdcLine.cpp
@@ -129,6 +129,9 @@ void HvdcLine::remove() {
     m_converterStation1 = stdcxx::ref<HvdcConverterStation>();
     m_converterStation2 = stdcxx::ref<HvdcConverterStation>();
 
+    network.getVariantManager().forEachVariant([&network]() {
+        network.getConnectedComponentsManager().invalidate();
+    });
     network.remove(*this);
 }
 
diff --git a/src/iidm/HvdcLineAdder.cpp b/src/iidm/HvdcLineAdder.cpp
index c24ca9c..2c32d76 100644
--- a/src/iidm/HvdcLineAdder.cpp
+++ b/src/iidm/HvdcLineAdder.cpp
@@ -36,6 +36,9 @@ HvdcLine& HvdcLineAdder::add() {
     std::unique_ptr<HvdcLine> ptrHvdcLine = stdcxx::make_unique<HvdcLine>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_nominalV, m_maxP, *m_convertersMode, m_activePowerSetpoint,
                                                                           converterStation1, converterStation2);
     auto& line = m_network.checkAndAdd<HvdcLine>(std::move(ptrHvdcLine));
+    m_network.getVariantManager().forEachVariant([this]() {
+        m_network.getConnectedComponentsManager().invalidate();
+    });
 
     return line;
 }
-- 
2.43.0


From 1481281a5712d4fadb1c127d73f4555b120685ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 13/67] fix: do not iterate over lists that are modified by the
 removals of voltage levels and substations

---
 src/iidm/Substation.cpp   | 11 +++++++++--
 src/iidm/VoltageLevel.cpp |  4 ++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/iidm/Substation.cpp b/src/iidm/Substation.cpp
index f0d550c..8c6bdf7 100644
--- a/src/iidm/Substation.cpp
+++ b/src/iidm/Substation.cpp
@@ -130,9 +130,16 @@ VoltageLevelAdder Substation::newVoltageLevel() {
 void Substation::remove() {
     Substations::checkRemovability(*this);
 
-    for (VoltageLevel& vl : m_voltageLevels) {
-        // Remove all branches, transformers and HVDC lines
+    // copy the lists of voltage levels and connectables, as they are modified by the removals
+    const std::vector<std::reference_wrapper<VoltageLevel>> voltageLevels(m_voltageLevels.begin(), m_voltageLevels.end());
+    for (VoltageLevel& vl : voltageLevels) {
+        std::vector<std::reference_wrapper<Connectable>> connectables;
         for (Connectable& connectable : vl.getConnectables()) {
+            connectables.emplace_back(connectable);
+        }
+
+        // Remove all branches, transformers and HVDC lines
+        for (Connectable& connectable : connectables) {
             ConnectableType type = connectable.getType();
             if (VoltageLevels::MULTIPLE_TERMINALS_CONNECTABLE_TYPES.find(type) != VoltageLevels::MULTIPLE_TERMINALS_CONNECTABLE_TYPES.end()) {
                 connectable.remove();
diff --git a/src/iidm/VoltageLevel.cpp b/src/iidm/VoltageLevel.cpp
index 312a6ba..54627e5 100644
--- a/src/iidm/VoltageLevel.cpp
+++ b/src/iidm/VoltageLevel.cpp
@@ -238,7 +238,11 @@ void VoltageLevel::remove() {
     VoltageLevels::checkRemovability(*this);
 
     // Remove all connectables
+    std::vector<std::reference_wrapper<Connectable>> connectables;
     for (Connectable& connectable : getConnectables()) {
+        connectables.emplace_back(connectable);
+    }
+    for (Connectable& connectable : connectables) {
         connectable.remove();
     }
 
-- 
2.43.0


From ea6772f5fddadeaf7435df9c2f89383b8be07bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 14/67] fix: refuse a clone before changing anything, and
 accept the same target variant twice

---
 src/iidm/VariantManager.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/iidm/VariantManager.cpp b/src/iidm/VariantManager.cpp
index c38ad1d..f9ef8f1 100644
--- a/src/iidm/VariantManager.cpp
+++ b/src/iidm/VariantManager.cpp
@@ -91,17 +91,23 @@ void VariantManager::cloneVariant(const std::string& sourceVariantId, const std:
     std::lock_guard<std::mutex> lock(m_variantMutex);
 
     unsigned long sourceIndex = getVariantIndex(sourceVariantId);
+
+    // check all the targets before changing anything
+    std::set<std::string> targets;
+    for (const auto& targetVariantId : targetVariantIds) {
+        bool duplicated = !targets.insert(targetVariantId).second;
+        if (!mayOverwrite && (duplicated || m_variantsById.find(targetVariantId) != m_variantsById.end())) {
+            throw PowsyblException(stdcxx::format("Target variant '%1%' already exists", targetVariantId));
+        }
+    }
+
     unsigned long initVariantArraySize = m_variantArraySize;
     unsigned long extendedCount = 0;
     std::set<unsigned long> recycled;
     std::set<unsigned long> overwritten;
-    for (const auto& targetVariantId : targetVariantIds) {
+    for (const auto& targetVariantId : targets) {
         if (m_variantsById.find(targetVariantId) != m_variantsById.end()) {
-            if (mayOverwrite) {
-                overwritten.emplace(m_variantsById[targetVariantId]);
-            } else {
-                throw PowsyblException(stdcxx::format("Target variant '%1%' already exists", targetVariantId));
-            }
+            overwritten.emplace(m_variantsById[targetVariantId]);
         }
         else if (m_unusedIndexes.empty()) {
             // extend variant array size
-- 
2.43.0


From e572109d10f7c748ab153603ad4612db85b26c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:54 +0000
Subject: [PATCH 15/67] fix: allow structural changes and report an error for
 the working variant when it has been removed

---
 include/powsybl/iidm/VariantContextGuard.hpp |  4 +++-
 src/iidm/VariantContextGuard.cpp             | 12 +++++++++---
 src/iidm/VariantManager.cpp                  |  4 ++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/powsybl/iidm/VariantContextGuard.hpp b/include/powsybl/iidm/VariantContextGuard.hpp
index e9ba3bf..4e44860 100644
--- a/include/powsybl/iidm/VariantContextGuard.hpp
+++ b/include/powsybl/iidm/VariantContextGuard.hpp
@@ -8,6 +8,8 @@
 #ifndef POWSYBL_IIDM_VARIANTCONTEXTGUARD_HPP
 #define POWSYBL_IIDM_VARIANTCONTEXTGUARD_HPP
 
+#include <powsybl/stdcxx/optional.hpp>
+
 namespace powsybl {
 
 namespace iidm {
@@ -30,7 +32,7 @@ public:
 private:
     VariantContext& m_context;
 
-    unsigned long m_variantIndex;
+    stdcxx::optional<unsigned long> m_variantIndex;
 };
 
 }  // namespace iidm
diff --git a/src/iidm/VariantContextGuard.cpp b/src/iidm/VariantContextGuard.cpp
index 1734b2b..e1621f1 100644
--- a/src/iidm/VariantContextGuard.cpp
+++ b/src/iidm/VariantContextGuard.cpp
@@ -14,12 +14,18 @@ namespace powsybl {
 namespace iidm {
 
 VariantContextGuard::VariantContextGuard(VariantContext& context) :
-    m_context(context),
-    m_variantIndex(context.getVariantIndex()) {
+    m_context(context) {
+    if (context.isIndexSet()) {
+        m_variantIndex = context.getVariantIndex();
+    }
 }
 
 VariantContextGuard::~VariantContextGuard() noexcept {
-    m_context.setVariantIndex(m_variantIndex);
+    if (m_variantIndex) {
+        m_context.setVariantIndex(*m_variantIndex);
+    } else if (m_context.isIndexSet()) {
+        m_context.resetIfVariantIndexIs(m_context.getVariantIndex());
+    }
 }
 
 }  // namespace iidm
diff --git a/src/iidm/VariantManager.cpp b/src/iidm/VariantManager.cpp
index f9ef8f1..740d30e 100644
--- a/src/iidm/VariantManager.cpp
+++ b/src/iidm/VariantManager.cpp
@@ -198,6 +198,10 @@ const std::string& VariantManager::getWorkingVariantId() const {
         return entry.second == index;
     });
 
+    if (it == m_variantsById.end()) {
+        throw PowsyblException("The working variant has been removed");
+    }
+
     return it->first;
 }
 
-- 
2.43.0


From 115c3701889eb2a7ea861125a8e0a0c0439debb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 16/67] fix: keep the slack terminals of the other variants
 when the variant array shrinks

---
 src/iidm/extensions/SlackTerminal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/extensions/SlackTerminal.cpp b/src/iidm/extensions/SlackTerminal.cpp
index b0f1ca3..a8cc5a5 100644
--- a/src/iidm/extensions/SlackTerminal.cpp
+++ b/src/iidm/extensions/SlackTerminal.cpp
@@ -82,7 +82,7 @@ bool SlackTerminal::isEmpty() const {
 }
 
 void SlackTerminal::reduceVariantArraySize(unsigned long number) {
-    m_terminals.resize(number); // remove elements from the top to avoid moves inside the array
+    m_terminals.resize(m_terminals.size() - number); // remove elements from the top to avoid moves inside the array
 }
 
 void SlackTerminal::reset(Network& network) {
-- 
2.43.0


From 0ed7bde3126aa1655fd15e9968867ee8f472a651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:16 +0000
Subject: [PATCH 17/67] fix: keep the working variant selected by a thread for
 each network

---
 .../ThreadLocalMultipleVariantContext.cpp     | 32 ++++++++++++++-----
 .../ThreadLocalMultipleVariantContext.hpp     | 19 +++++++----
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/iidm/ThreadLocalMultipleVariantContext.cpp b/src/iidm/ThreadLocalMultipleVariantContext.cpp
index 3eb7ab0..041c8ee 100644
--- a/src/iidm/ThreadLocalMultipleVariantContext.cpp
+++ b/src/iidm/ThreadLocalMultipleVariantContext.cpp
@@ -7,6 +7,7 @@
 
 #include "ThreadLocalMultipleVariantContext.hpp"
 
+#include <atomic>
 #include <thread>
 
 #include <powsybl/PowsyblException.hpp>
@@ -16,31 +17,46 @@ namespace powsybl {
 
 namespace iidm {
 
-thread_local stdcxx::optional<unsigned long> ThreadLocalMultipleVariantContext::m_index;
+thread_local std::unordered_map<unsigned long, unsigned long> ThreadLocalMultipleVariantContext::m_indexes;
+
+namespace {
+
+unsigned long nextContextId() {
+    static std::atomic<unsigned long> s_nextId(0);
+    return s_nextId++;
+}
+
+}  // namespace
+
+ThreadLocalMultipleVariantContext::ThreadLocalMultipleVariantContext() :
+    m_id(nextContextId()) {
+}
 
 unsigned long ThreadLocalMultipleVariantContext::getVariantIndex() const {
-    if (m_index) {
-        return *m_index;
+    const auto& it = m_indexes.find(m_id);
+    if (it != m_indexes.end()) {
+        return it->second;
     }
     throw PowsyblException(stdcxx::format("Variant index not set for current thread %1%", std::this_thread::get_id()));
 }
 
 bool ThreadLocalMultipleVariantContext::isIndexSet() const {
-    return static_cast<bool>(m_index);
+    return m_indexes.find(m_id) != m_indexes.end();
 }
 
 void ThreadLocalMultipleVariantContext::reset() {
-    m_index.reset();
+    m_indexes.erase(m_id);
 }
 
 void ThreadLocalMultipleVariantContext::resetIfVariantIndexIs(unsigned long index) {
-    if (m_index && m_index == index) {
-        m_index.reset();
+    const auto& it = m_indexes.find(m_id);
+    if (it != m_indexes.end() && it->second == index) {
+        m_indexes.erase(it);
     }
 }
 
 void ThreadLocalMultipleVariantContext::setVariantIndex(unsigned long index) {
-    m_index = index;
+    m_indexes[m_id] = index;
 }
 
 }  // namespace iidm
diff --git a/src/iidm/ThreadLocalMultipleVariantContext.hpp b/src/iidm/ThreadLocalMultipleVariantContext.hpp
index 0c8d9a1..6756427 100644
--- a/src/iidm/ThreadLocalMultipleVariantContext.hpp
+++ b/src/iidm/ThreadLocalMultipleVariantContext.hpp
@@ -8,8 +8,9 @@
 #ifndef POWSYBL_IIDM_THREADLOCALMULTIPLEVARIANTCONTEXT_HPP
 #define POWSYBL_IIDM_THREADLOCALMULTIPLEVARIANTCONTEXT_HPP
 
+#include <unordered_map>
+
 #include <powsybl/iidm/VariantContext.hpp>
-#include <powsybl/stdcxx/optional.hpp>
 
 namespace powsybl {
 
@@ -26,22 +27,26 @@ public:  // VariantContext
     void setVariantIndex(unsigned long index) override;
 
 public:
-    ThreadLocalMultipleVariantContext() = default;
+    ThreadLocalMultipleVariantContext();
 
-    ThreadLocalMultipleVariantContext(const ThreadLocalMultipleVariantContext&) = default;
+    ThreadLocalMultipleVariantContext(const ThreadLocalMultipleVariantContext&) = delete;
 
-    ThreadLocalMultipleVariantContext(ThreadLocalMultipleVariantContext&&) noexcept = default;
+    ThreadLocalMultipleVariantContext(ThreadLocalMultipleVariantContext&&) noexcept = delete;
 
     ~ThreadLocalMultipleVariantContext() noexcept override = default;
 
-    ThreadLocalMultipleVariantContext& operator=(const ThreadLocalMultipleVariantContext&) = default;
+    ThreadLocalMultipleVariantContext& operator=(const ThreadLocalMultipleVariantContext&) = delete;
 
-    ThreadLocalMultipleVariantContext& operator=(ThreadLocalMultipleVariantContext&&) noexcept = default;
+    ThreadLocalMultipleVariantContext& operator=(ThreadLocalMultipleVariantContext&&) noexcept = delete;
 
     void reset();
 
 private:
-    static thread_local stdcxx::optional<unsigned long> m_index;
+    // index of the working variant of the current thread, by context
+    static thread_local std::unordered_map<unsigned long, unsigned long> m_indexes;
+
+    // identifies this context: never used again, unlike the address of a destroyed context
+    const unsigned long m_id;
 };
 
 }  // namespace iidm
-- 
2.43.0


From ccd004fb95231b2b8d268fdf445e054354008e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:43 +0000
Subject: [PATCH 18/67] fix: refuse an alias for an object which is not in the
 network

---
 include/powsybl/iidm/NetworkIndex.hxx | 6 +++---
 src/iidm/NetworkIndex.cpp             | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/powsybl/iidm/NetworkIndex.hxx b/include/powsybl/iidm/NetworkIndex.hxx
index 813b307..5eeae04 100644
--- a/include/powsybl/iidm/NetworkIndex.hxx
+++ b/include/powsybl/iidm/NetworkIndex.hxx
@@ -40,10 +40,10 @@ T& NetworkIndex::checkAndAdd(std::unique_ptr<T>&& identifiable) {
     }
 
     auto ptrIdentifiable = std::unique_ptr<Identifiable, Deleter>(identifiable.release());
-    for (const std::string& alias : ptrIdentifiable->getAliases()) {
-        addAlias(*ptrIdentifiable, alias);
-    }
     auto it = m_objectsById.emplace(std::make_pair(ptrIdentifiable->getId(), std::move(ptrIdentifiable)));
+    for (const std::string& alias : it.first->second->getAliases()) {
+        addAlias(*it.first->second, alias);
+    }
 
     std::reference_wrapper<Identifiable> refIdentifiable = *it.first->second;
     m_objectsByType[typeid(T)].emplace_back(refIdentifiable);
diff --git a/src/iidm/NetworkIndex.cpp b/src/iidm/NetworkIndex.cpp
index 5e41e5d..f48d872 100644
--- a/src/iidm/NetworkIndex.cpp
+++ b/src/iidm/NetworkIndex.cpp
@@ -51,6 +51,11 @@ NetworkIndex::NetworkIndex(Network& network, NetworkIndex&& networkIndex) noexce
 }
 
 bool NetworkIndex::addAlias(const Identifiable& obj, const std::string& alias) {
+    const auto& itObj = m_objectsById.find(obj.getId());
+    if (itObj == m_objectsById.end() || !stdcxx::areSame(*itObj->second, obj)) {
+        // calculated buses, for instance, are not objects of the network
+        throw PowsyblException(stdcxx::format("Object (%1%) '%2%' cannot have an alias because it is not indexed in the network", stdcxx::demangle(obj), obj.getId()));
+    }
     auto objectIter = m_objectsById.find(alias);
     if (objectIter != m_objectsById.end()) {
         const Identifiable& aliasConflict = *objectIter->second;
-- 
2.43.0


From 3f9c0def3209897a766049e61799c67694a4686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 19/67] fix: do not keep references to the terminals of a
 removed connectable

---
 .../iidm/RemoteReactivePowerControl.hpp       |  2 +
 .../iidm/src/RemoteReactivePowerControl.cpp   |  6 +++
 include/powsybl/iidm/Connectable.hpp          |  9 ++++
 include/powsybl/iidm/Extension.hpp            |  6 +++
 include/powsybl/iidm/TapChanger.hpp           |  6 +++
 include/powsybl/iidm/TapChanger.hxx           |  9 ++++
 .../powsybl/iidm/extensions/SlackTerminal.hpp |  2 +
 src/iidm/Connectable.cpp                      | 54 +++++++++++++++++++
 src/iidm/Extension.cpp                        |  4 ++
 src/iidm/extensions/SlackTerminal.cpp         |  8 +++
 10 files changed, 106 insertions(+)

diff --git a/extensions/iidm/include/powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp b/extensions/iidm/include/powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp
index 5cc2a20..b632a0e 100644
--- a/extensions/iidm/include/powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp
+++ b/extensions/iidm/include/powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp
@@ -30,6 +30,8 @@ public:  // Extension
 
     const std::type_index& getType() const override;
 
+    void onRemoval(const Connectable& connectable) override;
+
 public:
     ~RemoteReactivePowerControl() noexcept override = default;
 
diff --git a/extensions/iidm/src/RemoteReactivePowerControl.cpp b/extensions/iidm/src/RemoteReactivePowerControl.cpp
index 1ac4025..b889a2c 100644
--- a/extensions/iidm/src/RemoteReactivePowerControl.cpp
+++ b/extensions/iidm/src/RemoteReactivePowerControl.cpp
@@ -59,6 +59,12 @@ bool RemoteReactivePowerControl::isEnabled() const {
     return m_enabled;
 }
 
+void RemoteReactivePowerControl::onRemoval(const Connectable& connectable) {
+    if (stdcxx::areSame(m_regulatingTerminal.get().getConnectable().get(), connectable)) {
+        m_regulatingTerminal = getExtendable<Generator>().get().getTerminal();
+    }
+}
+
 }  // namespace iidm
 
 }  // namespace extensions
diff --git a/include/powsybl/iidm/Connectable.hpp b/include/powsybl/iidm/Connectable.hpp
index ea868c5..c846d77 100644
--- a/include/powsybl/iidm/Connectable.hpp
+++ b/include/powsybl/iidm/Connectable.hpp
@@ -54,6 +54,15 @@ protected:
 
     Terminal& getTerminal(unsigned long index);
 
+private:
+    template <typename RegulatingInjection>
+    void releaseRegulatingTerminal(RegulatingInjection& injection);
+
+    template <typename TapChangerHolder>
+    void releaseTapChangers(TapChangerHolder& holder);
+
+    void releaseTerminals();
+
 private:
     ConnectableType m_connectableType;
 
diff --git a/include/powsybl/iidm/Extension.hpp b/include/powsybl/iidm/Extension.hpp
index e86363a..37d63d5 100644
--- a/include/powsybl/iidm/Extension.hpp
+++ b/include/powsybl/iidm/Extension.hpp
@@ -19,6 +19,7 @@ namespace powsybl {
 
 namespace iidm {
 
+class Connectable;
 class Extendable;
 
 class Extension {
@@ -45,6 +46,11 @@ public:
 
     virtual const std::type_index& getType() const = 0;
 
+    /**
+     * Called when a connectable is about to be removed from the network: an extension must not keep references to its terminals
+     */
+    virtual void onRemoval(const Connectable& connectable);
+
     void setExtendable(Extendable& extendable);
 
     void setExtendable(const stdcxx::Reference<Extendable>& extendable);
diff --git a/include/powsybl/iidm/TapChanger.hpp b/include/powsybl/iidm/TapChanger.hpp
index a738d54..f3b6abc 100644
--- a/include/powsybl/iidm/TapChanger.hpp
+++ b/include/powsybl/iidm/TapChanger.hpp
@@ -24,6 +24,7 @@ namespace iidm {
 class Identifiable;
 class Network;
 class Terminal;
+class Connectable;
 class VariantManagerHolder;
 
 template<typename H, typename C, typename S>
@@ -92,6 +93,11 @@ protected:
 
     H& getParent();
 
+private:
+    void onRemoval(const Connectable& connectable);
+
+    friend class Connectable;
+
 private:
     H& m_parent;
 
diff --git a/include/powsybl/iidm/TapChanger.hxx b/include/powsybl/iidm/TapChanger.hxx
index 56afb8e..cb9963a 100644
--- a/include/powsybl/iidm/TapChanger.hxx
+++ b/include/powsybl/iidm/TapChanger.hxx
@@ -156,6 +156,15 @@ bool TapChanger<H, C, S>::isRegulating() const {
     return m_regulating.at(getNetwork().getVariantIndex());
 }
 
+template<typename H, typename C, typename S>
+void TapChanger<H, C, S>::onRemoval(const Connectable& connectable) {
+    if (m_regulationTerminal && stdcxx::areSame(m_regulationTerminal.get().getConnectable().get(), connectable)) {
+        // the regulated terminal is going to be removed: the regulation is not possible any more, whatever the variant
+        std::fill(m_regulating.begin(), m_regulating.end(), false);
+        m_regulationTerminal = stdcxx::Reference<Terminal>();
+    }
+}
+
 template<typename H, typename C, typename S>
 void TapChanger<H, C, S>::reduceVariantArraySize(unsigned long number) {
     m_tapPosition.resize(m_tapPosition.size() - number);
diff --git a/include/powsybl/iidm/extensions/SlackTerminal.hpp b/include/powsybl/iidm/extensions/SlackTerminal.hpp
index 195e665..0bd4f2a 100644
--- a/include/powsybl/iidm/extensions/SlackTerminal.hpp
+++ b/include/powsybl/iidm/extensions/SlackTerminal.hpp
@@ -37,6 +37,8 @@ public:  // Extension
 
     const std::type_index& getType() const override;
 
+    void onRemoval(const Connectable& connectable) override;
+
 public:  // MultiVariantObject
     void allocateVariantArrayElement(const std::set<unsigned long>& indexes, unsigned long sourceIndex) override;
 
diff --git a/src/iidm/Connectable.cpp b/src/iidm/Connectable.cpp
index 4507a25..f7785ad 100644
--- a/src/iidm/Connectable.cpp
+++ b/src/iidm/Connectable.cpp
@@ -7,7 +7,14 @@
 
 #include <powsybl/iidm/Connectable.hpp>
 
+#include <powsybl/iidm/Generator.hpp>
 #include <powsybl/iidm/Network.hpp>
+#include <powsybl/iidm/PhaseTapChanger.hpp>
+#include <powsybl/iidm/RatioTapChanger.hpp>
+#include <powsybl/iidm/ShuntCompensator.hpp>
+#include <powsybl/iidm/StaticVarCompensator.hpp>
+#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
+#include <powsybl/iidm/TwoWindingsTransformer.hpp>
 #include <powsybl/iidm/VoltageLevel.hpp>
 
 namespace powsybl {
@@ -92,9 +99,56 @@ void Connectable::reduceVariantArraySize(unsigned long number) {
     }
 }
 
+template <typename TapChangerHolder>
+void Connectable::releaseTapChangers(TapChangerHolder& holder) {
+    if (holder.hasRatioTapChanger()) {
+        holder.getRatioTapChanger().onRemoval(*this);
+    }
+    if (holder.hasPhaseTapChanger()) {
+        holder.getPhaseTapChanger().onRemoval(*this);
+    }
+}
+
+template <typename RegulatingInjection>
+void Connectable::releaseRegulatingTerminal(RegulatingInjection& injection) {
+    if (stdcxx::areSame(injection.getRegulatingTerminal().getConnectable().get(), *this)) {
+        injection.setRegulatingTerminal(stdcxx::Reference<Terminal>());  // local regulation
+    }
+}
+
+void Connectable::releaseTerminals() {
+    Network& network = getNetwork();
+
+    for (Generator& generator : network.getGenerators()) {
+        releaseRegulatingTerminal(generator);
+    }
+    for (ShuntCompensator& shunt : network.getShuntCompensators()) {
+        releaseRegulatingTerminal(shunt);
+    }
+    for (StaticVarCompensator& svc : network.getStaticVarCompensators()) {
+        releaseRegulatingTerminal(svc);
+    }
+    for (TwoWindingsTransformer& transformer : network.getTwoWindingsTransformers()) {
+        releaseTapChangers(transformer);
+    }
+    for (ThreeWindingsTransformer& transformer : network.getThreeWindingsTransformers()) {
+        for (ThreeWindingsTransformer::Leg& leg : transformer.getLegs()) {
+            releaseTapChangers(leg);
+        }
+    }
+    for (Identifiable& identifiable : network.getIdentifiables()) {
+        for (Extension& extension : identifiable.getExtensions()) {
+            extension.onRemoval(*this);
+        }
+    }
+}
+
 void Connectable::remove() {
     Network& network = getNetwork();
 
+    // nothing may keep a reference to the terminals that are going to be deleted
+    releaseTerminals();
+
     for (auto& terminal : m_terminals) {
         VoltageLevel& voltageLevel = terminal->getVoltageLevel();
         voltageLevel.detach(*terminal);
diff --git a/src/iidm/Extension.cpp b/src/iidm/Extension.cpp
index 64f968f..6cd8a06 100644
--- a/src/iidm/Extension.cpp
+++ b/src/iidm/Extension.cpp
@@ -18,6 +18,10 @@ Extension::Extension(powsybl::iidm::Extendable& extendable) :
     m_extendable(extendable) {
 }
 
+void Extension::onRemoval(const Connectable& /*connectable*/) {
+    // nothing to do
+}
+
 void Extension::setExtendable(powsybl::iidm::Extendable& extendable) {
     setExtendable(stdcxx::ref(extendable));
 }
diff --git a/src/iidm/extensions/SlackTerminal.cpp b/src/iidm/extensions/SlackTerminal.cpp
index a8cc5a5..ebe84ed 100644
--- a/src/iidm/extensions/SlackTerminal.cpp
+++ b/src/iidm/extensions/SlackTerminal.cpp
@@ -81,6 +81,14 @@ bool SlackTerminal::isEmpty() const {
     return it == m_terminals.end();
 }
 
+void SlackTerminal::onRemoval(const Connectable& connectable) {
+    for (auto& terminal : m_terminals) {
+        if (terminal && stdcxx::areSame(terminal.get().getConnectable().get(), connectable)) {
+            terminal = stdcxx::ref<Terminal>();
+        }
+    }
+}
+
 void SlackTerminal::reduceVariantArraySize(unsigned long number) {
     m_terminals.resize(m_terminals.size() - number); // remove elements from the top to avoid moves inside the array
 }
-- 
2.43.0


From 30359235cea105ad1e797a8ad1cd2881fe0f1114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 20/67] fix: ignore the extensions that cannot be serialized
 instead of failing the export

---
 src/iidm/converter/xml/NetworkXml.cpp | 45 ++++++++++++++++-----------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/iidm/converter/xml/NetworkXml.cpp b/src/iidm/converter/xml/NetworkXml.cpp
index 1fbf7cb..437edde 100644
--- a/src/iidm/converter/xml/NetworkXml.cpp
+++ b/src/iidm/converter/xml/NetworkXml.cpp
@@ -76,16 +76,16 @@ stdcxx::CReference<ExtensionXmlSerializer> getExtensionSerializer(const ExportOp
         serializer = stdcxx::cref(extensionProviders.findProviderOrThrowException(extension.getName()));
     } else {
         serializer = extensionProviders.findProvider(extension.getName());
-        if (serializer) {
-            if (!serializer.get().isSerializable(extension)) {
-                serializer.reset();
-            }
-        } else {
+        if (!serializer) {
             logging::Logger& logger = logging::LoggerFactory::getLogger<NetworkXml>();
             logger.warn("No extension XML serializer for %1%", extension.getName());
         }
     }
 
+    if (serializer && !serializer.get().isSerializable(extension)) {
+        serializer.reset();
+    }
+
     return serializer;
 }
 
@@ -166,20 +166,16 @@ void writeExtensionNamespaces(const Network& network, NetworkXmlWriterContext& c
     }
 }
 
-void writeExtension(const Extension& extension, NetworkXmlWriterContext& context) {
+void writeExtension(const Extension& extension, const ExtensionXmlSerializer& serializer, NetworkXmlWriterContext& context) {
     powsybl::xml::XmlStreamWriter& writer = context.getWriter();
-    stdcxx::CReference<ExtensionXmlSerializer> serializer = getExtensionSerializer(context.getOptions(), extension);
-    if (!serializer) {
-        throw AssertionError(stdcxx::format("Extension XML Serializer of %1% should not be null", extension.getName()));
-    }
 
     const std::string& version = context.getExtensionVersion(extension.getName());
     if (!version.empty()) {
-        serializer.get().checkExtensionVersionSupported(version);
+        serializer.checkExtensionVersionSupported(version);
     }
 
-    writer.writeStartElement(serializer.get().getNamespacePrefix(), extension.getName());
-    serializer.get().write(extension, context);
+    writer.writeStartElement(serializer.getNamespacePrefix(), extension.getName());
+    serializer.write(extension, context);
     writer.writeEndElement();
 }
 
@@ -188,14 +184,27 @@ void writeExtensions(const Network& network, NetworkXmlWriterContext& context) {
         if (!context.isExportedEquipment(identifiable.getId()) || boost::empty(identifiable.getExtensions()) || !context.getOptions().hasAtLeastOneExtension(identifiable.getExtensions())) {
             continue;
         }
-        context.getWriter().writeStartElement(context.getVersion().getPrefix(), EXTENSION);
-        context.getWriter().writeAttribute(ID, context.getAnonymizer().anonymizeString(identifiable.getId()));
+
+        // Extensions that cannot be serialized are ignored
+        bool started = false;
         for (const auto& extension : identifiable.getExtensions()) {
-            if (context.getOptions().withExtension(extension.getName())) {
-                writeExtension(extension, context);
+            if (!context.getOptions().withExtension(extension.getName())) {
+                continue;
+            }
+            stdcxx::CReference<ExtensionXmlSerializer> serializer = getExtensionSerializer(context.getOptions(), extension);
+            if (!serializer) {
+                continue;
+            }
+            if (!started) {
+                context.getWriter().writeStartElement(context.getVersion().getPrefix(), EXTENSION);
+                context.getWriter().writeAttribute(ID, context.getAnonymizer().anonymizeString(identifiable.getId()));
+                started = true;
             }
+            writeExtension(extension, serializer.get(), context);
+        }
+        if (started) {
+            context.getWriter().writeEndElement();
         }
-        context.getWriter().writeEndElement();
     }
 }
 
-- 
2.43.0


From 03570d722e573d22f03883154307fb18bfc07477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 21/67] fix: let the ranges of distinct equipment be iterated
 several times

---
 include/powsybl/iidm/util/DistinctPredicate.hpp | 12 +++++++++---
 src/iidm/util/DistinctPredicate.cpp             | 12 +-----------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/include/powsybl/iidm/util/DistinctPredicate.hpp b/include/powsybl/iidm/util/DistinctPredicate.hpp
index f7fa21b..59fa65c 100644
--- a/include/powsybl/iidm/util/DistinctPredicate.hpp
+++ b/include/powsybl/iidm/util/DistinctPredicate.hpp
@@ -8,7 +8,6 @@
 #ifndef POWSYBL_IIDM_UTIL_DISTINCTPREDICATE_HPP
 #define POWSYBL_IIDM_UTIL_DISTINCTPREDICATE_HPP
 
-#include <memory>
 #include <set>
 #include <string>
 
@@ -18,9 +17,12 @@ namespace iidm {
 
 class Identifiable;
 
+/**
+ * Each copy of the predicate has its own memory, so that a range filtered with it can be iterated several times.
+ */
 class DistinctPredicate {
 public:
-    DistinctPredicate();
+    DistinctPredicate() = default;
 
     ~DistinctPredicate() = default;
 
@@ -28,10 +30,14 @@ public:
 
     DistinctPredicate(DistinctPredicate&&) = default;
 
+    DistinctPredicate& operator=(const DistinctPredicate&) = default;
+
+    DistinctPredicate& operator=(DistinctPredicate&&) = default;
+
     bool operator()(const Identifiable& identifiable) const;
 
 private:
-    std::shared_ptr<std::set<std::string> > m_ids;
+    mutable std::set<std::string> m_ids;
 };
 
 }  // namespace iidm
diff --git a/src/iidm/util/DistinctPredicate.cpp b/src/iidm/util/DistinctPredicate.cpp
index 9015cfd..e47cdf4 100644
--- a/src/iidm/util/DistinctPredicate.cpp
+++ b/src/iidm/util/DistinctPredicate.cpp
@@ -14,18 +14,8 @@ namespace powsybl {
 
 namespace iidm {
 
-DistinctPredicate::DistinctPredicate() :
-    m_ids(std::make_shared<std::set<std::string>>()) {
-
-}
-
 bool DistinctPredicate::operator()(const Identifiable& identifiable) const {
-    if (m_ids->find(identifiable.getId()) == m_ids->end()) {
-        m_ids->insert(identifiable.getId());
-        return true;
-    }
-
-    return false;
+    return m_ids.insert(identifiable.getId()).second;
 }
 
 }  // namespace iidm
-- 
2.43.0


From 9de59507f3f6a11d7c3f4a20164f83e73bd6a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 22/67] fix: leave the breakers unchanged when a disconnection
 is refused, and connect through closable paths only

---
 src/iidm/NodeBreakerVoltageLevel.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index 5abaec0..abdad5f 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -102,15 +102,15 @@ bool NodeBreakerVoltageLevel::connect(Terminal& terminal) {
 
     unsigned long node = nodeTerminal.getNode();
 
-    // find all paths starting from the current terminal to a busbar section that does not contain an open disconnector
-    // paths are already sorted
+    // find all paths starting from the current terminal to a busbar section that does not contain an open switch which is
+    // not a breaker, as only the breakers are closed. Paths are already sorted
     node_breaker_voltage_level::Graph::VertexVisitor isBusbarSection = [](const stdcxx::Reference<NodeTerminal>& refTerminal) {
         return static_cast<bool>(refTerminal) && refTerminal.get().getConnectable().get().getType() == ConnectableType::BUSBAR_SECTION;
     };
-    node_breaker_voltage_level::Graph::EdgeVisitor isOpenedDisconnector = [](const stdcxx::Reference<Switch>& aSwitch) {
-        return aSwitch && aSwitch.get().getKind() == SwitchKind::DISCONNECTOR && aSwitch.get().isOpen();
+    node_breaker_voltage_level::Graph::EdgeVisitor cannotBeClosed = [](const stdcxx::Reference<Switch>& aSwitch) {
+        return aSwitch && aSwitch.get().getKind() != SwitchKind::BREAKER && aSwitch.get().isOpen();
     };
-    const auto& paths = m_graph.findAllPaths(node, isBusbarSection, isOpenedDisconnector);
+    const auto& paths = m_graph.findAllPaths(node, isBusbarSection, cannotBeClosed);
 
     bool connected = false;
     if (!paths.empty()) {
@@ -170,14 +170,14 @@ bool NodeBreakerVoltageLevel::disconnect(Terminal& terminal) {
         return false;
     }
 
+    // The breakers are opened only if all the paths can be open
+    std::vector<std::reference_wrapper<Switch> > breakers;
     for (const auto& path : paths) {
         bool pathOpen = false;
         for (unsigned long e : path) {
             const auto& aSwitch = m_graph.getEdgeObject(e);
             if (aSwitch && aSwitch.get().getKind() == SwitchKind::BREAKER) {
-                if (!aSwitch.get().isOpen()) {
-                    aSwitch.get().setOpen(true);
-                }
+                breakers.emplace_back(aSwitch.get());
                 // Open one breaker is sufficient to disconnect the terminal
                 pathOpen = true;
                 break;
@@ -191,6 +191,12 @@ bool NodeBreakerVoltageLevel::disconnect(Terminal& terminal) {
     }
 
     // For all paths, a breaker has been found, the terminal is disconnected
+    for (Switch& breaker : breakers) {
+        if (!breaker.isOpen()) {
+            breaker.setOpen(true);
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From 62195deb8736fd8f1e3af23f86704a59afddb882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 23/67] fix: keep the aliases when a network is moved

---
 src/iidm/NetworkIndex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iidm/NetworkIndex.cpp b/src/iidm/NetworkIndex.cpp
index f48d872..4ac38ce 100644
--- a/src/iidm/NetworkIndex.cpp
+++ b/src/iidm/NetworkIndex.cpp
@@ -39,7 +39,8 @@ void NetworkIndex::Deleter::operator()(Identifiable* ptr) const {
 
 NetworkIndex::NetworkIndex(Network& network, NetworkIndex&& networkIndex) noexcept :
     m_objectsById(std::move(networkIndex.m_objectsById)),
-    m_objectsByType(std::move(networkIndex.m_objectsByType)) {
+    m_objectsByType(std::move(networkIndex.m_objectsByType)),
+    m_idByAlias(std::move(networkIndex.m_idByAlias)) {
 
     // Replace the references to the old network by the new one
     m_objectsById[network.getId()].reset(&network);
-- 
2.43.0


From ac93bc969f882b80c92ea96ed8ccc18f4a14059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 24/67] fix: allow to move a network which has removed variants

---
 include/powsybl/iidm/VariantArray.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/VariantArray.hxx b/include/powsybl/iidm/VariantArray.hxx
index b4a103a..ebb1f0a 100644
--- a/include/powsybl/iidm/VariantArray.hxx
+++ b/include/powsybl/iidm/VariantArray.hxx
@@ -34,7 +34,8 @@ VariantArray<Owner, V, Dummy>::VariantArray(Owner& owner, VariantArray&& variant
     m_owner(owner) {
 
     for (auto& variant : variantArray.m_variants) {
-        m_variants.emplace_back(stdcxx::make_unique<V>(owner, std::move(*variant)));
+        // there is no variant at the unused indexes
+        m_variants.emplace_back(variant ? stdcxx::make_unique<V>(owner, std::move(*variant)) : std::unique_ptr<V>());
     }
 }
 
-- 
2.43.0


From 735c6ecd021b302311a463a989d78fcf47770bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 25/67] fix: allow to move a network which has an extension

---
 include/powsybl/iidm/Extension.hpp | 3 +++
 src/iidm/Extendable.cpp            | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/Extension.hpp b/include/powsybl/iidm/Extension.hpp
index 37d63d5..d4f5142 100644
--- a/include/powsybl/iidm/Extension.hpp
+++ b/include/powsybl/iidm/Extension.hpp
@@ -58,6 +58,9 @@ public:
 protected:
     explicit Extension(Extendable& extendable);
 
+private:
+    friend class Extendable;
+
 private:
     virtual void assertExtendable(const stdcxx::Reference<Extendable>& extendable) const = 0;
 
diff --git a/src/iidm/Extendable.cpp b/src/iidm/Extendable.cpp
index 2b14f44..3abc139 100644
--- a/src/iidm/Extendable.cpp
+++ b/src/iidm/Extendable.cpp
@@ -22,7 +22,8 @@ Extendable::Extendable(Extendable&& extendable) noexcept :
     m_extensionsByType(std::move(extendable.m_extensionsByType)) {
 
     for (auto& it : m_extensionsByName) {
-        it.second->setExtendable(*this);
+        // the extendable is not fully constructed yet and is valid for its extensions: there is nothing to check
+        it.second->m_extendable = stdcxx::ref(*this);
     }
 }
 
-- 
2.43.0


From e7c8caaa773d18ad30642794d3132d68fb73a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 26/67] fix: visit every reachable terminal once in the
 topology traversals

---
 src/iidm/BusBreakerVoltageLevel.cpp  | 20 ++++++++++----------
 src/iidm/NodeBreakerVoltageLevel.cpp |  9 +++------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 4061a83..41b3ad3 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -388,7 +388,8 @@ void BusBreakerVoltageLevel::traverse(BusTerminal& terminal, VoltageLevel::Topol
 }
 
 void BusBreakerVoltageLevel::traverse(BusTerminal& terminal, VoltageLevel::TopologyTraverser& traverser, TerminalSet& traversedTerminals) const {
-    if (traversedTerminals.find(terminal) != traversedTerminals.end()) {
+    // each terminal is visited once, whatever the traverser decided
+    if (!traversedTerminals.emplace(terminal).second) {
         return;
     }
 
@@ -396,15 +397,13 @@ void BusBreakerVoltageLevel::traverse(BusTerminal& terminal, VoltageLevel::Topol
 
     // check if we are allowed to traverse the terminal itself
     if (traverser.traverse(terminal, terminal.isConnected())) {
-        traversedTerminals.emplace(terminal);
-
         addNextTerminals(terminal, nextTerminals);
 
         // then check we can traverse terminal connected to same bus
         unsigned long v = *getVertex(terminal.getConnectableBusId(), true);
         ConfiguredBus& bus = m_graph.getVertexObject(v);
         for (Terminal& t : bus.getTerminals()) {
-            if (!stdcxx::areSame(t, terminal) && traverser.traverse(t, t.isConnected())) {
+            if (traversedTerminals.emplace(t).second && traverser.traverse(t, t.isConnected())) {
                 addNextTerminals(t, nextTerminals);
             }
         }
@@ -418,13 +417,14 @@ void BusBreakerVoltageLevel::traverse(BusTerminal& terminal, VoltageLevel::Topol
                     return math::TraverseResult::CONTINUE;
                 }
 
-                BusTerminal& otherTerminal = *otherBus.getTerminals().begin();
-                if (traverser.traverse(otherTerminal, otherTerminal.isConnected())) {
-                    traversedTerminals.emplace(otherTerminal);
-
-                    addNextTerminals(otherTerminal, nextTerminals);
-                    return math::TraverseResult::CONTINUE;
+                math::TraverseResult result = math::TraverseResult::TERMINATE;
+                for (Terminal& t : otherBus.getTerminals()) {
+                    if (traversedTerminals.emplace(t).second && traverser.traverse(t, t.isConnected())) {
+                        addNextTerminals(t, nextTerminals);
+                        result = math::TraverseResult::CONTINUE;
+                    }
                 }
+                return result;
             }
             return math::TraverseResult::TERMINATE;
         });
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index abdad5f..2587822 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -420,13 +420,12 @@ void NodeBreakerVoltageLevel::traverse(NodeTerminal& terminal, VoltageLevel::Top
 }
 
 void NodeBreakerVoltageLevel::traverse(NodeTerminal& terminal, VoltageLevel::TopologyTraverser& traverser, TerminalSet& traversedTerminals) const {
-    if (traversedTerminals.find(terminal) != traversedTerminals.end()) {
+    // each terminal is visited once, whatever the traverser decided
+    if (!traversedTerminals.emplace(terminal).second) {
         return;
     }
 
     if (traverser.traverse(terminal, true)) {
-        traversedTerminals.emplace(terminal);
-
         unsigned long node = terminal.getNode();
         TerminalSet nextTerminals;
 
@@ -440,9 +439,7 @@ void NodeBreakerVoltageLevel::traverse(NodeTerminal& terminal, VoltageLevel::Top
                 if (!otherTerminal) {
                     return math::TraverseResult::CONTINUE;
                 }
-                if (traverser.traverse(otherTerminal.get(), true)) {
-                    traversedTerminals.emplace(otherTerminal.get());
-
+                if (traversedTerminals.emplace(otherTerminal.get()).second && traverser.traverse(otherTerminal.get(), true)) {
                     addNextTerminals(otherTerminal.get(), nextTerminals);
                     return math::TraverseResult::CONTINUE;
                 }
-- 
2.43.0


From 591c1edf29ce5fe95bbee19810a032167d7a4c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 27/67] fix: read the aliases and properties of a bus up to the
 end of the bus

---
 src/iidm/converter/xml/BusXml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/BusXml.cpp b/src/iidm/converter/xml/BusXml.cpp
index d8381f4..6a504f2 100644
--- a/src/iidm/converter/xml/BusXml.cpp
+++ b/src/iidm/converter/xml/BusXml.cpp
@@ -38,7 +38,7 @@ Bus& BusXml::readRootElementAttributes(BusAdder& adder, NetworkXmlReaderContext&
 }
 
 void BusXml::readSubElements(Bus& bus, NetworkXmlReaderContext& context) const {
-    context.getReader().readUntilEndElement(SUBSTATION, [this, &bus, &context]() {
+    context.getReader().readUntilEndElement(BUS, [this, &bus, &context]() {
         AbstractIdentifiableXml::readSubElements(bus, context);
     });
 }
-- 
2.43.0


From 1a6b7683256e2c5a5ab26be350f48177d2312170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 28/67] fix: leave out what an older version of the format does
 not know

---
 src/iidm/converter/xml/AliasesXml.cpp  | 3 +++
 src/iidm/converter/xml/IidmXmlUtil.cpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/AliasesXml.cpp b/src/iidm/converter/xml/AliasesXml.cpp
index d01f9a9..ec2f810 100644
--- a/src/iidm/converter/xml/AliasesXml.cpp
+++ b/src/iidm/converter/xml/AliasesXml.cpp
@@ -35,6 +35,9 @@ void AliasesXml::read(Identifiable& identifiable, const NetworkXmlReaderContext&
 
 void AliasesXml::write(const Identifiable& identifiable, const std::string& rootElementName, NetworkXmlWriterContext& context) {
     IidmXmlUtil::assertMinimumVersionIfNotDefault(identifiable.hasAliases(), rootElementName, ALIAS, ErrorMessage::NOT_DEFAULT_NOT_SUPPORTED, IidmXmlVersion::V1_3(), context);
+    if (context.getVersion() < IidmXmlVersion::V1_3()) {
+        return;
+    }
     for (const std::string& alias : identifiable.getAliases()) {
         context.getWriter().writeStartElement(context.getVersion().getPrefix(), ALIAS);
         IidmXmlUtil::runFromMinimumVersion(IidmXmlVersion::V1_4(), context.getVersion(), [&context, &alias, &identifiable]() {
diff --git a/src/iidm/converter/xml/IidmXmlUtil.cpp b/src/iidm/converter/xml/IidmXmlUtil.cpp
index d47836e..8de64c8 100644
--- a/src/iidm/converter/xml/IidmXmlUtil.cpp
+++ b/src/iidm/converter/xml/IidmXmlUtil.cpp
@@ -103,7 +103,7 @@ void IidmXmlUtil::assertMinimumVersionIfNotDefault(bool valueIsNotDefault, const
 void IidmXmlUtil::assertMinimumVersionAndRunIfNotDefault(bool valueIsNotDefault, const std::string& rootElementName, const std::string& elementName, const char* errorMessage, const IidmXmlVersion& minVersion, const NetworkXmlWriterContext& context, const std::function<void()>& runnable) {
     if (valueIsNotDefault) {
         assertMinimumVersion(rootElementName, elementName, errorMessage, minVersion, context);
-        runnable();
+        runFromMinimumVersion(minVersion, context.getVersion(), runnable);
     }
 }
 
-- 
2.43.0


From 1d162159348c1a19ef6021d3dbbf25deb56bddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 29/67] fix: export bus/breaker switches in anonymised
 documents

---
 src/iidm/converter/xml/VoltageLevelXml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iidm/converter/xml/VoltageLevelXml.cpp b/src/iidm/converter/xml/VoltageLevelXml.cpp
index dd4524c..881c6f5 100644
--- a/src/iidm/converter/xml/VoltageLevelXml.cpp
+++ b/src/iidm/converter/xml/VoltageLevelXml.cpp
@@ -177,8 +177,8 @@ void VoltageLevelXml::writeBusBreakerTopology(const VoltageLevel& voltageLevel,
         BusXml::getInstance().write(bus, voltageLevel, context);
     }
     for (const Switch& sw : voltageLevel.getBusBreakerView().getSwitches()) {
-        const Bus& b1 = voltageLevel.getBusBreakerView().getBus1(context.getAnonymizer().anonymizeString(sw.getId()));
-        const Bus& b2 = voltageLevel.getBusBreakerView().getBus2(context.getAnonymizer().anonymizeString(sw.getId()));
+        const Bus& b1 = voltageLevel.getBusBreakerView().getBus1(sw.getId());
+        const Bus& b2 = voltageLevel.getBusBreakerView().getBus2(sw.getId());
         if (!context.getFilter().test(b1) || !context.getFilter().test(b2)) {
             continue;
         }
-- 
2.43.0


From 019345de78f4d12a59b2393f57c7e0e90762b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 30/67] fix: do not write the identifiers of converter stations
 in anonymised documents

---
 src/iidm/converter/xml/HvdcLineXml.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/iidm/converter/xml/HvdcLineXml.cpp b/src/iidm/converter/xml/HvdcLineXml.cpp
index c59f78d..049a9c6 100644
--- a/src/iidm/converter/xml/HvdcLineXml.cpp
+++ b/src/iidm/converter/xml/HvdcLineXml.cpp
@@ -8,6 +8,7 @@
 #include "HvdcLineXml.hpp"
 
 #include <powsybl/iidm/Enum.hpp>
+#include <powsybl/iidm/converter/Anonymizer.hpp>
 
 namespace powsybl {
 
@@ -36,8 +37,8 @@ HvdcLine& HvdcLineXml::readRootElementAttributes(HvdcLineAdder& adder, NetworkXm
     const auto& convertersMode = Enum::fromString<HvdcLine::ConvertersMode>(context.getReader().getAttributeValue(CONVERTERS_MODE));
     const auto& activePowerSetpoint = context.getReader().getAttributeValue<double>(ACTIVE_POWER_SETPOINT);
     const auto& maxP = context.getReader().getAttributeValue<double>(MAX_P);
-    const std::string& converterStation1 = context.getReader().getAttributeValue(CONVERTER_STATION1);
-    const std::string& converterStation2 = context.getReader().getAttributeValue(CONVERTER_STATION2);
+    const std::string& converterStation1 = context.getAnonymizer().deanonymizeString(context.getReader().getAttributeValue(CONVERTER_STATION1));
+    const std::string& converterStation2 = context.getAnonymizer().deanonymizeString(context.getReader().getAttributeValue(CONVERTER_STATION2));
     return adder.setR(r)
         .setNominalV(nominalV)
         .setConvertersMode(convertersMode)
@@ -60,8 +61,8 @@ void HvdcLineXml::writeRootElementAttributes(const HvdcLine& line, const Network
     context.getWriter().writeAttribute(CONVERTERS_MODE, Enum::toString(line.getConvertersMode()));
     context.getWriter().writeAttribute(ACTIVE_POWER_SETPOINT, line.getActivePowerSetpoint());
     context.getWriter().writeAttribute(MAX_P, line.getMaxP());
-    context.getWriter().writeAttribute(CONVERTER_STATION1, line.getConverterStation1().get().getId());
-    context.getWriter().writeAttribute(CONVERTER_STATION2, line.getConverterStation2().get().getId());
+    context.getWriter().writeAttribute(CONVERTER_STATION1, context.getAnonymizer().anonymizeString(line.getConverterStation1().get().getId()));
+    context.getWriter().writeAttribute(CONVERTER_STATION2, context.getAnonymizer().anonymizeString(line.getConverterStation2().get().getId()));
 }
 
 }  // namespace xml
-- 
2.43.0


From 6833fda52a98329997898c0ee421158541b7a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 31/67] fix: never give the same anonymous code to two strings

---
 src/iidm/converter/SimpleAnonymizer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iidm/converter/SimpleAnonymizer.cpp b/src/iidm/converter/SimpleAnonymizer.cpp
index 95c6f2c..d487068 100644
--- a/src/iidm/converter/SimpleAnonymizer.cpp
+++ b/src/iidm/converter/SimpleAnonymizer.cpp
@@ -34,7 +34,12 @@ std::string SimpleAnonymizer::anonymizeString(const std::string& str) {
     if (it != m_mapping.left.end()) {
         return it->second;
     }
-    const std::string& anonymizedStr = getAlpha(m_mapping.size() + 1);
+    // the code may already be used by a mapping that has been read
+    unsigned long num = m_mapping.size() + 1;
+    std::string anonymizedStr = getAlpha(num);
+    while (m_mapping.right.find(anonymizedStr) != m_mapping.right.end()) {
+        anonymizedStr = getAlpha(++num);
+    }
     m_mapping.insert(Mapping::value_type(str, anonymizedStr));
     return anonymizedStr;
 }
-- 
2.43.0


From 7e85908132afe7b2584ec84559031df0b8c56aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 32/67] fix: read back anonymised names with separators, quotes
 or line breaks

---
 src/iidm/converter/SimpleAnonymizer.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/iidm/converter/SimpleAnonymizer.cpp b/src/iidm/converter/SimpleAnonymizer.cpp
index d487068..83030cf 100644
--- a/src/iidm/converter/SimpleAnonymizer.cpp
+++ b/src/iidm/converter/SimpleAnonymizer.cpp
@@ -7,6 +7,7 @@
 
 #include <powsybl/iidm/converter/SimpleAnonymizer.hpp>
 
+#include <algorithm>
 #include <istream>
 #include <ostream>
 
@@ -21,6 +22,14 @@ namespace iidm {
 
 namespace converter {
 
+// Strings that contain a separator, a quote or a line break are quoted
+std::string quote(const std::string& str) {
+    if (str.find_first_of(";\"\r\n") == std::string::npos) {
+        return str;
+    }
+    return '"' + boost::algorithm::replace_all_copy(str, "\"", "\"\"") + '"';
+}
+
 Country SimpleAnonymizer::anonymizeCountry(const Country& country) {
     return country;
 }
@@ -82,7 +91,19 @@ void SimpleAnonymizer::read(std::istream& stream) {
     while (std::getline(stream, line))
     {
         std::vector<std::string> cells;
-        boost::split(cells, line, boost::is_any_of(";"));
+        if (boost::algorithm::starts_with(line, "\"")) {
+            std::string nextLine;
+            while (std::count(line.begin(), line.end(), '"') % 2 != 0 && std::getline(stream, nextLine)) {
+                line += '\n' + nextLine;
+            }
+            unsigned long end = line.rfind("\";");
+            if (end != std::string::npos && end != 0) {
+                cells.push_back(boost::algorithm::replace_all_copy(line.substr(1, end - 1), "\"\"", "\""));
+                cells.push_back(line.substr(end + 2));
+            }
+        } else {
+            boost::split(cells, line, boost::is_any_of(";"));
+        }
 
         if (cells.size() != 2) {
             throw PowsyblException(stdcxx::format("Invalid line '%1%'", line));
@@ -94,7 +115,7 @@ void SimpleAnonymizer::read(std::istream& stream) {
 
 void SimpleAnonymizer::write(std::ostream& stream) const {
     for (const auto& pair : m_mapping.left) {
-        stream << pair.first << ';' << pair.second << std::endl;
+        stream << quote(pair.first) << ';' << pair.second << std::endl;
     }
 }
 
-- 
2.43.0


From 566ae1e47176a365007ab4779730506e1559f470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 33/67] fix: report a document or a mapping that cannot be
 written

---
 src/iidm/converter/xml/NetworkXml.cpp |  4 ++++
 src/xml/XmlStreamWriter.cpp           | 12 ++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/iidm/converter/xml/NetworkXml.cpp b/src/iidm/converter/xml/NetworkXml.cpp
index 437edde..d223432 100644
--- a/src/iidm/converter/xml/NetworkXml.cpp
+++ b/src/iidm/converter/xml/NetworkXml.cpp
@@ -352,6 +352,10 @@ void NetworkXml::write(const std::string& filename, std::ostream& os, const Netw
             throw PowsyblException(stdcxx::format("Unable to open file '%1%' for writing", csvPath.string()));
         }
         context.getAnonymizer().write(csvStream);
+        csvStream.close();
+        if (!csvStream) {
+            throw PowsyblException(stdcxx::format("Unable to write file '%1%'", csvPath.string()));
+        }
     }
 
     auto endTime = std::chrono::high_resolution_clock::now();
diff --git a/src/xml/XmlStreamWriter.cpp b/src/xml/XmlStreamWriter.cpp
index 9f80944..b14c8b1 100644
--- a/src/xml/XmlStreamWriter.cpp
+++ b/src/xml/XmlStreamWriter.cpp
@@ -82,9 +82,12 @@ void XmlStreamWriter::writeEmptyElement(const std::string& uri, const std::strin
 }
 
 void XmlStreamWriter::writeEndDocument() {
-    // deleting the xmlTextWriter pointer automatically calls xmlTextWriterFlush() and write to stream
+    int written = xmlTextWriterFlush(m_writer.get());
     // m_writer is instanciated in writeStartElement, so it must be deleted here
     m_writer.reset();
+    if (written < 0 || !m_stream.flush()) {
+        throw XmlStreamException("Failed to write the document");
+    }
 }
 
 void XmlStreamWriter::writeEndElement() {
@@ -149,7 +152,12 @@ void XmlStreamWriter::writeStartDocument(const std::string& encoding, const std:
     auto writeCallback = [](void* context, const char* buffer, int len) {
         XmlStreamWriter& writer = *static_cast<XmlStreamWriter*>(context);
 
-        writer.m_stream.write(buffer, len);
+        // an exception must not go through libxml2: the state of the stream is checked at the end of the document
+        try {
+            writer.m_stream.write(buffer, len);
+        } catch (...) {
+            return -1;
+        }
 
         return len;
     };
-- 
2.43.0


From 2bd9f3966023e1eb7deb67b3a1b47a36db8061a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 34/67] fix: refuse to write text that XML cannot represent

---
 src/xml/XmlStreamWriter.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/xml/XmlStreamWriter.cpp b/src/xml/XmlStreamWriter.cpp
index b14c8b1..50a7f88 100644
--- a/src/xml/XmlStreamWriter.cpp
+++ b/src/xml/XmlStreamWriter.cpp
@@ -7,6 +7,9 @@
 
 #include <powsybl/xml/XmlStreamWriter.hpp>
 
+#include <algorithm>
+
+#include <libxml/parserInternals.h>
 #include <libxml/xmlwriter.h>
 
 #include <powsybl/stdcxx/format.hpp>
@@ -20,6 +23,20 @@ namespace powsybl {
 
 namespace xml {
 
+// Text that XML cannot represent would be truncated or would make the document unreadable
+void checkText(const std::string& text) {
+    int pos = 0;
+    const int size = static_cast<int>(text.size());
+    while (pos < size) {
+        int len = std::min(size - pos, 4);
+        int c = xmlGetUTF8Char(S2XML(text) + pos, &len);
+        if (c < 0 || !IS_CHAR(c)) {
+            throw XmlStreamException(stdcxx::format("Text cannot be represented in XML: '%1%'", text));
+        }
+        pos += len;
+    }
+}
+
 XmlStreamWriter::XmlStreamWriter(std::ostream& stream, bool indent) :
     m_stream(stream),
     m_indent(indent),
@@ -55,6 +72,7 @@ void XmlStreamWriter::writeAttribute(const std::string& attributeName, int attri
 }
 
 void XmlStreamWriter::writeAttribute(const std::string& attributeName, const std::string& attributeValue) {
+    checkText(attributeValue);
     int written = xmlTextWriterWriteAttribute(m_writer.get(), S2XML(attributeName), S2XML(attributeValue));
     if (written < 0) {
         throw XmlStreamException(stdcxx::format("Failed to write attribute %1%", attributeName));
@@ -70,6 +88,7 @@ void XmlStreamWriter::writeAttribute(const std::string& attributeName, unsigned
 }
 
 void XmlStreamWriter::writeCharacters(const std::string& content) {
+    checkText(content);
     int written = xmlTextWriterWriteString(m_writer.get(), S2XML(content));
     if (written < 0) {
         throw XmlStreamException(stdcxx::format("Failed to write characters %1%", content));
-- 
2.43.0


From 26b7935899052bd261c4ece56450e0572fa3df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 35/67] fix: read empty and blank texts

---
 src/xml/XmlStreamReader.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 914a81f..d3e2252 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -265,7 +265,17 @@ int XmlStreamReader::next() const {
 }
 
 std::string XmlStreamReader::readCharacters() const {
-    xmlTextReaderRead(m_reader.get());
+    if (xmlTextReaderIsEmptyElement(m_reader.get()) == 1) {
+        return "";
+    }
+    int nodeType = next();
+    if (nodeType == XML_READER_TYPE_END_ELEMENT) {
+        return "";
+    }
+    if (nodeType == XML_READER_TYPE_WHITESPACE || nodeType == XML_READER_TYPE_SIGNIFICANT_WHITESPACE) {
+        XmlString content(xmlTextReaderReadString(m_reader.get()));
+        return content ? XML2S(content.get()) : "";
+    }
     return getText();
 }
 
-- 
2.43.0


From 9055a69bfa1e71f42522bf3f80fb54207b832662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 36/67] fix: read back very small numbers

---
 src/xml/XmlStreamReader.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index d3e2252..5ec954a 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -7,6 +7,10 @@
 
 #include <powsybl/xml/XmlStreamReader.hpp>
 
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
+
 #include <boost/algorithm/string/predicate.hpp>
 #include <libxml/xmlreader.h>
 
@@ -22,6 +26,17 @@ namespace powsybl {
 
 namespace xml {
 
+// Unlike std::stod, does not refuse the numbers that are too small to be normalized
+double toDouble(const std::string& str) {
+    char* end = nullptr;
+    errno = 0;
+    double value = std::strtod(str.c_str(), &end);
+    if (end == str.c_str() || (errno == ERANGE && std::abs(value) > 1.0)) {
+        throw XmlStreamException(stdcxx::format("Invalid number '%1%'", str));
+    }
+    return value;
+}
+
 void checkNodeType(xmlTextReader& reader, const xmlReaderTypes& expected) {
     int nodeType = xmlTextReaderNodeType(&reader);
     if (nodeType != expected) {
@@ -71,7 +86,7 @@ bool XmlStreamReader::getAttributeValue(const std::string& attributeName) const
 template <>
 double XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
     XmlString value = getAttributeValue(attributeName, true);
-    return std::stod(XML2S(value.get()));
+    return toDouble(XML2S(value.get()));
 }
 
 template <>
@@ -177,7 +192,7 @@ stdcxx::optional<double> XmlStreamReader::getOptionalAttributeValue(const std::s
 
     const XmlString& str = getAttributeValue(attributeName, false);
     if (str) {
-        value = std::stod(XML2S(str.get()));
+        value = toDouble(XML2S(str.get()));
     }
 
     return value;
-- 
2.43.0


From e5ab4677fa61af97c40a937dd83ad4259e11f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 37/67] fix: refuse missing boolean and unsigned attributes
 instead of reading a null text

---
 src/xml/XmlStreamReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 5ec954a..5733933 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -78,7 +78,7 @@ XmlStreamReader::XmlStreamReader(std::istream& stream, const std::string& encodi
 
 template <>
 bool XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
-    XmlString value = getAttributeValue(attributeName, false);
+    XmlString value = getAttributeValue(attributeName, true);
     const std::string& booleanStr = XML2S(value.get());
     return boost::iequals(booleanStr, "true");
 }
@@ -103,7 +103,7 @@ long XmlStreamReader::getAttributeValue(const std::string& attributeName) const
 
 template <>
 unsigned long XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
-    XmlString value = getAttributeValue(attributeName, false);
+    XmlString value = getAttributeValue(attributeName, true);
     return std::stoul(XML2S(value.get()));
 }
 
-- 
2.43.0


From a5401c9f33b5272eaa0fa6e4807be6555dd26fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 38/67] fix: refuse to write a geographical tag that would be
 split when it is read

---
 src/iidm/converter/xml/SubstationXml.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iidm/converter/xml/SubstationXml.cpp b/src/iidm/converter/xml/SubstationXml.cpp
index 3a3b9ca..2365623 100644
--- a/src/iidm/converter/xml/SubstationXml.cpp
+++ b/src/iidm/converter/xml/SubstationXml.cpp
@@ -13,6 +13,8 @@
 
 #include <powsybl/iidm/Country.hpp>
 #include <powsybl/iidm/SubstationAdder.hpp>
+#include <powsybl/stdcxx/format.hpp>
+#include <powsybl/xml/XmlStreamException.hpp>
 
 #include "ThreeWindingsTransformerXml.hpp"
 #include "TwoWindingsTransformerXml.hpp"
@@ -92,6 +94,9 @@ void SubstationXml::writeRootElementAttributes(const Substation& substation, con
         std::vector<std::string> tags;
         for (const auto& tag : substation.getGeographicalTags()) {
             tags.emplace_back(context.getAnonymizer().anonymizeString(tag));
+            if (tags.back().find(',') != std::string::npos) {
+                throw powsybl::xml::XmlStreamException(stdcxx::format("%1%: geographical tag '%2%' cannot be written because it contains a comma", substation.getId(), tag));
+            }
         }
 
         context.getWriter().writeAttribute(GEOGRAPHICAL_TAGS, boost::algorithm::join(tags, ","));
-- 
2.43.0


From 949ac2528f77dfb46369351c4b4bdac34bcf5144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 39/67] fix: read back an empty geographical tag

---
 src/iidm/converter/xml/SubstationXml.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iidm/converter/xml/SubstationXml.cpp b/src/iidm/converter/xml/SubstationXml.cpp
index 2365623..59515c9 100644
--- a/src/iidm/converter/xml/SubstationXml.cpp
+++ b/src/iidm/converter/xml/SubstationXml.cpp
@@ -53,10 +53,10 @@ Substation& SubstationXml::readRootElementAttributes(SubstationAdder& adder, Net
         adder.setTso(context.getAnonymizer().deanonymizeString(tso));
     }
 
-    const std::string& geographicalTags = context.getReader().getOptionalAttributeValue(GEOGRAPHICAL_TAGS, "");
-    if (!geographicalTags.empty()) {
+    const auto& geographicalTags = context.getReader().getOptionalAttributeValue<std::string>(GEOGRAPHICAL_TAGS);
+    if (geographicalTags) {
         std::vector<std::string> tags;
-        boost::algorithm::split(tags, geographicalTags, boost::is_any_of(","));
+        boost::algorithm::split(tags, *geographicalTags, boost::is_any_of(","));
 
         for (const auto& tag : tags) {
             adder.addGeographicalTag(context.getAnonymizer().deanonymizeString(tag));
-- 
2.43.0


From 3041bba8087d3c38a7fd93915b02e44be2bbd531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:58 +0000
Subject: [PATCH 40/67] fix: refuse to write texts with overlong encodings of
 characters

---
 src/xml/XmlStreamWriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xml/XmlStreamWriter.cpp b/src/xml/XmlStreamWriter.cpp
index 50a7f88..0e357b2 100644
--- a/src/xml/XmlStreamWriter.cpp
+++ b/src/xml/XmlStreamWriter.cpp
@@ -30,7 +30,8 @@ void checkText(const std::string& text) {
     while (pos < size) {
         int len = std::min(size - pos, 4);
         int c = xmlGetUTF8Char(S2XML(text) + pos, &len);
-        if (c < 0 || !IS_CHAR(c)) {
+        int expectedLen = c < 0x80 ? 1 : (c < 0x800 ? 2 : (c < 0x10000 ? 3 : 4));
+        if (c < 0 || !IS_CHAR(c) || len != expectedLen) {
             throw XmlStreamException(stdcxx::format("Text cannot be represented in XML: '%1%'", text));
         }
         pos += len;
-- 
2.43.0


From 111dbf0795fc47c6dd25ff85561ea48f0db917a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 41/67] fix: read back a discrete measurement whose value is an
 empty text

---
 extensions/iidm/src/DiscreteMeasurementsXmlSerializer.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurementsXmlSerializer.cpp b/extensions/iidm/src/DiscreteMeasurementsXmlSerializer.cpp
index 589f09b..f7f226f 100644
--- a/extensions/iidm/src/DiscreteMeasurementsXmlSerializer.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementsXmlSerializer.cpp
@@ -63,7 +63,7 @@ void DiscreteMeasurementsXmlSerializer::readDiscreteMeasurement(DiscreteMeasurem
         adder.setTapChanger(Enum::fromString<DiscreteMeasurement::TapChanger>(tapChanger));
     }
     auto valueType = Enum::fromString<DiscreteMeasurement::ValueType>(reader.getAttributeValue(VALUE_TYPE));
-    if (!reader.getOptionalAttributeValue(VALUE, "").empty()) {
+    if (reader.getOptionalAttributeValue<std::string>(VALUE)) {
         switch (valueType) {
             case DiscreteMeasurement::ValueType::BOOLEAN:
                 adder.setValue(reader.getAttributeValue<bool>(VALUE));
@@ -114,9 +114,7 @@ void DiscreteMeasurementsXmlSerializer::write(const Extension& extension, conver
                 break;
 
             case DiscreteMeasurement::ValueType::STRING:
-                if (!discreteMeasurement.getValueAsString().empty()) {
-                    writer.writeAttribute(VALUE, discreteMeasurement.getValueAsString());
-                }
+                writer.writeAttribute(VALUE, discreteMeasurement.getValueAsString());
                 break;
 
             default:
-- 
2.43.0


From a4994a22fd59c3ad487a22c74b2d845fc749a11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 42/67] fix: write a negative zero that differs from the
 default value

---
 src/xml/XmlStreamWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml/XmlStreamWriter.cpp b/src/xml/XmlStreamWriter.cpp
index 0e357b2..d834a78 100644
--- a/src/xml/XmlStreamWriter.cpp
+++ b/src/xml/XmlStreamWriter.cpp
@@ -134,7 +134,7 @@ void XmlStreamWriter::writeOptionalAttribute(const std::string& attributeName, d
 }
 
 void XmlStreamWriter::writeOptionalAttribute(const std::string& attributeName, double attributeValue, double absentValue) {
-    if (!std::isnan(attributeValue) && !stdcxx::isEqual(attributeValue, absentValue)) {
+    if (!std::isnan(attributeValue) && (!stdcxx::isEqual(attributeValue, absentValue) || std::signbit(attributeValue) != std::signbit(absentValue))) {
         writeAttribute(attributeName, stdcxx::to_string(attributeValue));
     }
 }
-- 
2.43.0


From ea809cdb53ee67744558950dd9ce56fd69a36314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 43/67] fix: refuse to unset the value of a valid measurement

---
 extensions/iidm/src/Measurement.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions/iidm/src/Measurement.cpp b/extensions/iidm/src/Measurement.cpp
index b03f2b6..dbc6fdf 100644
--- a/extensions/iidm/src/Measurement.cpp
+++ b/extensions/iidm/src/Measurement.cpp
@@ -10,6 +10,7 @@
 #include <boost/range/adaptor/map.hpp>
 
 #include <powsybl/iidm/Enum.hpp>
+#include <powsybl/iidm/extensions/iidm/MeasurementValidationUtil.hpp>
 #include <powsybl/iidm/extensions/iidm/Measurements.hpp>
 
 namespace powsybl {
@@ -127,11 +128,13 @@ Measurement& Measurement::setStandardDeviation(double standardDeviation) {
 }
 
 Measurement& Measurement::setValid(bool valid) {
+    MeasurementValidationUtil::checkValue(m_value, valid);
     m_valid = valid;
     return *this;
 }
 
 Measurement& Measurement::setValue(double value) {
+    MeasurementValidationUtil::checkValue(value, m_valid);
     m_value = value;
     return *this;
 }
-- 
2.43.0


From a8dae5decda657ef884c9ae46c6e9a49b8cb6b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 44/67] fix: read back an active power control without droop

---
 extensions/iidm/src/ActivePowerControlXmlSerializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp b/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
index 5d03fb5..98adca1 100644
--- a/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
+++ b/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
@@ -19,6 +19,7 @@
 #include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
 #include <powsybl/iidm/extensions/iidm/ActivePowerControlAdder.hpp>
 
+#include <powsybl/stdcxx/math.hpp>
 #include <powsybl/xml/XmlStreamReader.hpp>
 #include <powsybl/xml/XmlStreamWriter.hpp>
 
@@ -36,7 +37,7 @@ ActivePowerControlXmlSerializer::ActivePowerControlXmlSerializer() :
 
 Extension& ActivePowerControlXmlSerializer::read(Extendable& extendable, converter::xml::NetworkXmlReaderContext& context) const {
     const auto& participate = context.getReader().getAttributeValue<bool>("participate");
-    const auto& droop = context.getReader().getAttributeValue<double>("droop");
+    const auto& droop = context.getReader().getOptionalAttributeValue("droop", stdcxx::nan());
 
     extendable.newExtension<ActivePowerControlAdder>().withParticipate(participate).withDroop(droop).add();
     return extendable.getExtension<ActivePowerControl>();
-- 
2.43.0


From 2f3d6d124be670d1b7033e554d032f42cba8daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 45/67] fix: refuse vertex numbers that do not fit instead of
 looping over them

---
 include/powsybl/math/UndirectedGraph.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 076811a..8dc3ec6 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -75,10 +75,14 @@ void UndirectedGraph<V, E>::addVertexIfNotPresent(unsigned long v) {
             m_availableVertices.erase(it);
         }
     } else {
-        for (unsigned int i = m_vertices.size(); i < v; ++i) {
-            m_availableVertices.insert(i);
+        if (v >= m_vertices.max_size()) {
+            throw PowsyblException(stdcxx::format("Invalid vertex %1%", v));
         }
+        unsigned long capacity = m_vertices.size();
         m_vertices.resize(v + 1);
+        for (unsigned long i = capacity; i < v; ++i) {
+            m_availableVertices.insert(i);
+        }
         m_vertices[v] = stdcxx::make_unique<Vertex>();
     }
     invalidateAdjacencyList();
-- 
2.43.0


From 736d2b07782f4e06b3c63bf2ae3854e8b30035d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 46/67] fix: refuse to write tap changer steps with unset
 values instead of an unreadable document

---
 src/iidm/converter/xml/AbstractTransformerXml.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iidm/converter/xml/AbstractTransformerXml.hxx b/src/iidm/converter/xml/AbstractTransformerXml.hxx
index 045a324..1d741b0 100644
--- a/src/iidm/converter/xml/AbstractTransformerXml.hxx
+++ b/src/iidm/converter/xml/AbstractTransformerXml.hxx
@@ -10,6 +10,9 @@
 
 #include "AbstractTransformerXml.hpp"
 
+#include <cmath>
+
+#include <powsybl/PowsyblException.hpp>
 #include <powsybl/iidm/PhaseTapChanger.hpp>
 #include <powsybl/iidm/PhaseTapChangerAdder.hpp>
 #include <powsybl/iidm/RatioTapChanger.hpp>
@@ -200,6 +203,9 @@ void AbstractTransformerXml<Added, Adder>::writePhaseTapChanger(const std::strin
         const PhaseTapChangerStep& ptcs = ptc.getStep(p);
         context.getWriter().writeStartElement(context.getVersion().getPrefix(), STEP);
         writeTapChangerStep(ptcs, context.getWriter());
+        if (std::isnan(ptcs.getAlpha())) {
+            throw PowsyblException("A tap changer step with an undefined angle cannot be exported");
+        }
         context.getWriter().writeAttribute(ALPHA, ptcs.getAlpha());
         context.getWriter().writeEndElement();
     }
@@ -245,6 +251,10 @@ void AbstractTransformerXml<Added, Adder>::writeTapChanger(const TapChanger<H, C
 template <typename Added, typename Adder>
 template <typename S>
 void AbstractTransformerXml<Added, Adder>::writeTapChangerStep(const TapChangerStep<S>& tcs, powsybl::xml::XmlStreamWriter& writer) {
+    // All the values of a step are mandatory, but they can be unset once the step has been created
+    if (std::isnan(tcs.getR()) || std::isnan(tcs.getX()) || std::isnan(tcs.getG()) || std::isnan(tcs.getB()) || std::isnan(tcs.getRho())) {
+        throw PowsyblException("A tap changer step with an undefined value cannot be exported");
+    }
     writer.writeOptionalAttribute(R, tcs.getR());
     writer.writeOptionalAttribute(X, tcs.getX());
     writer.writeOptionalAttribute(G, tcs.getG());
-- 
2.43.0


From 62b093ca6d524560f147095a253463c308dd640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 47/67] fix: shift the tap positions of all the variants with
 the low tap position

---
 include/powsybl/iidm/TapChanger.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/TapChanger.hxx b/include/powsybl/iidm/TapChanger.hxx
index cb9963a..2c306e2 100644
--- a/include/powsybl/iidm/TapChanger.hxx
+++ b/include/powsybl/iidm/TapChanger.hxx
@@ -176,7 +176,10 @@ template<typename H, typename C, typename S>
 C& TapChanger<H, C, S>::setLowTapPosition(long lowTapPosition) {
     long oldValue = m_lowTapPosition;
     m_lowTapPosition = lowTapPosition;
-    m_tapPosition[getNetwork().getVariantIndex()] = getTapPosition() + m_lowTapPosition - oldValue;
+    // the low tap position is common to all the variants
+    for (long& tapPosition : m_tapPosition) {
+        tapPosition += m_lowTapPosition - oldValue;
+    }
 
     return static_cast<C&>(*this);
 }
-- 
2.43.0


From 33c8e23f92574bed12936a46d9293ae80751d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 48/67] fix: check the regulation of a phase tap changer when
 it is switched on

---
 include/powsybl/iidm/PhaseTapChanger.hpp | 2 ++
 src/iidm/PhaseTapChanger.cpp             | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/include/powsybl/iidm/PhaseTapChanger.hpp b/include/powsybl/iidm/PhaseTapChanger.hpp
index 1b32814..3878a3f 100644
--- a/include/powsybl/iidm/PhaseTapChanger.hpp
+++ b/include/powsybl/iidm/PhaseTapChanger.hpp
@@ -35,6 +35,8 @@ public: // MultiVariantObject
 public: // TapChanger
     void remove() override;
 
+    PhaseTapChanger& setRegulating(bool regulating) override;
+
     PhaseTapChanger& setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) override;
 
 public:
diff --git a/src/iidm/PhaseTapChanger.cpp b/src/iidm/PhaseTapChanger.cpp
index d607d70..6f924e4 100644
--- a/src/iidm/PhaseTapChanger.cpp
+++ b/src/iidm/PhaseTapChanger.cpp
@@ -57,6 +57,11 @@ void PhaseTapChanger::remove() {
     return getParent().setPhaseTapChanger(std::unique_ptr<PhaseTapChanger>());
 }
 
+PhaseTapChanger& PhaseTapChanger::setRegulating(bool regulating) {
+    checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), regulating, getRegulationTerminal(), getNetwork());
+    return TapChanger::setRegulating(regulating);
+}
+
 PhaseTapChanger& PhaseTapChanger::setRegulationMode(const RegulationMode& regulationMode) {
     checkPhaseTapChangerRegulation(getParent(), regulationMode, getRegulationValue(), isRegulating(), getRegulationTerminal(), getNetwork());
     m_regulationMode = regulationMode;
-- 
2.43.0


From 05014af89665615c7c8cf9fc74f743923d0be90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 49/67] fix: refuse the terminals of other networks, and accept
 no terminal, for ratio tap changers that cannot move under load

---
 src/iidm/ValidationUtils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iidm/ValidationUtils.cpp b/src/iidm/ValidationUtils.cpp
index e727de3..68dc3e6 100644
--- a/src/iidm/ValidationUtils.cpp
+++ b/src/iidm/ValidationUtils.cpp
@@ -331,9 +331,9 @@ void checkRatioTapChangerRegulation(const Validable& validable, bool regulating,
         if (!regulationTerminal) {
             throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "a regulation terminal has to be set for a regulating ratio tap changer");
         }
-        if (!stdcxx::areSame(regulationTerminal.get().getVoltageLevel().getNetwork(), network)) {
-            throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "regulation terminal is not part of the network");
-        }
+    }
+    if (regulationTerminal && !stdcxx::areSame(regulationTerminal.get().getVoltageLevel().getNetwork(), network)) {
+        throw ValidationException(validable, "regulation terminal is not part of the network");
     }
 }
 
-- 
2.43.0


From 26b2b3171208545dda0966353ddffe4e998a6050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 50/67] fix: check the settings of tap changers common to all
 the variants in all the variants

---
 include/powsybl/iidm/PhaseTapChanger.hpp |  3 +++
 include/powsybl/iidm/RatioTapChanger.hpp |  3 +++
 include/powsybl/iidm/TapChanger.hpp      |  2 ++
 include/powsybl/iidm/TapChanger.hxx      | 10 ++++++++--
 src/iidm/PhaseTapChanger.cpp             | 11 +++++++++--
 src/iidm/RatioTapChanger.cpp             | 11 +++++++++--
 6 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/include/powsybl/iidm/PhaseTapChanger.hpp b/include/powsybl/iidm/PhaseTapChanger.hpp
index 3878a3f..a303b71 100644
--- a/include/powsybl/iidm/PhaseTapChanger.hpp
+++ b/include/powsybl/iidm/PhaseTapChanger.hpp
@@ -53,6 +53,9 @@ public:
 
     PhaseTapChanger& setRegulationValue(double regulationValue);
 
+private:
+    void checkRegulation(const RegulationMode& regulationMode, const stdcxx::Reference<Terminal>& regulationTerminal) const;
+
 private:
     RegulationMode m_regulationMode;
 
diff --git a/include/powsybl/iidm/RatioTapChanger.hpp b/include/powsybl/iidm/RatioTapChanger.hpp
index 20f0bd4..de2489f 100644
--- a/include/powsybl/iidm/RatioTapChanger.hpp
+++ b/include/powsybl/iidm/RatioTapChanger.hpp
@@ -46,6 +46,9 @@ public:
 
     RatioTapChanger& setTargetV(double targetV);
 
+private:
+    void checkRegulation(bool loadTapChangingCapabilities, const stdcxx::Reference<Terminal>& regulationTerminal) const;
+
 private:
     bool m_loadTapChangingCapabilities;
 
diff --git a/include/powsybl/iidm/TapChanger.hpp b/include/powsybl/iidm/TapChanger.hpp
index f3b6abc..404021c 100644
--- a/include/powsybl/iidm/TapChanger.hpp
+++ b/include/powsybl/iidm/TapChanger.hpp
@@ -93,6 +93,8 @@ protected:
 
     H& getParent();
 
+    bool isRegulating(unsigned long variantIndex) const;
+
 private:
     void onRemoval(const Connectable& connectable);
 
diff --git a/include/powsybl/iidm/TapChanger.hxx b/include/powsybl/iidm/TapChanger.hxx
index 2c306e2..1615c5a 100644
--- a/include/powsybl/iidm/TapChanger.hxx
+++ b/include/powsybl/iidm/TapChanger.hxx
@@ -45,8 +45,9 @@ void TapChanger<H, C, S>::allocateVariantArrayElement(const std::set<unsigned lo
 }
 
 template<typename H, typename C, typename S>
-void TapChanger<H, C, S>::deleteVariantArrayElement(unsigned long /*index*/) {
-    // nothing to do
+void TapChanger<H, C, S>::deleteVariantArrayElement(unsigned long index) {
+    // an unused variant must not be taken into account when the regulation is checked
+    m_regulating[index] = false;
 }
 
 template<typename H, typename C, typename S>
@@ -156,6 +157,11 @@ bool TapChanger<H, C, S>::isRegulating() const {
     return m_regulating.at(getNetwork().getVariantIndex());
 }
 
+template<typename H, typename C, typename S>
+bool TapChanger<H, C, S>::isRegulating(unsigned long variantIndex) const {
+    return m_regulating.at(variantIndex);
+}
+
 template<typename H, typename C, typename S>
 void TapChanger<H, C, S>::onRemoval(const Connectable& connectable) {
     if (m_regulationTerminal && stdcxx::areSame(m_regulationTerminal.get().getConnectable().get(), connectable)) {
diff --git a/src/iidm/PhaseTapChanger.cpp b/src/iidm/PhaseTapChanger.cpp
index 6f924e4..4c613a2 100644
--- a/src/iidm/PhaseTapChanger.cpp
+++ b/src/iidm/PhaseTapChanger.cpp
@@ -33,6 +33,13 @@ void PhaseTapChanger::allocateVariantArrayElement(const std::set<unsigned long>&
     }
 }
 
+void PhaseTapChanger::checkRegulation(const RegulationMode& regulationMode, const stdcxx::Reference<Terminal>& regulationTerminal) const {
+    // the regulation mode and the regulation terminal are common to all the variants
+    for (unsigned long index = 0; index < m_regulationValue.size(); ++index) {
+        checkPhaseTapChangerRegulation(getParent(), regulationMode, m_regulationValue[index], TapChanger::isRegulating(index), regulationTerminal, getNetwork());
+    }
+}
+
 void PhaseTapChanger::extendVariantArraySize(unsigned long initVariantArraySize, unsigned long number, unsigned long sourceIndex) {
     TapChanger::extendVariantArraySize(initVariantArraySize, number, sourceIndex);
 
@@ -63,13 +70,13 @@ PhaseTapChanger& PhaseTapChanger::setRegulating(bool regulating) {
 }
 
 PhaseTapChanger& PhaseTapChanger::setRegulationMode(const RegulationMode& regulationMode) {
-    checkPhaseTapChangerRegulation(getParent(), regulationMode, getRegulationValue(), isRegulating(), getRegulationTerminal(), getNetwork());
+    checkRegulation(regulationMode, getRegulationTerminal());
     m_regulationMode = regulationMode;
     return *this;
 }
 
 PhaseTapChanger& PhaseTapChanger::setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) {
-    checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), isRegulating(), regulationTerminal, getNetwork());
+    checkRegulation(m_regulationMode, regulationTerminal);
     return TapChanger::setRegulationTerminal(regulationTerminal);
 }
 
diff --git a/src/iidm/RatioTapChanger.cpp b/src/iidm/RatioTapChanger.cpp
index 854d427..518325f 100644
--- a/src/iidm/RatioTapChanger.cpp
+++ b/src/iidm/RatioTapChanger.cpp
@@ -31,6 +31,13 @@ void RatioTapChanger::allocateVariantArrayElement(const std::set<unsigned long>&
     }
 }
 
+void RatioTapChanger::checkRegulation(bool loadTapChangingCapabilities, const stdcxx::Reference<Terminal>& regulationTerminal) const {
+    // the load tap changing capabilities and the regulation terminal are common to all the variants
+    for (unsigned long index = 0; index < m_targetV.size(); ++index) {
+        checkRatioTapChangerRegulation(getParent(), TapChanger::isRegulating(index), loadTapChangingCapabilities, regulationTerminal, m_targetV[index], getNetwork());
+    }
+}
+
 void RatioTapChanger::extendVariantArraySize(unsigned long initVariantArraySize, unsigned long number, unsigned long sourceIndex) {
     TapChanger::extendVariantArraySize(initVariantArraySize, number, sourceIndex);
 
@@ -56,7 +63,7 @@ void RatioTapChanger::remove() {
 }
 
 RatioTapChanger& RatioTapChanger::setLoadTapChangingCapabilities(bool loadTapChangingCapabilities) {
-    checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    checkRegulation(loadTapChangingCapabilities, getRegulationTerminal());
     m_loadTapChangingCapabilities = loadTapChangingCapabilities;
     return *this;
 }
@@ -67,7 +74,7 @@ RatioTapChanger& RatioTapChanger::setRegulating(bool regulating) {
 }
 
 RatioTapChanger& RatioTapChanger::setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) {
-    checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, regulationTerminal, getTargetV(), getNetwork());
+    checkRegulation(m_loadTapChangingCapabilities, regulationTerminal);
     return TapChanger::setRegulationTerminal(regulationTerminal);
 }
 
-- 
2.43.0


From 5bf46c770364b4a340f0c0d2d0b8284060b8a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 51/67] fix: allow only one regulating tap changer when the
 regulation is switched on, and in all the variants

---
 include/powsybl/iidm/TapChanger.hpp           |  2 ++
 include/powsybl/iidm/TapChanger.hxx           | 11 +++++++++
 include/powsybl/iidm/TapChangerHolder.hpp     |  9 ++++++-
 .../iidm/ThreeWindingsTransformerLeg.hpp      |  2 +-
 .../powsybl/iidm/TwoWindingsTransformer.hpp   |  2 +-
 src/iidm/PhaseTapChangerAdder.cpp             |  4 ++--
 src/iidm/RatioTapChangerAdder.cpp             |  4 ++--
 src/iidm/ThreeWindingsTransformerLeg.cpp      | 24 +++++++++----------
 src/iidm/TwoWindingsTransformer.cpp           | 10 +++++---
 9 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/include/powsybl/iidm/TapChanger.hpp b/include/powsybl/iidm/TapChanger.hpp
index 404021c..a85ee46 100644
--- a/include/powsybl/iidm/TapChanger.hpp
+++ b/include/powsybl/iidm/TapChanger.hpp
@@ -69,6 +69,8 @@ public:
 
     bool isRegulating() const;
 
+    bool isRegulatingInAnyVariant() const;
+
     virtual void remove() = 0;
 
     C& setLowTapPosition(long lowTapPosition);
diff --git a/include/powsybl/iidm/TapChanger.hxx b/include/powsybl/iidm/TapChanger.hxx
index 1615c5a..e0ef320 100644
--- a/include/powsybl/iidm/TapChanger.hxx
+++ b/include/powsybl/iidm/TapChanger.hxx
@@ -9,6 +9,10 @@
 #define POWSYBL_IIDM_TAPCHANGER_HXX
 
 #include <powsybl/iidm/TapChanger.hpp>
+
+#include <algorithm>
+
+#include <powsybl/iidm/TapChangerHolder.hpp>
 #include <powsybl/iidm/Terminal.hpp>
 #include <powsybl/iidm/Validable.hpp>
 #include <powsybl/iidm/VariantManager.hpp>
@@ -19,6 +23,7 @@ namespace powsybl {
 
 namespace iidm {
 
+void checkOnlyOneTapChangerRegulatingEnabled(const Validable& validable, unsigned long regulatingTapChangerCount, bool regulating);
 long checkTapPosition(const Validable& validable, long tapPosition, long lowTapPosition, long highTapPosition);
 double checkTargetDeadband(const Validable& validable, const std::string& validableType, bool regulating, double targetDeadband);
 
@@ -162,6 +167,11 @@ bool TapChanger<H, C, S>::isRegulating(unsigned long variantIndex) const {
     return m_regulating.at(variantIndex);
 }
 
+template<typename H, typename C, typename S>
+bool TapChanger<H, C, S>::isRegulatingInAnyVariant() const {
+    return std::any_of(m_regulating.begin(), m_regulating.end(), [](bool regulating) { return regulating; });
+}
+
 template<typename H, typename C, typename S>
 void TapChanger<H, C, S>::onRemoval(const Connectable& connectable) {
     if (m_regulationTerminal && stdcxx::areSame(m_regulationTerminal.get().getConnectable().get(), connectable)) {
@@ -193,6 +203,7 @@ C& TapChanger<H, C, S>::setLowTapPosition(long lowTapPosition) {
 template<typename H, typename C, typename S>
 C& TapChanger<H, C, S>::setRegulating(bool regulating) {
     checkTargetDeadband(m_parent, m_type, regulating, m_targetDeadband[getNetwork().getVariantIndex()]);
+    checkOnlyOneTapChangerRegulatingEnabled(m_parent, static_cast<const TapChangerHolder&>(m_parent).getRegulatingTapChangerCount(false) - (isRegulating() ? 1 : 0), regulating);
     m_regulating[getNetwork().getVariantIndex()] = regulating;
 
     return static_cast<C&>(*this);
diff --git a/include/powsybl/iidm/TapChangerHolder.hpp b/include/powsybl/iidm/TapChangerHolder.hpp
index bb1d534..6a75155 100644
--- a/include/powsybl/iidm/TapChangerHolder.hpp
+++ b/include/powsybl/iidm/TapChangerHolder.hpp
@@ -17,6 +17,9 @@ namespace iidm {
 class Identifiable;
 class Network;
 
+template <typename H, typename C, typename S>
+class TapChanger;
+
 class TapChangerHolder : public virtual Validable {
 public:
     ~TapChangerHolder() noexcept override = default;
@@ -33,12 +36,16 @@ protected:
     TapChangerHolder() noexcept = default;
 
 private:
-    virtual unsigned long getRegulatingTapChangerCount() const = 0;
+    // number of tap changers that are regulating in the working variant, or in any variant
+    virtual unsigned long getRegulatingTapChangerCount(bool anyVariant) const = 0;
 
 private:
     friend class PhaseTapChangerAdder;
 
     friend class RatioTapChangerAdder;
+
+    template <typename H, typename C, typename S>
+    friend class TapChanger;
 };
 
 }  // namespace iidm
diff --git a/include/powsybl/iidm/ThreeWindingsTransformerLeg.hpp b/include/powsybl/iidm/ThreeWindingsTransformerLeg.hpp
index d683de3..b59c5a1 100644
--- a/include/powsybl/iidm/ThreeWindingsTransformerLeg.hpp
+++ b/include/powsybl/iidm/ThreeWindingsTransformerLeg.hpp
@@ -95,7 +95,7 @@ public:
     std::string toString() const;
 
 private:  // TapChangerHolder
-    unsigned long getRegulatingTapChangerCount() const override;
+    unsigned long getRegulatingTapChangerCount(bool anyVariant) const override;
 
 private:  // RatioTapChangerHolder
     void setRatioTapChanger(std::unique_ptr<RatioTapChanger>&& ratioTapChanger) override;
diff --git a/include/powsybl/iidm/TwoWindingsTransformer.hpp b/include/powsybl/iidm/TwoWindingsTransformer.hpp
index 39354e6..fd338f9 100644
--- a/include/powsybl/iidm/TwoWindingsTransformer.hpp
+++ b/include/powsybl/iidm/TwoWindingsTransformer.hpp
@@ -94,7 +94,7 @@ private:  // Identifiable
     const std::string& getTypeDescription() const override;
 
 private:
-    unsigned long getRegulatingTapChangerCount() const override;
+    unsigned long getRegulatingTapChangerCount(bool anyVariant) const override;
 
 private:  // RatioTapChangerHolder
     void setRatioTapChanger(std::unique_ptr<RatioTapChanger>&& ratioTapChanger) override;
diff --git a/src/iidm/PhaseTapChangerAdder.cpp b/src/iidm/PhaseTapChangerAdder.cpp
index 955fb2f..8b7de7d 100644
--- a/src/iidm/PhaseTapChangerAdder.cpp
+++ b/src/iidm/PhaseTapChangerAdder.cpp
@@ -83,8 +83,8 @@ PhaseTapChanger& PhaseTapChangerAdder::add() {
     std::unique_ptr<PhaseTapChanger> ptrPhaseTapChanger = stdcxx::make_unique<PhaseTapChanger>(m_parent, m_lowTapPosition, m_steps, m_regulationTerminal,
                                                                                                *m_tapPosition, m_regulating, m_regulationMode, m_regulationValue, m_targetDeadband);
 
-    bool wasRegulating = m_parent.hasPhaseTapChanger() && m_parent.getPhaseTapChanger().isRegulating();
-    unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
+    bool wasRegulating = m_parent.hasPhaseTapChanger() && m_parent.getPhaseTapChanger().isRegulatingInAnyVariant();
+    unsigned long count = m_parent.getRegulatingTapChangerCount(true) - (wasRegulating ? 1 : 0);
     checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
 
     if (m_parent.hasRatioTapChanger()) {
diff --git a/src/iidm/RatioTapChangerAdder.cpp b/src/iidm/RatioTapChangerAdder.cpp
index d07216b..f1d52ec 100644
--- a/src/iidm/RatioTapChangerAdder.cpp
+++ b/src/iidm/RatioTapChangerAdder.cpp
@@ -78,8 +78,8 @@ RatioTapChanger& RatioTapChangerAdder::add() {
     std::unique_ptr<RatioTapChanger> ptrRatioTapChanger = stdcxx::make_unique<RatioTapChanger>(m_parent, m_lowTapPosition, m_steps, m_regulationTerminal,
                                                                                                m_loadTapChangingCapabilities, *m_tapPosition, m_regulating, m_targetV, m_targetDeadband);
 
-    bool wasRegulating = m_parent.hasRatioTapChanger() && m_parent.getRatioTapChanger().isRegulating();
-    unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
+    bool wasRegulating = m_parent.hasRatioTapChanger() && m_parent.getRatioTapChanger().isRegulatingInAnyVariant();
+    unsigned long count = m_parent.getRegulatingTapChangerCount(true) - (wasRegulating ? 1 : 0);
     checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
 
     if (m_parent.hasPhaseTapChanger()) {
diff --git a/src/iidm/ThreeWindingsTransformerLeg.cpp b/src/iidm/ThreeWindingsTransformerLeg.cpp
index db4587d..6949c4a 100644
--- a/src/iidm/ThreeWindingsTransformerLeg.cpp
+++ b/src/iidm/ThreeWindingsTransformerLeg.cpp
@@ -7,6 +7,8 @@
 
 #include <powsybl/iidm/ThreeWindingsTransformerLeg.hpp>
 
+#include <functional>
+
 #include <powsybl/iidm/PhaseTapChanger.hpp>
 #include <powsybl/iidm/PhaseTapChangerAdder.hpp>
 #include <powsybl/iidm/RatioTapChanger.hpp>
@@ -91,20 +93,18 @@ RatioTapChanger& Leg::getRatioTapChanger() {
     return *m_ratioTapChanger;
 }
 
-unsigned long Leg::getRegulatingTapChangerCount() const {
+unsigned long Leg::getRegulatingTapChangerCount(bool anyVariant) const {
     unsigned long count = 0;
 
-    const Leg& leg1 = m_transformer.get().getLeg1();
-    count += (leg1.hasPhaseTapChanger() && leg1.getPhaseTapChanger().isRegulating()) ? 1 : 0;
-    count += (leg1.hasRatioTapChanger() && leg1.getRatioTapChanger().isRegulating()) ? 1 : 0;
-
-    const Leg& leg2 = m_transformer.get().getLeg2();
-    count += (leg2.hasPhaseTapChanger() && leg2.getPhaseTapChanger().isRegulating()) ? 1 : 0;
-    count += (leg2.hasRatioTapChanger() && leg2.getRatioTapChanger().isRegulating()) ? 1 : 0;
-
-    const Leg& leg3 = m_transformer.get().getLeg3();
-    count += (leg3.hasPhaseTapChanger() && leg3.getPhaseTapChanger().isRegulating()) ? 1 : 0;
-    count += (leg3.hasRatioTapChanger() && leg3.getRatioTapChanger().isRegulating()) ? 1 : 0;
+    const ThreeWindingsTransformer& transformer = m_transformer.get();
+    for (const Leg& leg : {std::cref(transformer.getLeg1()), std::cref(transformer.getLeg2()), std::cref(transformer.getLeg3())}) {
+        if (leg.hasPhaseTapChanger() && (anyVariant ? leg.getPhaseTapChanger().isRegulatingInAnyVariant() : leg.getPhaseTapChanger().isRegulating())) {
+            ++count;
+        }
+        if (leg.hasRatioTapChanger() && (anyVariant ? leg.getRatioTapChanger().isRegulatingInAnyVariant() : leg.getRatioTapChanger().isRegulating())) {
+            ++count;
+        }
+    }
 
     return count;
 }
diff --git a/src/iidm/TwoWindingsTransformer.cpp b/src/iidm/TwoWindingsTransformer.cpp
index 3bd2cec..8f17c09 100644
--- a/src/iidm/TwoWindingsTransformer.cpp
+++ b/src/iidm/TwoWindingsTransformer.cpp
@@ -206,10 +206,14 @@ void TwoWindingsTransformer::setRatioTapChanger(std::unique_ptr<RatioTapChanger>
     m_ratioTapChanger = std::move(ratioTapChanger);
 }
 
-unsigned long TwoWindingsTransformer::getRegulatingTapChangerCount() const {
+unsigned long TwoWindingsTransformer::getRegulatingTapChangerCount(bool anyVariant) const {
     unsigned long count = 0;
-    count += (hasPhaseTapChanger() && m_phaseTapChanger->isRegulating()) ? 1 : 0;
-    count += (hasRatioTapChanger() && m_ratioTapChanger->isRegulating()) ? 1 : 0;
+    if (hasPhaseTapChanger() && (anyVariant ? m_phaseTapChanger->isRegulatingInAnyVariant() : m_phaseTapChanger->isRegulating())) {
+        ++count;
+    }
+    if (hasRatioTapChanger() && (anyVariant ? m_ratioTapChanger->isRegulatingInAnyVariant() : m_ratioTapChanger->isRegulating())) {
+        ++count;
+    }
 
     return count;
 }
-- 
2.43.0


From 4892c7ae7b99d345dbd95b8212513680321a4922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 52/67] fix: name the limits of the legs of three windings
 transformers after their number

---
 src/iidm/ThreeWindingsTransformerLeg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/ThreeWindingsTransformerLeg.cpp b/src/iidm/ThreeWindingsTransformerLeg.cpp
index 6949c4a..702f4eb 100644
--- a/src/iidm/ThreeWindingsTransformerLeg.cpp
+++ b/src/iidm/ThreeWindingsTransformerLeg.cpp
@@ -23,7 +23,7 @@ namespace iidm {
 namespace three_windings_transformer {
 
 Leg::Leg(unsigned long legNumber, double r, double x, double g, double b, double ratedU, double ratedS) :
-    FlowsLimitsHolder(stdcxx::format("limits%1%", m_legNumber)),
+    FlowsLimitsHolder(stdcxx::format("limits%1%", legNumber)),
     m_legNumber(legNumber),
     m_r(checkR(*this, r)),
     m_x(checkX(*this, x)),
-- 
2.43.0


From d02db3a6222d6394a9800723d346100b9f4600eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:34 +0000
Subject: [PATCH 53/67] fix: check the section counts of all the variants when
 the maximum section count is changed

---
 include/powsybl/iidm/ShuntCompensator.hpp |  7 +++++++
 src/iidm/ShuntCompensator.cpp             | 14 ++++++++++++++
 src/iidm/ShuntCompensatorLinearModel.cpp  |  2 +-
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/ShuntCompensator.hpp b/include/powsybl/iidm/ShuntCompensator.hpp
index 821c02d..5d9efd9 100644
--- a/include/powsybl/iidm/ShuntCompensator.hpp
+++ b/include/powsybl/iidm/ShuntCompensator.hpp
@@ -75,6 +75,8 @@ public:
 protected: // MultiVariantObject
     void allocateVariantArrayElement(const std::set<unsigned long>& indexes, unsigned long sourceIndex) override;
 
+    void deleteVariantArrayElement(unsigned long index) override;
+
     void extendVariantArraySize(unsigned long initVariantArraySize, unsigned long number, unsigned long sourceIndex) override;
 
     void reduceVariantArraySize(unsigned long number) override;
@@ -82,6 +84,11 @@ protected: // MultiVariantObject
 private: // Identifiable
     const std::string& getTypeDescription() const override;
 
+private:
+    void checkMaximumSectionCount(unsigned long maximumSectionCount) const;
+
+    friend class ShuntCompensatorLinearModel;
+
 private:
     std::unique_ptr<ShuntCompensatorModel> m_model;
 
diff --git a/src/iidm/ShuntCompensator.cpp b/src/iidm/ShuntCompensator.cpp
index 1e7ac9e..152e074 100644
--- a/src/iidm/ShuntCompensator.cpp
+++ b/src/iidm/ShuntCompensator.cpp
@@ -39,6 +39,20 @@ void ShuntCompensator::allocateVariantArrayElement(const std::set<unsigned long>
     }
 }
 
+void ShuntCompensator::checkMaximumSectionCount(unsigned long maximumSectionCount) const {
+    // the model is common to all the variants
+    for (unsigned long sectionCount : m_sectionCount) {
+        checkSections(*this, sectionCount, maximumSectionCount);
+    }
+}
+
+void ShuntCompensator::deleteVariantArrayElement(unsigned long index) {
+    Injection::deleteVariantArrayElement(index);
+
+    // an unused variant must not be taken into account when the model is modified
+    m_sectionCount[index] = 0;
+}
+
 void ShuntCompensator::extendVariantArraySize(unsigned long initVariantArraySize, unsigned long number, unsigned long sourceIndex) {
     Injection::extendVariantArraySize(initVariantArraySize, number, sourceIndex);
 
diff --git a/src/iidm/ShuntCompensatorLinearModel.cpp b/src/iidm/ShuntCompensatorLinearModel.cpp
index cb9f4c1..82e7ff9 100644
--- a/src/iidm/ShuntCompensatorLinearModel.cpp
+++ b/src/iidm/ShuntCompensatorLinearModel.cpp
@@ -73,7 +73,7 @@ ShuntCompensatorLinearModel& ShuntCompensatorLinearModel::setGPerSection(double
 }
 
 ShuntCompensatorLinearModel& ShuntCompensatorLinearModel::setMaximumSectionCount(unsigned long maximumSectionCount) {
-    checkSections(m_shuntCompensator, m_shuntCompensator.get().getSectionCount(), maximumSectionCount);
+    m_shuntCompensator.get().checkMaximumSectionCount(maximumSectionCount);
     m_maximumSectionCount = maximumSectionCount;
     return *this;
 }
-- 
2.43.0


From dc451cae24f7d4621414b1201dfbfafd1d703947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:34 +0000
Subject: [PATCH 54/67] fix: attach the sections of a non linear shunt
 compensator so that they can be modified

---
 include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp | 2 ++
 src/iidm/ShuntCompensatorNonLinearModel.cpp             | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp b/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
index f22f846..796f593 100644
--- a/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
+++ b/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
@@ -35,6 +35,8 @@ public:
     private:
         Section& attach(ShuntCompensator& shuntCompensator);
 
+        friend class ShuntCompensatorNonLinearModel;
+
     private:
         stdcxx::Reference<ShuntCompensator> m_shuntCompensator;
 
diff --git a/src/iidm/ShuntCompensatorNonLinearModel.cpp b/src/iidm/ShuntCompensatorNonLinearModel.cpp
index 8120cbd..0c04b40 100644
--- a/src/iidm/ShuntCompensatorNonLinearModel.cpp
+++ b/src/iidm/ShuntCompensatorNonLinearModel.cpp
@@ -59,6 +59,9 @@ ShuntCompensatorNonLinearModel& ShuntCompensatorNonLinearModel::attach(ShuntComp
         throw AssertionError(stdcxx::format("ShuntCompensatorNonLinearModel already attached to %1%", m_shuntCompensator.get().getId()));
     }
     m_shuntCompensator = shuntCompensator;
+    for (auto& section : m_sections) {
+        section.attach(shuntCompensator);
+    }
     return *this;
 }
 
-- 
2.43.0


From c6d0d8ca64ebf1ce182c85b432b09f556325f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 55/67] fix: compute the other side of branches without series
 impedance

---
 include/powsybl/iidm/util/SV.hpp | 10 +----
 src/iidm/util/SV.cpp             | 64 ++++++++++----------------------
 2 files changed, 21 insertions(+), 53 deletions(-)

diff --git a/include/powsybl/iidm/util/SV.hpp b/include/powsybl/iidm/util/SV.hpp
index 46a443b..e72ea2a 100644
--- a/include/powsybl/iidm/util/SV.hpp
+++ b/include/powsybl/iidm/util/SV.hpp
@@ -113,15 +113,7 @@ private:
 private:
     SV otherSide(const LinkData::BranchAdmittanceMatrix& adm) const;
 
-    double otherSideA(const LinkData::BranchAdmittanceMatrix& adm) const;
-
-    double otherSideP(const LinkData::BranchAdmittanceMatrix& adm) const;
-
-    double otherSideQ(const LinkData::BranchAdmittanceMatrix& adm) const;
-
-    double otherSideU(const LinkData::BranchAdmittanceMatrix& adm) const;
-
-    std::complex<double> otherSideV(const LinkData::BranchAdmittanceMatrix& adm) const;
+    SV otherSide(double ratio1, double angle1, const std::complex<double>& ysh) const;
 
 private:
     double m_p;
diff --git a/src/iidm/util/SV.cpp b/src/iidm/util/SV.cpp
index cf1933e..40873cc 100644
--- a/src/iidm/util/SV.cpp
+++ b/src/iidm/util/SV.cpp
@@ -117,8 +117,12 @@ double SV::getX(const TwoWindingsTransformer& twt) {
 }
 
 SV SV::otherSide(double r, double x, double g1, double b1, double g2, double b2, double rho, double alpha) const {
-    LinkData::BranchAdmittanceMatrix adm = LinkData::calculateBranchAdmittance(r, x, 1 / rho, -alpha, 1.0, 0.0,
-                                                                             std::complex<double>(g1, b1), std::complex<double>(g2, b2));
+    const std::complex<double> ysh1(g1, b1);
+    const std::complex<double> ysh2(g2, b2);
+    if (r == 0.0 && x == 0.0) {
+        return otherSide(1 / rho, -alpha, ysh1 + ysh2);
+    }
+    LinkData::BranchAdmittanceMatrix adm = LinkData::calculateBranchAdmittance(r, x, 1 / rho, -alpha, 1.0, 0.0, ysh1, ysh2);
     return otherSide(adm);
 }
 
@@ -168,10 +172,18 @@ SV SV::otherSide(const LinkData::BranchAdmittanceMatrix& adm) const {
     return {std::real(s), std::imag(s), std::abs(v), std::arg(v) * stdcxx::toDegrees, otherSide};
 }
 
+SV SV::otherSide(double ratio1, double angle1, const std::complex<double>& ysh) const {
+    // without series impedance both ends have the same voltage, apart from the ratio of the transformer
+    const std::complex<double> a1 = std::polar(ratio1, angle1);
+    const std::complex<double> v = std::polar(m_u, m_a * stdcxx::toRadians);
+    const std::complex<double> v2 = m_side == Branch::Side::ONE ? v / a1 : v;
+    const std::complex<double> otherV = m_side == Branch::Side::ONE ? v2 : v * a1;
+    const std::complex<double> s = std::conj(ysh) * std::norm(v2) - std::complex<double>(m_p, m_q);
+    return {std::real(s), std::imag(s), std::abs(otherV), std::arg(otherV) * stdcxx::toDegrees, m_side == Branch::Side::ONE ? Branch::Side::TWO : Branch::Side::ONE};
+}
+
 double SV::otherSideA(double r, double x, double g1, double b1, double g2, double b2, double rho, double alpha) const {
-    LinkData::BranchAdmittanceMatrix adm = LinkData::calculateBranchAdmittance(r, x, 1 / rho, -alpha, 1.0, 0.0,
-                                                                               std::complex<double>(g1, b1), std::complex<double>(g2, b2));
-    return otherSideA(adm);
+    return otherSide(r, x, g1, b1, g2, b2, rho, alpha).getA();
 }
 
 double SV::otherSideA(const TieLine::HalfLine& halfLine) const {
@@ -189,14 +201,8 @@ double SV::otherSideA(const DanglingLine& dl, bool splitShuntAdmittance) const {
     return otherSideA(dl);
 }
 
-double SV::otherSideA(const LinkData::BranchAdmittanceMatrix& adm) const {
-    return std::arg(otherSideV(adm)) * stdcxx::toDegrees;
-}
-
 double SV::otherSideP(double r, double x, double g1, double b1, double g2, double b2, double rho, double alpha) const {
-    LinkData::BranchAdmittanceMatrix adm = LinkData::calculateBranchAdmittance(r, x, 1 / rho, -alpha, 1.0, 0.0,
-                                                                               std::complex<double>(g1, b1), std::complex<double>(g2, b2));
-    return otherSideP(adm);
+    return otherSide(r, x, g1, b1, g2, b2, rho, alpha).getP();
 }
 
 double SV::otherSideP(const TieLine::HalfLine& halfLine) const {
@@ -214,14 +220,8 @@ double SV::otherSideP(const DanglingLine& dl, bool splitShuntAdmittance) const {
     return otherSideP(dl);
 }
 
-double SV::otherSideP(const LinkData::BranchAdmittanceMatrix& adm) const {
-    return otherSide(adm).getP();
-}
-
 double SV::otherSideQ(double r, double x, double g1, double b1, double g2, double b2, double rho, double alpha) const {
-    LinkData::BranchAdmittanceMatrix adm = LinkData::calculateBranchAdmittance(r, x, 1 / rho, -alpha, 1.0, 0.0,
-                                                                               std::complex<double>(g1, b1), std::complex<double>(g2, b2));
-    return otherSideQ(adm);
+    return otherSide(r, x, g1, b1, g2, b2, rho, alpha).getQ();
 }
 
 double SV::otherSideQ(const TieLine::HalfLine& halfLine) const {
@@ -239,14 +239,8 @@ double SV::otherSideQ(const DanglingLine& dl, bool splitShuntAdmittance) const {
     return otherSideQ(dl);
 }
 
-double SV::otherSideQ(const LinkData::BranchAdmittanceMatrix& adm) const {
-    return otherSide(adm).getQ();
-}
-
 double SV::otherSideU(double r, double x, double g1, double b1, double g2, double b2, double rho, double alpha) const {
-    LinkData::BranchAdmittanceMatrix adm = LinkData::calculateBranchAdmittance(r, x, 1 / rho, -alpha, 1.0, 0.0,
-                                                                               std::complex<double>(g1, b1), std::complex<double>(g2, b2));
-    return otherSideU(adm);
+    return otherSide(r, x, g1, b1, g2, b2, rho, alpha).getU();
 }
 
 double SV::otherSideU(const TieLine::HalfLine& halfLine) const {
@@ -264,24 +258,6 @@ double SV::otherSideU(const DanglingLine& dl, bool splitShuntAdmittance) const {
     return otherSideU(dl);
 }
 
-double SV::otherSideU(const LinkData::BranchAdmittanceMatrix& adm) const {
-    return std::abs(otherSideV(adm));
-}
-
-std::complex<double> SV::otherSideV(const LinkData::BranchAdmittanceMatrix& adm) const {
-    std::complex<double> v;
-    if (m_side == Branch::Side::ONE) {
-        std::complex<double> v1 = std::polar(m_u, m_a * stdcxx::toRadians);
-        std::complex<double> s1(m_p, m_q);
-        v = voltageAtEnd2(adm, v1, s1);
-    } else {
-        std::complex<double> v2 = std::polar(m_u, m_a * stdcxx::toRadians);
-        std::complex<double> s2(m_p, m_q);
-        v = voltageAtEnd1(adm, v2, s2);
-    }
-    return v;
-}
-
 std::complex<double> SV::voltageAtEnd1(const LinkData::BranchAdmittanceMatrix& adm, const std::complex<double>& vEnd2, const std::complex<double>& sEnd2) {
     return (std::conj(sEnd2) / std::conj(vEnd2) - adm.y22 * vEnd2) / adm.y21;
 }
-- 
2.43.0


From ff60d9e50ca2485d1274329d946d4bbb7eb1b571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:58 +0000
Subject: [PATCH 56/67] fix: keep the existing extension when its replacement
 is refused

---
 src/iidm/Extendable.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/iidm/Extendable.cpp b/src/iidm/Extendable.cpp
index 3abc139..8c982cc 100644
--- a/src/iidm/Extendable.cpp
+++ b/src/iidm/Extendable.cpp
@@ -28,15 +28,17 @@ Extendable::Extendable(Extendable&& extendable) noexcept :
 }
 
 void Extendable::addExtension(std::unique_ptr<Extension>&& extension) {
+    // may be refused: the existing extension must still be there in that case
+    extension->setExtendable(*this);
+
     auto it = m_extensionsByName.find(extension->getName());
     if (it != m_extensionsByName.end()) {
         // Clean the existing extension
         it->second->setExtendable(stdcxx::ref<Extendable>());
-        m_extensionsByName.erase(extension->getName());
-        m_extensionsByType.erase(extension->getType());
+        m_extensionsByType.erase(it->second->getType());
+        m_extensionsByName.erase(it);
     }
 
-    extension->setExtendable(*this);
     auto newIt = m_extensionsByName.emplace(std::make_pair(extension->getName(), std::move(extension)));
 
     std::reference_wrapper<Extension> refExtension = *newIt.first->second;
-- 
2.43.0


From aed10ffe38e1295a24ed41793b965ff77da88c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:58 +0000
Subject: [PATCH 57/67] fix: return the measurement that was added, also when
 it has no identifier

---
 extensions/iidm/src/DiscreteMeasurementAdder.cpp | 3 ++-
 extensions/iidm/src/MeasurementAdder.cpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurementAdder.cpp b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
index aeb5606..383aaf2 100644
--- a/extensions/iidm/src/DiscreteMeasurementAdder.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
@@ -32,9 +32,10 @@ DiscreteMeasurement& DiscreteMeasurementAdder::add() {
 
     auto discreteMeasurement = std::unique_ptr<DiscreteMeasurement>(
         new DiscreteMeasurement(m_discreteMeasurements, m_id, m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
+    DiscreteMeasurement& result = *discreteMeasurement;
     m_discreteMeasurements.add(std::move(discreteMeasurement));
 
-    return m_discreteMeasurements.getDiscreteMeasurement(m_id);
+    return result;
 }
 
 DiscreteMeasurementAdder& DiscreteMeasurementAdder::putProperty(const std::string& name, const std::string& value) {
diff --git a/extensions/iidm/src/MeasurementAdder.cpp b/extensions/iidm/src/MeasurementAdder.cpp
index 8caabb7..bb02786 100644
--- a/extensions/iidm/src/MeasurementAdder.cpp
+++ b/extensions/iidm/src/MeasurementAdder.cpp
@@ -31,8 +31,9 @@ Measurement& MeasurementAdder::add() {
     MeasurementValidationUtil::checkValue(m_value, m_valid);
     MeasurementValidationUtil::checkSide(*m_type, m_side, m_measurements.getExtendable<Connectable>().get());
     std::unique_ptr<Measurement> measurement = stdcxx::make_unique<Measurement>(m_measurements, m_id, *m_type, m_properties, m_value, m_standardDeviation, m_valid, m_side);
+    Measurement& result = *measurement;
     m_measurements.add(std::move(measurement));
-    return m_measurements.getMeasurement(m_id).get();
+    return result;
 }
 
 MeasurementAdder& MeasurementAdder::putProperty(const std::string& name, const std::string& value) {
-- 
2.43.0


From c6ec85319a28cd2a6bf83b42346c6d59bfd8a603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:58 +0000
Subject: [PATCH 58/67] fix: refuse to empty the name of a feeder, as at its
 creation

---
 extensions/sld/src/ConnectablePosition.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions/sld/src/ConnectablePosition.cpp b/extensions/sld/src/ConnectablePosition.cpp
index 42b8391..762de1f 100644
--- a/extensions/sld/src/ConnectablePosition.cpp
+++ b/extensions/sld/src/ConnectablePosition.cpp
@@ -57,6 +57,9 @@ ConnectablePosition::Feeder& ConnectablePosition::Feeder::setDirection(const Dir
 }
 
 ConnectablePosition::Feeder& ConnectablePosition::Feeder::setName(const std::string& name) {
+    if (name.empty()) {
+        throw PowsyblException("Feeder name is empty");
+    }
     m_name = name;
     return *this;
 }
-- 
2.43.0


From d4fb88bf5cd9f09b35f0de85d2768fdb1408eec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:58 +0000
Subject: [PATCH 59/67] fix: refuse a discrete measurement without type instead
 of reading an uninitialised one

---
 .../iidm/extensions/iidm/DiscreteMeasurementAdder.hpp    | 2 +-
 extensions/iidm/src/DiscreteMeasurementAdder.cpp         | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp b/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
index 904e835..85309d9 100644
--- a/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
+++ b/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
@@ -80,7 +80,7 @@ private:
 
     std::string m_id;
 
-    DiscreteMeasurement::Type m_type;
+    stdcxx::optional<DiscreteMeasurement::Type> m_type;
 
     stdcxx::optional<DiscreteMeasurement::TapChanger> m_tapChanger;
 
diff --git a/extensions/iidm/src/DiscreteMeasurementAdder.cpp b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
index 383aaf2..c9b8998 100644
--- a/extensions/iidm/src/DiscreteMeasurementAdder.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
@@ -26,12 +26,15 @@ DiscreteMeasurementAdder::DiscreteMeasurementAdder(DiscreteMeasurements& discret
 
 DiscreteMeasurement& DiscreteMeasurementAdder::add() {
     DiscreteMeasurementValidationUtil::checkId(m_id, m_discreteMeasurements);
-    DiscreteMeasurementValidationUtil::checkType(m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
-    DiscreteMeasurementValidationUtil::checkTapChanger(m_tapChanger, m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
+    if (!m_type) {
+        throw PowsyblException("Discrete measurement type can not be null");
+    }
+    DiscreteMeasurementValidationUtil::checkType(*m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
+    DiscreteMeasurementValidationUtil::checkTapChanger(m_tapChanger, *m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
     DiscreteMeasurementValidationUtil::checkValue(m_value, m_valid);
 
     auto discreteMeasurement = std::unique_ptr<DiscreteMeasurement>(
-        new DiscreteMeasurement(m_discreteMeasurements, m_id, m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
+        new DiscreteMeasurement(m_discreteMeasurements, m_id, *m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
     DiscreteMeasurement& result = *discreteMeasurement;
     m_discreteMeasurements.add(std::move(discreteMeasurement));
 
-- 
2.43.0


From 12e0fb7840d324289827d9104a11d0d87be7e25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 60/67] fix: filter the measurements by a copy of the requested
 type, which may be gone when the range is read

---
 extensions/iidm/src/DiscreteMeasurements.cpp | 4 ++--
 extensions/iidm/src/Measurements.cpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurements.cpp b/extensions/iidm/src/DiscreteMeasurements.cpp
index 519ff06..35e7aec 100644
--- a/extensions/iidm/src/DiscreteMeasurements.cpp
+++ b/extensions/iidm/src/DiscreteMeasurements.cpp
@@ -64,7 +64,7 @@ stdcxx::range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements
 }
 
 stdcxx::const_range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements(const DiscreteMeasurement::Type& type) const {
-    const auto& filter = [&type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
         return measurement->getType() == type;
     };
 
@@ -72,7 +72,7 @@ stdcxx::const_range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasur
 }
 
 stdcxx::range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements(const DiscreteMeasurement::Type& type) {
-    const auto& filter = [&type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
         return measurement->getType() == type;
     };
 
diff --git a/extensions/iidm/src/Measurements.cpp b/extensions/iidm/src/Measurements.cpp
index 6853d7a..d2c03fb 100644
--- a/extensions/iidm/src/Measurements.cpp
+++ b/extensions/iidm/src/Measurements.cpp
@@ -59,7 +59,7 @@ stdcxx::const_range<Measurement> Measurements::getMeasurements() const {
 }
 
 stdcxx::const_range<Measurement> Measurements::getMeasurements(const Measurement::Type& type) const {
-    const auto& filter = [&type](const std::unique_ptr<Measurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<Measurement>& measurement) {
         return measurement->getType() == type;
     };
 
@@ -67,7 +67,7 @@ stdcxx::const_range<Measurement> Measurements::getMeasurements(const Measurement
 }
 
 stdcxx::range<Measurement> Measurements::getMeasurements(const Measurement::Type& type) {
-    const auto& filter = [&type](const std::unique_ptr<Measurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<Measurement>& measurement) {
         return measurement->getType() == type;
     };
 
-- 
2.43.0


From a3b236de67827550abe77dd0d6cf73a0ace7dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:36 +0000
Subject: [PATCH 61/67] fix: check that an injection is attachable before
 adding it to the network

---
 src/iidm/BatteryAdder.cpp              | 6 ++++--
 src/iidm/DanglingLineAdder.cpp         | 6 ++++--
 src/iidm/GeneratorAdder.cpp            | 6 ++++--
 src/iidm/LccConverterStationAdder.cpp  | 6 ++++--
 src/iidm/LoadAdder.cpp                 | 6 ++++--
 src/iidm/ShuntCompensatorAdder.cpp     | 6 ++++--
 src/iidm/StaticVarCompensatorAdder.cpp | 6 ++++--
 src/iidm/VscConverterStationAdder.cpp  | 6 ++++--
 8 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/iidm/BatteryAdder.cpp b/src/iidm/BatteryAdder.cpp
index 20c7a74..5457931 100644
--- a/src/iidm/BatteryAdder.cpp
+++ b/src/iidm/BatteryAdder.cpp
@@ -30,9 +30,11 @@ Battery& BatteryAdder::add() {
     checkActivePowerLimits(*this, m_minP, m_maxP);
 
     std::unique_ptr<Battery> ptrBattery = stdcxx::make_unique<Battery>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_p0, m_q0, m_minP, m_maxP);
-    auto& battery = getNetwork().checkAndAdd<Battery>(std::move(ptrBattery));
+    // check that the battery is attachable before adding it to the network
+    Terminal& terminal = ptrBattery->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = battery.addTerminal(checkAndGetTerminal());
+    auto& battery = getNetwork().checkAndAdd<Battery>(std::move(ptrBattery));
     getVoltageLevel().attach(terminal, false);
 
     return battery;
diff --git a/src/iidm/DanglingLineAdder.cpp b/src/iidm/DanglingLineAdder.cpp
index 3ab1eb9..daf83ef 100644
--- a/src/iidm/DanglingLineAdder.cpp
+++ b/src/iidm/DanglingLineAdder.cpp
@@ -34,9 +34,11 @@ DanglingLine& DanglingLineAdder::add() {
 
     std::unique_ptr<DanglingLine> ptrDanglingLine = stdcxx::make_unique<DanglingLine>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(),
                                                                                       m_p0, m_q0, m_r, m_x, m_g, m_b, m_ucteXnodeCode, std::move(ptrGeneration));
-    auto& danglingLine = getNetwork().checkAndAdd<DanglingLine>(std::move(ptrDanglingLine));
+    // check that the dangling line is attachable before adding it to the network
+    Terminal& terminal = ptrDanglingLine->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = danglingLine.addTerminal(checkAndGetTerminal());
+    auto& danglingLine = getNetwork().checkAndAdd<DanglingLine>(std::move(ptrDanglingLine));
     getVoltageLevel().attach(terminal, false);
 
     return danglingLine;
diff --git a/src/iidm/GeneratorAdder.cpp b/src/iidm/GeneratorAdder.cpp
index 877c6b5..05c27bd 100644
--- a/src/iidm/GeneratorAdder.cpp
+++ b/src/iidm/GeneratorAdder.cpp
@@ -37,9 +37,11 @@ Generator& GeneratorAdder::add() {
     std::unique_ptr<Generator> ptrGenerator = stdcxx::make_unique<Generator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(),
         m_energySource, m_minP, m_maxP, *m_voltageRegulatorOn, regulatingTerminal,
         m_activePowerSetpoint, m_reactivePowerSetpoint, m_voltageSetpoint, m_ratedS);
-    auto& generator = getNetwork().checkAndAdd(std::move(ptrGenerator));
+    // check that the generator is attachable before adding it to the network
+    Terminal& terminal = ptrGenerator->addTerminal(std::move(terminalPtr));
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = generator.addTerminal(std::move(terminalPtr));
+    auto& generator = getNetwork().checkAndAdd(std::move(ptrGenerator));
     getVoltageLevel().attach(terminal, false);
 
     return generator;
diff --git a/src/iidm/LccConverterStationAdder.cpp b/src/iidm/LccConverterStationAdder.cpp
index 9d33d45..14ebe4b 100644
--- a/src/iidm/LccConverterStationAdder.cpp
+++ b/src/iidm/LccConverterStationAdder.cpp
@@ -24,9 +24,11 @@ LccConverterStation& LccConverterStationAdder::add() {
     validate();
 
     std::unique_ptr<LccConverterStation> ptrLcc = stdcxx::make_unique<LccConverterStation>(checkAndGetUniqueId(), getName(), isFictitious(), getLossFactor(), m_powerFactor);
-    auto& lcc = getNetwork().checkAndAdd<LccConverterStation>(std::move(ptrLcc));
+    // check that the converter station is attachable before adding it to the network
+    Terminal& terminal = ptrLcc->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = lcc.addTerminal(checkAndGetTerminal());
+    auto& lcc = getNetwork().checkAndAdd<LccConverterStation>(std::move(ptrLcc));
     getVoltageLevel().attach(terminal, false);
 
     return lcc;
diff --git a/src/iidm/LoadAdder.cpp b/src/iidm/LoadAdder.cpp
index 24ff9ed..62421db 100644
--- a/src/iidm/LoadAdder.cpp
+++ b/src/iidm/LoadAdder.cpp
@@ -27,9 +27,11 @@ Load& LoadAdder::add() {
     checkQ0(*this, m_q0);
 
     std::unique_ptr<Load> ptrLoad = stdcxx::make_unique<Load>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_loadType, m_p0, m_q0);
-    auto& load = getNetwork().checkAndAdd<Load>(std::move(ptrLoad));
+    // check that the load is attachable before adding it to the network
+    Terminal& terminal = ptrLoad->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = load.addTerminal(checkAndGetTerminal());
+    auto& load = getNetwork().checkAndAdd<Load>(std::move(ptrLoad));
     getVoltageLevel().attach(terminal, false);
 
     return load;
diff --git a/src/iidm/ShuntCompensatorAdder.cpp b/src/iidm/ShuntCompensatorAdder.cpp
index 99cd059..16d60e2 100644
--- a/src/iidm/ShuntCompensatorAdder.cpp
+++ b/src/iidm/ShuntCompensatorAdder.cpp
@@ -34,9 +34,11 @@ ShuntCompensator& ShuntCompensatorAdder::add() {
     Terminal& regulatingTerminal = m_regulatingTerminal ? m_regulatingTerminal.get() : *ptrTerminal;
     std::unique_ptr<ShuntCompensator> ptrShunt = stdcxx::make_unique<ShuntCompensator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_modelBuilder->build(),
                                                                                        *m_sectionCount, regulatingTerminal, m_voltageRegulatorOn, m_targetV, m_targetDeadband);
-    auto& shunt = getNetwork().checkAndAdd<ShuntCompensator>(std::move(ptrShunt));
+    // check that the shunt compensator is attachable before adding it to the network
+    Terminal& terminal = ptrShunt->addTerminal(std::move(ptrTerminal));
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = shunt.addTerminal(std::move(ptrTerminal));
+    auto& shunt = getNetwork().checkAndAdd<ShuntCompensator>(std::move(ptrShunt));
     getVoltageLevel().attach(terminal, false);
 
     return shunt;
diff --git a/src/iidm/StaticVarCompensatorAdder.cpp b/src/iidm/StaticVarCompensatorAdder.cpp
index 751e139..a0bf558 100644
--- a/src/iidm/StaticVarCompensatorAdder.cpp
+++ b/src/iidm/StaticVarCompensatorAdder.cpp
@@ -31,9 +31,11 @@ StaticVarCompensator& StaticVarCompensatorAdder::add() {
     Terminal& regulatingTerminal = m_regulatingTerminal ? m_regulatingTerminal.get() : *ptrTerminal;
     std::unique_ptr<StaticVarCompensator> ptrSvc = stdcxx::make_unique<StaticVarCompensator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_bMin, m_bMax, m_voltageSetpoint,
         m_reactivePowerSetpoint, *m_regulationMode, regulatingTerminal);
-    auto& svc = getNetwork().checkAndAdd<StaticVarCompensator>(std::move(ptrSvc));
+    // check that the static var compensator is attachable before adding it to the network
+    Terminal& terminal = ptrSvc->addTerminal(std::move(ptrTerminal));
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = svc.addTerminal(std::move(ptrTerminal));
+    auto& svc = getNetwork().checkAndAdd<StaticVarCompensator>(std::move(ptrSvc));
     getVoltageLevel().attach(terminal, false);
 
     return svc;
diff --git a/src/iidm/VscConverterStationAdder.cpp b/src/iidm/VscConverterStationAdder.cpp
index c1a188c..e13b0d1 100644
--- a/src/iidm/VscConverterStationAdder.cpp
+++ b/src/iidm/VscConverterStationAdder.cpp
@@ -24,9 +24,11 @@ VscConverterStation& VscConverterStationAdder::add() {
     validate();
 
     std::unique_ptr<VscConverterStation> ptrVsc = stdcxx::make_unique<VscConverterStation>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), getLossFactor(), *m_voltageRegulatorOn, m_reactivePowerSetpoint, m_voltageSetpoint);
-    auto& vsc = getNetwork().checkAndAdd<VscConverterStation>(std::move(ptrVsc));
+    // check that the converter station is attachable before adding it to the network
+    Terminal& terminal = ptrVsc->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = vsc.addTerminal(checkAndGetTerminal());
+    auto& vsc = getNetwork().checkAndAdd<VscConverterStation>(std::move(ptrVsc));
     getVoltageLevel().attach(terminal, false);
 
     return vsc;
-- 
2.43.0


From 7b8185010ea87871eb5a15318b86322b686dc6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:24 +0000
Subject: [PATCH 62/67] fix: refuse several ends of a branch on the same node
 before adding it to the network

---
 include/powsybl/iidm/ValidationUtils.hpp   |  2 ++
 src/iidm/LineAdder.cpp                     |  1 +
 src/iidm/ThreeWindingsTransformerAdder.cpp |  4 ++++
 src/iidm/TieLineAdder.cpp                  |  1 +
 src/iidm/TwoWindingsTransformerAdder.cpp   |  1 +
 src/iidm/ValidationUtils.cpp               | 13 +++++++++++++
 6 files changed, 22 insertions(+)

diff --git a/include/powsybl/iidm/ValidationUtils.hpp b/include/powsybl/iidm/ValidationUtils.hpp
index c249dbb..4f65c9b 100644
--- a/include/powsybl/iidm/ValidationUtils.hpp
+++ b/include/powsybl/iidm/ValidationUtils.hpp
@@ -44,6 +44,8 @@ double checkBPerSection(const Validable& validable, double bPerSection);
 
 const HvdcLine::ConvertersMode& checkConvertersMode(const Validable& validable, const HvdcLine::ConvertersMode& converterMode);
 
+void checkDistinctNodes(const Validable& validable, const Terminal& terminal1, const Terminal& terminal2);
+
 int checkForecastDistance(const Validable& validable, int forecastDistance);
 
 double checkG(const Validable& validable, double g);
diff --git a/src/iidm/LineAdder.cpp b/src/iidm/LineAdder.cpp
index cddfedb..9ef1a28 100644
--- a/src/iidm/LineAdder.cpp
+++ b/src/iidm/LineAdder.cpp
@@ -40,6 +40,7 @@ Line& LineAdder::add() {
     // check that the line is attachable on both side
     voltageLevel1.attach(*ptrTerminal1, true);
     voltageLevel2.attach(*ptrTerminal2, true);
+    checkDistinctNodes(*this, *ptrTerminal1, *ptrTerminal2);
 
     std::unique_ptr<Line> ptrLine = stdcxx::make_unique<Line>(checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_x, m_g1, m_b1, m_g2, m_b2);
     auto& line = m_network.checkAndAdd<Line>(std::move(ptrLine));
diff --git a/src/iidm/ThreeWindingsTransformerAdder.cpp b/src/iidm/ThreeWindingsTransformerAdder.cpp
index 79332c7..9632381 100644
--- a/src/iidm/ThreeWindingsTransformerAdder.cpp
+++ b/src/iidm/ThreeWindingsTransformerAdder.cpp
@@ -8,6 +8,7 @@
 #include <powsybl/iidm/ThreeWindingsTransformerAdder.hpp>
 
 #include <powsybl/iidm/Substation.hpp>
+#include <powsybl/iidm/ValidationUtils.hpp>
 #include <powsybl/iidm/VoltageLevel.hpp>
 #include <powsybl/logging/Logger.hpp>
 #include <powsybl/logging/LoggerFactory.hpp>
@@ -49,6 +50,9 @@ ThreeWindingsTransformer& ThreeWindingsTransformerAdder::add() {
     voltageLevel1.attach(*ptrTerminal1, true);
     voltageLevel2.attach(*ptrTerminal2, true);
     voltageLevel3.attach(*ptrTerminal3, true);
+    checkDistinctNodes(*this, *ptrTerminal1, *ptrTerminal2);
+    checkDistinctNodes(*this, *ptrTerminal1, *ptrTerminal3);
+    checkDistinctNodes(*this, *ptrTerminal2, *ptrTerminal3);
 
     // Define ratedU0 equal to ratedU1 if it has not been defined
     if (std::isnan(m_ratedU0)) {
diff --git a/src/iidm/TieLineAdder.cpp b/src/iidm/TieLineAdder.cpp
index 1167fb1..f7b1591 100644
--- a/src/iidm/TieLineAdder.cpp
+++ b/src/iidm/TieLineAdder.cpp
@@ -42,6 +42,7 @@ TieLine& TieLineAdder::add() {
     // check that the line is attachable on both side
     voltageLevel1.attach(*ptrTerminal1, true);
     voltageLevel2.attach(*ptrTerminal2, true);
+    checkDistinctNodes(*this, *ptrTerminal1, *ptrTerminal2);
 
     std::unique_ptr<TieLine> ptrTieLine = stdcxx::make_unique<TieLine>(checkAndGetUniqueId(), getName(), isFictitious(), m_ucteXnodeCode, std::move(half1), std::move(half2));
     auto& tieLine = m_network.checkAndAdd<TieLine>(std::move(ptrTieLine));
diff --git a/src/iidm/TwoWindingsTransformerAdder.cpp b/src/iidm/TwoWindingsTransformerAdder.cpp
index 8a9f7c6..bc964f9 100644
--- a/src/iidm/TwoWindingsTransformerAdder.cpp
+++ b/src/iidm/TwoWindingsTransformerAdder.cpp
@@ -43,6 +43,7 @@ TwoWindingsTransformer& TwoWindingsTransformerAdder::add() {
     // check that the two windings transformer is attachable on both side
     voltageLevel1.attach(*ptrTerminal1, true);
     voltageLevel2.attach(*ptrTerminal2, true);
+    checkDistinctNodes(*this, *ptrTerminal1, *ptrTerminal2);
 
     std::unique_ptr<TwoWindingsTransformer> ptrTransformer = stdcxx::make_unique<TwoWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), m_substation, m_r, m_x, m_g, m_b, m_ratedU1, m_ratedU2, m_ratedS);
     auto& transformer = getNetwork().checkAndAdd<TwoWindingsTransformer>(std::move(ptrTransformer));
diff --git a/src/iidm/ValidationUtils.cpp b/src/iidm/ValidationUtils.cpp
index 68dc3e6..8ecb579 100644
--- a/src/iidm/ValidationUtils.cpp
+++ b/src/iidm/ValidationUtils.cpp
@@ -10,11 +10,13 @@
 #include <cmath>
 
 #include <powsybl/iidm/LoadType.hpp>
+#include <powsybl/iidm/Terminal.hpp>
 #include <powsybl/iidm/VoltageLevel.hpp>
 #include <powsybl/logging/Logger.hpp>
 #include <powsybl/logging/LoggerFactory.hpp>
 #include <powsybl/stdcxx/format.hpp>
 #include <powsybl/stdcxx/math.hpp>
+#include <powsybl/stdcxx/memory.hpp>
 
 namespace powsybl {
 
@@ -100,6 +102,17 @@ const HvdcLine::ConvertersMode& checkConvertersMode(const Validable& /*validable
     return converterMode;
 }
 
+void checkDistinctNodes(const Validable& validable, const Terminal& terminal1, const Terminal& terminal2) {
+    const VoltageLevel& voltageLevel = terminal1.getVoltageLevel();
+    if (voltageLevel.getTopologyKind() != TopologyKind::NODE_BREAKER || !stdcxx::areSame(voltageLevel, terminal2.getVoltageLevel())) {
+        return;
+    }
+    unsigned long node = terminal1.getNodeBreakerView().getNode();
+    if (node == terminal2.getNodeBreakerView().getNode()) {
+        throw ValidationException(validable, stdcxx::format("several ends are connected to the node %1% of voltage level %2%", node, voltageLevel.getId()));
+    }
+}
+
 int checkForecastDistance(const Validable& validable, int forecastDistance) {
     if (forecastDistance < 0) {
         throw ValidationException(validable, "Forecast distance is < 0");
-- 
2.43.0


From c6ab3a41bc38ee7228d721910d7baaceb55a833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:16 +0000
Subject: [PATCH 63/67] fix: keep the boolean attributes of the variants in
 distinct memory locations

A std::vector<bool> packs the values of several variants in the same word:
threads writing the same attribute in their own variants were racing and
could lose an update.
---
 include/powsybl/iidm/DanglingLineGeneration.hpp | 3 ++-
 include/powsybl/iidm/Generator.hpp              | 3 ++-
 include/powsybl/iidm/ShuntCompensator.hpp       | 3 ++-
 include/powsybl/iidm/Switch.hpp                 | 6 +++---
 include/powsybl/iidm/TapChanger.hpp             | 3 ++-
 include/powsybl/iidm/VscConverterStation.hpp    | 4 +++-
 src/iidm/BusTerminal.hpp                        | 3 ++-
 7 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/powsybl/iidm/DanglingLineGeneration.hpp b/include/powsybl/iidm/DanglingLineGeneration.hpp
index 4ece846..be512fd 100644
--- a/include/powsybl/iidm/DanglingLineGeneration.hpp
+++ b/include/powsybl/iidm/DanglingLineGeneration.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_DANGLINGLINEGENERATION_HPP
 #define POWSYBL_IIDM_DANGLINGLINEGENERATION_HPP
 
+#include <deque>
 #include <set>
 #include <vector>
 
@@ -79,7 +80,7 @@ private:
 
     std::vector<double> m_targetV;
 
-    std::vector<bool> m_voltageRegulationOn;
+    std::deque<bool> m_voltageRegulationOn;
 };
 
 }  // namespace dangling_line
diff --git a/include/powsybl/iidm/Generator.hpp b/include/powsybl/iidm/Generator.hpp
index d360bc7..a728bad 100644
--- a/include/powsybl/iidm/Generator.hpp
+++ b/include/powsybl/iidm/Generator.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_GENERATOR_HPP
 #define POWSYBL_IIDM_GENERATOR_HPP
 
+#include <deque>
 #include <functional>
 
 #include <powsybl/iidm/EnergySource.hpp>
@@ -99,7 +100,7 @@ private:
 
     std::reference_wrapper<Terminal> m_regulatingTerminal;
 
-    std::vector<bool> m_voltageRegulatorOn;
+    std::deque<bool> m_voltageRegulatorOn;
 
     std::vector<double> m_activePowerSetpoint;
 
diff --git a/include/powsybl/iidm/ShuntCompensator.hpp b/include/powsybl/iidm/ShuntCompensator.hpp
index 5d9efd9..fad86ba 100644
--- a/include/powsybl/iidm/ShuntCompensator.hpp
+++ b/include/powsybl/iidm/ShuntCompensator.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_SHUNTCOMPENSATOR_HPP
 #define POWSYBL_IIDM_SHUNTCOMPENSATOR_HPP
 
+#include <deque>
 #include <functional>
 #include <vector>
 
@@ -97,7 +98,7 @@ private:
 
     std::reference_wrapper<Terminal> m_regulatingTerminal;
 
-    std::vector<bool> m_voltageRegulatorOn;
+    std::deque<bool> m_voltageRegulatorOn;
 
     std::vector<double> m_targetV;
 
diff --git a/include/powsybl/iidm/Switch.hpp b/include/powsybl/iidm/Switch.hpp
index 9a0d39c..675d918 100644
--- a/include/powsybl/iidm/Switch.hpp
+++ b/include/powsybl/iidm/Switch.hpp
@@ -8,7 +8,7 @@
 #ifndef POWSYBL_IIDM_SWITCH_HPP
 #define POWSYBL_IIDM_SWITCH_HPP
 
-#include <vector>
+#include <deque>
 
 #include <powsybl/iidm/Identifiable.hpp>
 #include <powsybl/iidm/SwitchKind.hpp>
@@ -63,9 +63,9 @@ private:
 
     SwitchKind m_kind;
 
-    std::vector<bool> m_open;
+    std::deque<bool> m_open;
 
-    std::vector<bool> m_retained;
+    std::deque<bool> m_retained;
 };
 
 }  // namespace iidm
diff --git a/include/powsybl/iidm/TapChanger.hpp b/include/powsybl/iidm/TapChanger.hpp
index a85ee46..7bf9f62 100644
--- a/include/powsybl/iidm/TapChanger.hpp
+++ b/include/powsybl/iidm/TapChanger.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_TAPCHANGER_HPP
 #define POWSYBL_IIDM_TAPCHANGER_HPP
 
+#include <deque>
 #include <functional>
 #include <map>
 #include <set>
@@ -113,7 +114,7 @@ private:
 
     std::vector<long> m_tapPosition;
 
-    std::vector<bool> m_regulating;
+    std::deque<bool> m_regulating;
 
     std::vector<double> m_targetDeadband;
 
diff --git a/include/powsybl/iidm/VscConverterStation.hpp b/include/powsybl/iidm/VscConverterStation.hpp
index d3a49d5..0bd4634 100644
--- a/include/powsybl/iidm/VscConverterStation.hpp
+++ b/include/powsybl/iidm/VscConverterStation.hpp
@@ -8,6 +8,8 @@
 #ifndef POWSYBL_IIDM_VSCCONVERTERSTATION_HPP
 #define POWSYBL_IIDM_VSCCONVERTERSTATION_HPP
 
+#include <deque>
+
 #include <powsybl/iidm/HvdcConverterStation.hpp>
 #include <powsybl/iidm/ReactiveLimitsHolder.hpp>
 
@@ -49,7 +51,7 @@ private: // Identifiable
     const std::string& getTypeDescription() const override;
 
 private:
-    std::vector<bool> m_voltageRegulatorOn;
+    std::deque<bool> m_voltageRegulatorOn;
 
     std::vector<double> m_reactivePowerSetpoint;
 
diff --git a/src/iidm/BusTerminal.hpp b/src/iidm/BusTerminal.hpp
index ae19e82..49c0da1 100644
--- a/src/iidm/BusTerminal.hpp
+++ b/src/iidm/BusTerminal.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_BUSTERMINAL_HPP
 #define POWSYBL_IIDM_BUSTERMINAL_HPP
 
+#include <deque>
 #include <iosfwd>
 #include <set>
 #include <string>
@@ -81,7 +82,7 @@ protected: // MultiVariantObject
     void reduceVariantArraySize(unsigned long number) override;
 
 private:
-    std::vector<bool> m_connected;
+    std::deque<bool> m_connected;
 
     std::vector<std::string> m_connectableBusId;
 
-- 
2.43.0


From 6ae4cece323108cf4606f0402bc26e3d3a65e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:32 +0000
Subject: [PATCH 64/67] fix: list the equipment of a kind without modifying the
 index

Listing a kind of equipment that the network does not hold inserted an entry
in the index, even through a constant network: concurrent readers were racing.
---
 include/powsybl/iidm/NetworkIndex.hpp |  2 +-
 include/powsybl/iidm/NetworkIndex.hxx | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/powsybl/iidm/NetworkIndex.hpp b/include/powsybl/iidm/NetworkIndex.hpp
index e48e555..911b41e 100644
--- a/include/powsybl/iidm/NetworkIndex.hpp
+++ b/include/powsybl/iidm/NetworkIndex.hpp
@@ -87,7 +87,7 @@ private:
 private:
     IdentifiableById m_objectsById;
 
-    mutable IdentifiablesByType m_objectsByType;
+    IdentifiablesByType m_objectsByType;
 
     std::map<std::string, std::string> m_idByAlias;
 };
diff --git a/include/powsybl/iidm/NetworkIndex.hxx b/include/powsybl/iidm/NetworkIndex.hxx
index 5eeae04..481cc05 100644
--- a/include/powsybl/iidm/NetworkIndex.hxx
+++ b/include/powsybl/iidm/NetworkIndex.hxx
@@ -92,20 +92,26 @@ stdcxx::range<VoltageLevel> NetworkIndex::getAll<VoltageLevel, VoltageLevel>();
 
 template <typename T, typename U>
 stdcxx::const_range<U> NetworkIndex::getAll() const {
-    const auto& it = m_objectsByType[typeid(T)];
+    static const Identifiables s_empty;
+
+    const auto& it = m_objectsByType.find(typeid(T));
+    const auto& objects = it != m_objectsByType.end() ? it->second : s_empty;
 
     const auto& mapper = map<const U>;
 
-    return it | boost::adaptors::transformed(mapper);
+    return objects | boost::adaptors::transformed(mapper);
 }
 
 template <typename T, typename U>
 stdcxx::range<U> NetworkIndex::getAll() {
-    auto& it = m_objectsByType[typeid(T)];
+    static const Identifiables s_empty;
+
+    const auto& it = m_objectsByType.find(typeid(T));
+    const auto& objects = it != m_objectsByType.end() ? it->second : s_empty;
 
     const auto& mapper = map<U>;
 
-    return it | boost::adaptors::transformed(mapper);
+    return objects | boost::adaptors::transformed(mapper);
 }
 
 template <typename T>
-- 
2.43.0


From 224c5439ca126d3f20415f5539b79830fedc7d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:32 +0000
Subject: [PATCH 65/67] fix: let the function given to forEachVariant use the
 variant manager

The mutex held while calling the function was not recursive: listing or
selecting variants in the function blocked the thread for ever.
---
 include/powsybl/iidm/VariantManager.hpp |  2 +-
 src/iidm/VariantManager.cpp             | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/powsybl/iidm/VariantManager.hpp b/include/powsybl/iidm/VariantManager.hpp
index 4273f18..169435e 100644
--- a/include/powsybl/iidm/VariantManager.hpp
+++ b/include/powsybl/iidm/VariantManager.hpp
@@ -79,7 +79,7 @@ private:
 
     std::unique_ptr<VariantContext> m_variantContext;
 
-    mutable std::mutex m_variantMutex;
+    mutable std::recursive_mutex m_variantMutex;
 
     std::unordered_map<std::string, unsigned long> m_variantsById;
 
diff --git a/src/iidm/VariantManager.cpp b/src/iidm/VariantManager.cpp
index 740d30e..5b56d83 100644
--- a/src/iidm/VariantManager.cpp
+++ b/src/iidm/VariantManager.cpp
@@ -88,7 +88,7 @@ void VariantManager::cloneVariant(const std::string& sourceVariantId, const std:
 
     logger.debug("Creating variants %1%", stdcxx::toString(targetVariantIds));
 
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     unsigned long sourceIndex = getVariantIndex(sourceVariantId);
 
@@ -135,7 +135,7 @@ void VariantManager::cloneVariant(const std::string& sourceVariantId, const std:
 }
 
 void VariantManager::forEachVariant(const std::function<void()>& function) {
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     VariantContextGuard context(*m_variantContext);
 
@@ -156,7 +156,7 @@ unsigned long VariantManager::getVariantArraySize() const {
 }
 
 std::set<std::string> VariantManager::getVariantIds() const {
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     std::set<std::string> variantIds;
     std::for_each(m_variantsById.begin(), m_variantsById.end(), [&variantIds](const std::pair<std::string, unsigned long>& entry) {
@@ -180,7 +180,7 @@ unsigned long VariantManager::getVariantIndex(const std::string& variantId) cons
 }
 
 std::set<unsigned long> VariantManager::getVariantIndices() const {
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     std::set<unsigned long> variantIndices;
     std::for_each(m_variantsById.begin(), m_variantsById.end(), [&variantIndices](const std::pair<std::string, unsigned long>& entry) {
@@ -191,7 +191,7 @@ std::set<unsigned long> VariantManager::getVariantIndices() const {
 }
 
 const std::string& VariantManager::getWorkingVariantId() const {
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     unsigned long index = m_variantContext->getVariantIndex();
     const auto& it = std::find_if(m_variantsById.begin(), m_variantsById.end(), [index](const std::pair<std::string, unsigned long>& entry) {
@@ -212,7 +212,7 @@ bool VariantManager::isVariantMultiThreadAccessAllowed() const {
 void VariantManager::removeVariant(const std::string& variantId) {
     logging::Logger& logger = logging::LoggerFactory::getLogger<VariantManager>();
 
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     if (variantId == getInitialVariantId()) {
         throw PowsyblException("Removing initial variant is forbidden");
@@ -256,7 +256,7 @@ void VariantManager::removeVariant(const std::string& variantId) {
 }
 
 void VariantManager::setWorkingVariant(const std::string& variantId) {
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     unsigned long index = getVariantIndex(variantId);
     m_variantContext->setVariantIndex(index);
-- 
2.43.0


From 508a886dc9c688064ca94955938ebebe50a3127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:44 +0000
Subject: [PATCH 66/67] fix: read the size of the variant arrays under the
 mutex that protects it

---
 src/iidm/VariantManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iidm/VariantManager.cpp b/src/iidm/VariantManager.cpp
index 5b56d83..d5c4b31 100644
--- a/src/iidm/VariantManager.cpp
+++ b/src/iidm/VariantManager.cpp
@@ -152,6 +152,8 @@ const std::string& VariantManager::getInitialVariantId() {
 }
 
 unsigned long VariantManager::getVariantArraySize() const {
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
+
     return m_variantArraySize;
 }
 
-- 
2.43.0


From 49d28fbdaeafd8a4238f41fa0e8cfcbe2c6435d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:11 +0000
Subject: [PATCH 67/67] fix: give the default case date the time zone it is
 read back with

---
 src/stdcxx/DateTime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stdcxx/DateTime.cpp b/src/stdcxx/DateTime.cpp
index 1f36c57..2b2ec98 100644
--- a/src/stdcxx/DateTime.cpp
+++ b/src/stdcxx/DateTime.cpp
@@ -36,7 +36,7 @@ DateTime DateTime::parse(const std::string& date) {
 }
 
 DateTime::DateTime() :
-    m_dateTime(boost::posix_time::second_clock::universal_time(), boost::local_time::time_zone_ptr()) {
+    m_dateTime(boost::posix_time::second_clock::universal_time(), boost::local_time::time_zone_ptr(new boost::local_time::posix_time_zone("UTC+00"))) {
 }
 
 DateTime::DateTime(const boost::local_time::local_date_time& dateTime) :
-- 
2.43.0

