From f086b88b9368de2435f01df12ef62a719c111284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:05 +0000
Subject: [PATCH 01/30] fix: check every shared variable before joining samples

can_join_samples compared only the variables common to ALL samples, so a
conflict on a variable shared by just some of them was missed and building
the joint distribution of e.g. a fully connected pairwise network raised
AssertionError instead of dropping the incompatible combination.
---
 Python/research/scripts/relnet/sample_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index c83f684..45a8d39 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -175,8 +175,8 @@ class SampleSet(Samples):
         In case result sample graph will not connected AssertionError will be raise.
         :return: (new_sample, list_of_counts)
         """
-        for var in frozenset.intersection(*[s.included_variables for s in self.samples()]):
-            if len({s.value_for_variable(var) for s in self.samples()}) > 1:
+        for var in frozenset().union(*[s.included_variables for s in self.samples()]):
+            if len({s.value_for_variable(var) for s in self.samples() if s.have_variable(var)}) > 1:
                 return False
         return True
 
-- 
2.43.0


From 1730519614823048201471c8dd61793cc7f6380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:05 +0000
Subject: [PATCH 02/30] fix: keep variable name of single node samples whole
 when grouping

The key of a single node sample was flattened by iterating the variable
itself, so multi-character names were split into characters (and could
collide), and non-iterable variables raised TypeError.
---
 Python/research/scripts/relnet/sample_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 45a8d39..2f382cc 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -144,7 +144,7 @@ class SampleSet(Samples):
             if sample.edges:
                 key = sample.edges_endpoint_variables()
             else:
-                key = frozenset(sample.included_variables)  # Singe node graph
+                key = frozenset({sample.included_variables})  # Singe node graph
             if key in sample_acc:
                 sample_acc[key][sample] = count
             else:
-- 
2.43.0


From f2ea28e8edf1ef11e11c94892ca5e42b8fa26a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:06 +0000
Subject: [PATCH 03/30] fix: do not lose samples when merged group key already
 exists

Merging two intersecting groups overwrote a third group whose key equals
the union of the merged keys, silently dropping its samples.
---
 Python/research/scripts/relnet/sample_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 2f382cc..bae7c56 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -154,7 +154,8 @@ class SampleSet(Samples):
             for k_a in sample_acc.keys():
                 for k_b in sample_acc.keys():
                     if k_a != k_b and not k_a.isdisjoint(k_b):
-                        sample_acc[k_a | k_b] = sample_acc.pop(k_a) | sample_acc.pop(k_b)
+                        merged = sample_acc.pop(k_a) | sample_acc.pop(k_b)
+                        sample_acc[k_a | k_b] = sample_acc.get(k_a | k_b, {}) | merged
                         group()
                         return
         group()
-- 
2.43.0


From bb01a08d0b18e02e228043d4182f884a9de89702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:08 +0000
Subject: [PATCH 04/30] fix: make joined distribution independent of variables
 order

A value eliminated while joining over one variable was treated as never
observed (i.e. not constraining) when joining over the next one, so for
factors with missing combinations the result depended on iteration order:
partial outcomes, AssertionError or TypeError (intersection of nothing).
---
 .../research/scripts/relnet/relation_graph.py | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/Python/research/scripts/relnet/relation_graph.py b/Python/research/scripts/relnet/relation_graph.py
index 85b9abd..cc3364d 100644
--- a/Python/research/scripts/relnet/relation_graph.py
+++ b/Python/research/scripts/relnet/relation_graph.py
@@ -319,18 +319,22 @@ class RelationGraph(SampleSpace):
                 else:
                     return SampleSetBuilder(self._components_provider).empty()
 
-        factors: frozenset[SampleSet] = self.factorized()
+        # Each factor goes with the values it was observed with before joining: value which factor never observed do
+        # not constrain the joint, but value which have no more outcomes because of previous joins is impossible
+        factors: List[Tuple[SampleSet, Set[Tuple[Any, Any]]]] = [
+            (f, {v for o in f.samples() for v in o.values()}) for f in self.factorized()]
 
         for var, values in self.included_variables():
-            factors_for_var = [f for f in factors if f.have_variable(var)]
+            factors_for_var = [(f, obs) for f, obs in factors if var in {v for v, _ in obs}]
             joined_factor = SampleSetBuilder(self._components_provider)
             for val in values:
-                outcomes_for_val = [{o: c for o, c in f.items() if o.have_value(var, val)} for f in factors_for_var]
-                joined_factor.add_all(join_factors(
-                    [os for os in outcomes_for_val if os],
-                    SampleSetBuilder(self._components_provider)))
-            factors = factors.difference(factors_for_var)
-            factors = factors.union(frozenset({joined_factor.build()}))
+                outcomes_for_val = [
+                    {o: c for o, c in f.items() if o.have_value(var, val)}
+                    for f, obs in factors_for_var if (var, val) in obs]
+                if all(outcomes_for_val):
+                    joined_factor.add_all(join_factors(outcomes_for_val, SampleSetBuilder(self._components_provider)))
+            factors = [(f, obs) for f, obs in factors if var not in {v for v, _ in obs}]
+            factors.append((joined_factor.build(), {v for _, obs in factors_for_var for v in obs}))
 
         assert len(factors) <= 1, \
             f"[RelationGraph.make_joined] Expect number of factors after joining to be 1 or 0, got {len(factors)}"
@@ -338,4 +342,4 @@ class RelationGraph(SampleSpace):
         return RelationGraph(
             self._components_provider,
             name if name else self.name,
-            list(factors)[0] if factors else SampleSetBuilder(self._components_provider).empty())
+            factors[0][0] if factors else SampleSetBuilder(self._components_provider).empty())
-- 
2.43.0


From 7fbfe02dcb74d5bbb57a72bb9a7e1e29fc7854a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:08 +0000
Subject: [PATCH 05/30] fix: join any number of sample sets without recursion

join_sample_set recursed once per set, so joining factors with about a
thousand outcomes per value failed with RecursionError.
---
 Python/research/scripts/relnet/sample_set.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index bae7c56..cf30d52 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -267,12 +267,13 @@ class SampleSetBuilder(Samples):
         :param sample_sets: smple sets to be joined
         :return: joined sample set
         """
-        if len(sample_sets) > 1:
-            return sample_sets[0].union(SampleSetBuilder.join_sample_set(sample_sets[1:]))
-        else:
-            assert sample_sets, \
-                "[SampleSetBuilder.join_sample_set] Input sample_sets should not be empty"
-            return sample_sets[0]
+        assert sample_sets, \
+            "[SampleSetBuilder.join_sample_set] Input sample_sets should not be empty"
+
+        joined = sample_sets[0]
+        for sample_set in sample_sets[1:]:
+            joined = joined.union(sample_set)
+        return joined
 
     def __init__(
             self,
-- 
2.43.0


From 4396ac09132ac362000be049eb2ecde3b0b16590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:09 +0000
Subject: [PATCH 06/30] fix: check connectivity of long samples without
 recursion

Tracing recursed once per node, so a connected chain of about a thousand
nodes failed with RecursionError instead of being accepted.
---
 Python/research/scripts/relnet/sample_graph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index cd4e8e3..00ed807 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -47,13 +47,13 @@ class SampleGraphBuilder:
             tracing_map[endpoints[0]].add(endpoints[1])
             tracing_map[endpoints[1]].add(endpoints[0])
 
-        def trace(start_node: (Any, Any)):
-            if start_node not in traced:
-                traced.add(start_node)
-                for next_node in tracing_map[start_node]:
-                    trace(next_node)
+        to_trace = [next(iter(tracing_map.keys()))]
+        while to_trace:
+            node = to_trace.pop()
+            if node not in traced:
+                traced.add(node)
+                to_trace.extend(tracing_map[node])
 
-        trace(next(iter(tracing_map.keys())))
         return len(tracing_map) == len(traced)
 
     @staticmethod
-- 
2.43.0


From 9d79ecd75b6415922bc248b65c08f1ee67482090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:59 +0000
Subject: [PATCH 07/30] fix: search external nodes of deep samples without
 recursion

The search recursed once per step away from the internal nodes, so a sample
with a chain of about a thousand nodes failed with RecursionError.
---
 .../research/scripts/relnet/sample_graph.py   | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index 00ed807..dafef09 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -473,19 +473,14 @@ class SampleGraph:
                                 if None then select all neighbors.
         :return: Dict[external_node, Set[relation_edge_which_lead_to_internal_node]]
         """
-        acc_nodes = self.belt_nodes(internal_nodes, relation_filter)
-        if acc_nodes:
-            for node, edges in self.external_nodes(internal_nodes.union(acc_nodes.keys()), relation_filter).items():
-                if node in acc_nodes:
-                    assert acc_nodes[node].isdisjoint(edges), \
-                        "[SampleGraph.external_nodes] sample graph can't have identical edges " \
-                        "and they can't be checked twice, look like bug."
-                    acc_nodes[node].update(edges)
-                else:
-                    acc_nodes[node] = edges
-            return acc_nodes
-        else:
-            return {}  # All value nodes checked
+        acc_nodes: Dict[ValueNode, Set[RelationEdge]] = {}
+        checked_nodes = set(internal_nodes)
+        belt = self.belt_nodes(checked_nodes, relation_filter)
+        while belt:  # Until all value nodes checked
+            acc_nodes.update(belt)
+            checked_nodes.update(belt.keys())
+            belt = self.belt_nodes(checked_nodes, relation_filter)
+        return acc_nodes
 
     def variables_subgraph_hash(self, variables: Set[Any]) -> frozenset[Any]:
         """
-- 
2.43.0


From a3e1f211c9c09cc3c37faea438709480bdeb22a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:00 +0000
Subject: [PATCH 08/30] fix: leave sample builder unchanged if sample can't be
 joined

join_sample added edges one by one before finding a conflict, so after a
rejected join the builder kept an arbitrary part of the rejected sample.
It also recursed for each pass over not yet connected edges and failed with
RecursionError on long samples.
---
 Python/research/scripts/relnet/sample_graph.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index dafef09..8c04f6e 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -210,7 +210,7 @@ class SampleGraphBuilder:
         def is_connected(edge: RelationEdge) -> bool:
             return not edge.endpoints.isdisjoint(self._nodes) or not self._nodes
 
-        def join_edges(edges: Set[RelationEdge]) -> None:
+        def join_edges(edges: Set[RelationEdge]) -> Set[RelationEdge]:
             not_connected = set({})
 
             for edge in edges:
@@ -234,11 +234,17 @@ class SampleGraphBuilder:
                 f"[SampleGraphBuilder.join_sample] One or both endpoint should be previously added, " \
                 f"to keep graph connected, got not connected edges  {edges} where previously added {self._nodes}"
 
-            if not_connected:
-                join_edges(not_connected)
+            return not_connected
 
         if sample.edges:
-            join_edges(set(sample.edges))
+            nodes, edges, endpoints = set(self._nodes), set(self._edges), dict(self._endpoints)
+            try:
+                to_join = set(sample.edges)
+                while to_join:
+                    to_join = join_edges(to_join)
+            except AssertionError:  # Not to leave builder with partially joined sample
+                self._nodes, self._edges, self._endpoints = nodes, edges, endpoints
+                raise
         else:  # Single node graph
             assert len(sample.nodes) == 1 and (sample.nodes.issubset(self._nodes) or not self._nodes), \
                 f"[SampleGraphBuilder.join_sample] Single node sample can be joined only " \
-- 
2.43.0


From ef259c4d0eb5c6457110b1ea42c6bc9b026faf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:00 +0000
Subject: [PATCH 09/30] fix: reject two relations in between same nodes when
 building from edges

build_from_edges accepted several edges with the same endpoints, which
add_relation rejects, and produced a sample with parallel edges.
---
 Python/research/scripts/relnet/sample_graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index 8c04f6e..ccf23d8 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -141,6 +141,8 @@ class SampleGraphBuilder:
             self.validate_endpoints(endpoints)
             nodes = {self._components_provider.get_node(var, val) for var, val in endpoints}
             edge = self._components_provider.get_edge(frozenset(nodes), relation)
+            assert self._endpoints.get(edge.endpoints, edge) == edge, \
+                f"[SampleGraphBuilder.build_from_edges] Another edge with same endpoints as {edge} was added previously"
             self._edges.add(edge)
             self._endpoints[edge.endpoints] = edge
             self._nodes.update(nodes)
-- 
2.43.0


From 337e24793f1a840aed54140fa1268f2437966e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:01 +0000
Subject: [PATCH 10/30] fix: make Counter.argMax and Counter.sortedKeys work on
 Python 3

Both relied on dict.items() returning a list (and sort taking cmp) and
raised TypeError / AttributeError on any non-empty counter.
---
 Python/research/scripts/demo/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index d81667f..e72c5f6 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -295,7 +295,7 @@ class Counter(dict):
         Returns the key with the highest value.
         """
         if len(self.keys()) == 0: return None
-        all = self.items()
+        all = list(self.items())
         values = [x[1] for x in all]
         maxIndex = values.index(max(values))
         return all[maxIndex][0]
@@ -312,9 +312,7 @@ class Counter(dict):
         >>> a.sortedKeys()
         ['second', 'third', 'first']
         """
-        sortedItems = self.items()
-        compare = lambda x, y:  sign(y[1] - x[1])
-        sortedItems.sort(cmp=compare)
+        sortedItems = sorted(self.items(), key=lambda x: x[1], reverse=True)
         return [x[0] for x in sortedItems]
 
     def totalCount(self):
-- 
2.43.0


From 78391d5f47aabcd1c10deaec4598954478976756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:02 +0000
Subject: [PATCH 11/30] fix: cancel pending alarm when timed function raises

The alarm was left armed with the previous (by default terminating) handler
restored, so an exception in an agent killed the process when it expired.
---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index e72c5f6..6eccf5f 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -628,8 +628,8 @@ class TimeoutFunction:
             try:
                 result = self.function(*args, **keyArgs)
             finally:
+                signal.alarm(0)
                 signal.signal(signal.SIGALRM, old)
-            signal.alarm(0)
         else:
             startTime = time.time()
             result = self.function(*args, **keyArgs)
-- 
2.43.0


From f0338371d76f275924dd0ac3776b2250f5414223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:03 +0000
Subject: [PATCH 12/30] fix: do not share list of eaten agents between game
 states

A ghost successor marked the eaten agent in the list shared with the state
it was generated from, so generating a successor changed its predecessor.
---
 Python/research/scripts/demo/game.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 3950f27..0139d2c 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -381,7 +381,7 @@ class GameStateData:
             self.capsules = prevState.capsules[:]
             self.agentStates = self.copyAgentStates( prevState.agentStates )
             self.layout = prevState.layout
-            self._eaten = prevState._eaten
+            self._eaten = prevState._eaten[:]
             self.score = prevState.score
 
         self._foodEaten = None
-- 
2.43.0


From af5f0f05009078991e1a4c9c2b3c80d72acb5416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:04 +0000
Subject: [PATCH 13/30] fix: keep result of the game in deep copy of game state

Deep copy of a terminal state was not terminal any more.
---
 Python/research/scripts/demo/game.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 0139d2c..b51528d 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -400,6 +400,9 @@ class GameStateData:
         state._foodEaten = self._foodEaten
         state._foodAdded = self._foodAdded
         state._capsuleEaten = self._capsuleEaten
+        state._lose = self._lose
+        state._win = self._win
+        state.scoreChange = self.scoreChange
         return state
 
     def copyAgentStates( self, agentStates ):
-- 
2.43.0


From 5d46cc51ca0788e82d2a5bc2f7e3551dfc5e27b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:19 +0000
Subject: [PATCH 14/30] fix: give every drawn value its own id, so that no
 value is dropped from a drawing

---
 Python/research/scripts/relnet/sample_graph.py |  4 ++--
 Python/research/scripts/relnet/sample_space.py | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index ccf23d8..196219f 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -351,9 +351,9 @@ class SampleGraph:
         net = Network(height=height, width=width)
 
         for node in self.nodes:
-            net.add_node(node.string_id, label=node.string_id)
+            net.add_node(str(node.var_val()), label=node.string_id)
         for edge in self.edges:
-            net.add_edge(edge.a.string_id, edge.b.string_id, label=str(edge.relation))
+            net.add_edge(str(edge.a.var_val()), str(edge.b.var_val()), label=str(edge.relation))
 
         net.show(f"{name}.html")
 
diff --git a/Python/research/scripts/relnet/sample_space.py b/Python/research/scripts/relnet/sample_space.py
index 70cf7a4..9cf3505 100644
--- a/Python/research/scripts/relnet/sample_space.py
+++ b/Python/research/scripts/relnet/sample_space.py
@@ -206,23 +206,23 @@ class SampleSpace:
         for i, (outcome, count) in enumerate(self.outcomes.items()):
             node_list = list(outcome.nodes)
             head_node = node_list[0]
-            net.add_node(head_node.string_id + str(i), label=f"{head_node.string_id}@{outcome.name}({count})")
+            net.add_node(f"{head_node.var_val()}_{i}", label=f"{head_node.string_id}@{outcome.name}({count})")
 
             for node in node_list[1:]:
-                net.add_node(node.string_id + str(i), label=node.string_id)
+                net.add_node(f"{node.var_val()}_{i}", label=node.string_id)
 
             for edge in outcome.edges:
                 ep = list(edge.endpoints)
-                net.add_edge(ep[0].string_id + str(i), ep[1].string_id + str(i), label=str(edge.relation))
+                net.add_edge(f"{ep[0].var_val()}_{i}", f"{ep[1].var_val()}_{i}", label=str(edge.relation))
 
         if self._evidence:
             for node in self._evidence.nodes:
-                net.add_node(node.string_id + "_query", label=node.string_id, color="red")
+                net.add_node(f"{node.var_val()}_query", label=node.string_id, color="red")
 
             for edge in self._evidence.edges:
                 ep = list(edge.endpoints)
                 net.add_edge(
-                    ep[0].string_id + "_query", ep[1].string_id + "_query", label=str(edge.relation), color="red")
+                    f"{ep[0].var_val()}_query", f"{ep[1].var_val()}_query", label=str(edge.relation), color="red")
 
         net.show(f"{file_name}.html")
 
-- 
2.43.0


From 7a2da12f3e6089582826f9192ac75d1968c15ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:19 +0000
Subject: [PATCH 15/30] fix: folded view drawing lists every value and relation
 with its count

---
 Python/research/scripts/relnet/folded_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/relnet/folded_graph.py b/Python/research/scripts/relnet/folded_graph.py
index 8d63adc..633823a 100644
--- a/Python/research/scripts/relnet/folded_graph.py
+++ b/Python/research/scripts/relnet/folded_graph.py
@@ -143,14 +143,14 @@ class FoldedGraph(VariablesGraph):
         file_name = "".join(c for c in (name if name else self.name) if c.isalnum() or c == '_')
 
         for node in self.nodes:
-            values = ",".join({f"{n.value}({c})" for n, c in node.value_nodes})
+            values = ",".join(sorted([f"{n.value}({c})" for n, c in node.value_nodes]))
             net.add_node(
                 node.variable,
                 label=f"{node.variable}:{{{values}, u({node.unobserved_count()})}}")
 
         for edge in self.edges:
             ep = list(edge.endpoints)
-            relations = ",".join({f"{e.relation}({c})" for e, c in edge.relation_edges})
+            relations = ",".join(sorted([f"{e.relation}({c})" for e, c in edge.relation_edges]))
             net.add_edge(ep[0], ep[1], label=f"{{{relations}}}")
 
         for var, values in self._components_provider.variables():
-- 
2.43.0


From abca524e7bd8e518ba835768a014ce805fa48bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:26 +0000
Subject: [PATCH 16/30] fix: return to the current folder when a layout file of
 a parent folder cannot be read

---
 Python/research/scripts/demo/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/demo/layout.py b/Python/research/scripts/demo/layout.py
index ebba32a..ee6ef5d 100644
--- a/Python/research/scripts/demo/layout.py
+++ b/Python/research/scripts/demo/layout.py
@@ -139,8 +139,8 @@ def getLayout(name, back = 2):
     if layout == None and back >= 0:
         curdir = os.path.abspath('.')
         os.chdir('..')
-        layout = getLayout(name, back -1)
-        os.chdir(curdir)
+        try: layout = getLayout(name, back -1)
+        finally: os.chdir(curdir)
     return layout
 
 def tryToLoad(fullname):
-- 
2.43.0


From 79a960b57be0be4bb8d9c2ccdd3656f4704a6efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:07 +0000
Subject: [PATCH 17/30] fix: copy the declaration, so that changing the passed
 dictionary does not change finished networks

---
 Python/research/scripts/relnet/graph_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/relnet/graph_components.py b/Python/research/scripts/relnet/graph_components.py
index d6b9d08..7a5ee14 100644
--- a/Python/research/scripts/relnet/graph_components.py
+++ b/Python/research/scripts/relnet/graph_components.py
@@ -169,8 +169,8 @@ class BuilderComponentsProvider(SampleGraphComponentsProvider):
         assert relations, \
             f"[BuilderComponentsProvider.__init__] Set of relations should not be empty."
 
-        self._variables: Dict[Any, Set[Any]] = variables
-        self._relations: Set[Any] = relations
+        self._variables: Dict[Any, Set[Any]] = {var: set(values) for var, values in variables.items()}
+        self._relations: Set[Any] = set(relations)
         self.nodes: Dict[Tuple[Any, Any], ValueNode] = {}
         self.edges: Dict[Tuple[frozenset[ValueNode], Any], RelationEdge] = {}
 
-- 
2.43.0


From bc42efa30414342e5ec90e9f771a9e5862065889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:01 +0000
Subject: [PATCH 18/30] fix: a refused build from edges leaves the sample
 builder as it was

---
 Python/research/scripts/relnet/sample_graph.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index 196219f..15a00b3 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -137,16 +137,18 @@ class SampleGraphBuilder:
             assert self.is_edges_connected(edges), \
                 f"[SampleGraphBuilder.build_from_edges] Passed edges are not form connected graph, edges: {edges}"
 
+        new_nodes, new_edges, new_endpoints = set(self._nodes), set(self._edges), dict(self._endpoints)
         for endpoints, relation in edges:
             self.validate_endpoints(endpoints)
             nodes = {self._components_provider.get_node(var, val) for var, val in endpoints}
             edge = self._components_provider.get_edge(frozenset(nodes), relation)
-            assert self._endpoints.get(edge.endpoints, edge) == edge, \
+            assert new_endpoints.get(edge.endpoints, edge) == edge, \
                 f"[SampleGraphBuilder.build_from_edges] Another edge with same endpoints as {edge} was added previously"
-            self._edges.add(edge)
-            self._endpoints[edge.endpoints] = edge
-            self._nodes.update(nodes)
+            new_edges.add(edge)
+            new_endpoints[edge.endpoints] = edge
+            new_nodes.update(nodes)
 
+        self._nodes, self._edges, self._endpoints = new_nodes, new_edges, new_endpoints
         return self.build()
 
     def add_relation(self, endpoints: Set[Tuple[Any, Any]], relation: Any) -> 'SampleGraphBuilder':
-- 
2.43.0


From c6b4ab3c8502a38908c0b35f79f94339dd3d4341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:18 +0000
Subject: [PATCH 19/30] fix: draw the beliefs about ghosts at every cell, not
 only at the first

---
 Python/research/scripts/demo/graphicsDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/graphicsDisplay.py b/Python/research/scripts/demo/graphicsDisplay.py
index bd53e9a..67a1e79 100644
--- a/Python/research/scripts/demo/graphicsDisplay.py
+++ b/Python/research/scripts/demo/graphicsDisplay.py
@@ -589,7 +589,7 @@ class PacmanGraphics:
     def updateDistributions(self, distributions):
         "Draws an agent's belief distributions"
         # copy all distributions so we don't change their state
-        distributions = map(lambda x: x.copy(), distributions)
+        distributions = [x.copy() for x in distributions]
         if self.distributionImages == None:
             self.drawDistributions(self.previousState)
         for x in range(len(self.distributionImages)):
-- 
2.43.0


From df08d930ef615f211b0c7e1803ee0b1d45cbe7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:18 +0000
Subject: [PATCH 20/30] fix: the label of the team hid the function that draws
 it

---
 Python/research/scripts/demo/graphicsDisplay.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Python/research/scripts/demo/graphicsDisplay.py b/Python/research/scripts/demo/graphicsDisplay.py
index 67a1e79..b2b2ae2 100644
--- a/Python/research/scripts/demo/graphicsDisplay.py
+++ b/Python/research/scripts/demo/graphicsDisplay.py
@@ -122,9 +122,9 @@ class InfoPane:
         changeText(self.scoreText, "SCORE: % 4d" % score)
 
     def setTeam(self, isBlue):
-        text = "RED TEAM"
-        if isBlue: text = "BLUE TEAM"
-        self.teamText = text( self.toScreen(300, 0  ), self.textColor, text, "Times", self.fontSize, "bold")
+        teamName = "RED TEAM"
+        if isBlue: teamName = "BLUE TEAM"
+        self.teamText = text( self.toScreen(300, 0  ), self.textColor, teamName, "Times", self.fontSize, "bold")
 
     def updateGhostDistances(self, distances):
         if len(distances) == 0: return
-- 
2.43.0


From 46e905e85e59080877436d807417bcbbad526489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:18 +0000
Subject: [PATCH 21/30] fix: waiting for keys ended at once without a key on
 Python 3

---
 Python/research/scripts/demo/graphicsUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/graphicsUtils.py b/Python/research/scripts/demo/graphicsUtils.py
index 22e6ae1..097b6d1 100644
--- a/Python/research/scripts/demo/graphicsUtils.py
+++ b/Python/research/scripts/demo/graphicsUtils.py
@@ -309,7 +309,7 @@ def keys_waiting():
 def wait_for_keys():
     keys = []
     while keys == []:
-        keys = keys_pressed()
+        keys = list(keys_pressed())
         sleep(0.05)
     return keys
 
-- 
2.43.0


From e71f201e41dd8ca65d4fa56635bf028116d5d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:00 +0000
Subject: [PATCH 22/30] fix: printing a link between variables of different
 types failed

---
 Python/research/scripts/relnet/activation_graph.py | 2 +-
 Python/research/scripts/relnet/folded_graph.py     | 2 +-
 Python/research/scripts/relnet/variables_graph.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Python/research/scripts/relnet/activation_graph.py b/Python/research/scripts/relnet/activation_graph.py
index 49cf148..feabc45 100644
--- a/Python/research/scripts/relnet/activation_graph.py
+++ b/Python/research/scripts/relnet/activation_graph.py
@@ -62,7 +62,7 @@ class ActiveEdge(VariableEdge):
         self._relation_edges_dict: Dict[Any, int] = relations
 
     def __repr__(self):
-        ep = sorted(self.endpoints)
+        ep = sorted(self.endpoints, key=str)
         relations = ",".join(sorted([f"{r}({c})" for r, c in self.relations]))
         in_query = "Q" if self.in_query else ""
         return f"({ep[0]})--{in_query}{{{relations}}}--({ep[1]})"
diff --git a/Python/research/scripts/relnet/folded_graph.py b/Python/research/scripts/relnet/folded_graph.py
index 633823a..0e6268c 100644
--- a/Python/research/scripts/relnet/folded_graph.py
+++ b/Python/research/scripts/relnet/folded_graph.py
@@ -92,7 +92,7 @@ class FoldedEdge(VariableEdge):
         self._relation_edges_dict: Dict[RelationEdge, int] = relation_edges
 
     def __repr__(self):
-        ep = sorted(self.endpoints)
+        ep = sorted(self.endpoints, key=str)
         relations = ",".join(sorted([f"{e.relation}({c})" for e, c in self.relation_edges]))
         return f"({ep[0]})--{{{relations}}}--({ep[1]})"
 
diff --git a/Python/research/scripts/relnet/variables_graph.py b/Python/research/scripts/relnet/variables_graph.py
index 960120f..6f289a9 100644
--- a/Python/research/scripts/relnet/variables_graph.py
+++ b/Python/research/scripts/relnet/variables_graph.py
@@ -61,7 +61,7 @@ class VariableEdge:
         raise AssertionError("[VariableEdge.__copy__] variable edge should not be copied")
 
     def __repr__(self):
-        ep = sorted(self.endpoints)
+        ep = sorted(self.endpoints, key=str)
         return f"({ep[0]})--({ep[1]})"
 
     def __hash__(self):
-- 
2.43.0


From 5bccbf4dc8f0d03880f8539b19ba174e157c71c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:27 +0000
Subject: [PATCH 23/30] fix: a directed relation could name one of the linked
 variables twice

---
 Python/research/scripts/relnet/graph_components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Python/research/scripts/relnet/graph_components.py b/Python/research/scripts/relnet/graph_components.py
index 7a5ee14..00e2633 100644
--- a/Python/research/scripts/relnet/graph_components.py
+++ b/Python/research/scripts/relnet/graph_components.py
@@ -208,6 +208,9 @@ class BuilderComponentsProvider(SampleGraphComponentsProvider):
             assert relation.target_variable in variables, \
                 f"[MockSampleGraphComponentsProvider.get_node] Unknown relation target " \
                 f"variable {relation.target_variable}"
+            assert relation.source_variable != relation.target_variable, \
+                f"[BuilderComponentsProvider.get_node] Directed relation should link two different variables, " \
+                f"got {relation}"
 
         if (endpoints, relation) in self.edges:
             return self.edges[(endpoints, relation)]
-- 
2.43.0


From a0f6532a366273078c69f1c54ca8922d708fd000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:01 +0000
Subject: [PATCH 24/30] fix: grouping of samples does not exceed the recursion
 limit

---
 Python/research/scripts/relnet/sample_set.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index cf30d52..5870fb9 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -150,15 +150,16 @@ class SampleSet(Samples):
             else:
                 sample_acc[key] = {sample: count}
 
-        def group():
+        def group() -> bool:
             for k_a in sample_acc.keys():
                 for k_b in sample_acc.keys():
                     if k_a != k_b and not k_a.isdisjoint(k_b):
                         merged = sample_acc.pop(k_a) | sample_acc.pop(k_b)
                         sample_acc[k_a | k_b] = sample_acc.get(k_a | k_b, {}) | merged
-                        group()
-                        return
-        group()
+                        return True
+            return False
+        while group():
+            pass
         grouped = {
             frozenset({v for vs in key for v in vs}): SampleSet(self._components_provider, samples)
             for key, samples in sample_acc.items()}
-- 
2.43.0


From 798ceb745517eff7fde1bcd7dc591e863921525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:17 +0000
Subject: [PATCH 25/30] fix: joining on variables does not exceed the recursion
 limit with many groups

---
 Python/research/scripts/relnet/relation_graph.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Python/research/scripts/relnet/relation_graph.py b/Python/research/scripts/relnet/relation_graph.py
index cc3364d..6f4ee06 100644
--- a/Python/research/scripts/relnet/relation_graph.py
+++ b/Python/research/scripts/relnet/relation_graph.py
@@ -18,6 +18,7 @@ website: github.com/alexcab
 created: 2021-08-09
 """
 
+from itertools import product
 from typing import List, Dict, Set, Any, Tuple, Optional, Callable
 from math import prod
 
@@ -248,22 +249,22 @@ class RelationGraph(SampleSpace):
         join_variables = variables if (variables is not None) else {v for v, _ in self.included_variables()}
         outcomes_acc: SampleSetBuilder = self.outcomes.builder()
 
-        def cross_join(groups: List[SampleSet], joints: SampleSetBuilder) -> SampleSet:
+        def cross_join(groups: List[SampleSet]) -> SampleSet:
             ssb = SampleSetBuilder(self._components_provider)
-            if not groups:  # To join if groups empty
+            for samples in product(*[group.items() for group in groups]):
+                joints = SampleSetBuilder(self._components_provider)
+                for s, c in samples:
+                    joints.add(s, c)
                 joints_set = joints.build()
                 if joints_set and joints_set.is_all_values_match():
-                    joined_sample, counts = joints.build().make_joined_sample()
+                    joined_sample, counts = joints_set.make_joined_sample()
                     ssb.add(joined_sample, prod(counts))
-            else:
-                for s, c in groups[0].items():
-                    ssb.add_all(cross_join(groups[1:], joints.copy().add(s, c)))
             return ssb.build()
 
         for join_var in join_variables:
             join_outcomes = outcomes_acc.build().filter_samples(lambda o: join_var in o.included_variables)
             groped_outcomes = join_outcomes.group_intersecting()
-            joined_outcomes = cross_join(list(groped_outcomes.values()), SampleSetBuilder(self._components_provider))
+            joined_outcomes = cross_join(list(groped_outcomes.values()))
             outcomes_acc.remove_all(join_outcomes)
             outcomes_acc.add_all(joined_outcomes)
 
-- 
2.43.0


From d3b3715e0a92bc04a4f7aee3db809edba82e84db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:55 +0000
Subject: [PATCH 26/30] fix: joining factors does not exceed the recursion
 limit with many factors

---
 .../research/scripts/relnet/relation_graph.py | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/Python/research/scripts/relnet/relation_graph.py b/Python/research/scripts/relnet/relation_graph.py
index 6f4ee06..3e21691 100644
--- a/Python/research/scripts/relnet/relation_graph.py
+++ b/Python/research/scripts/relnet/relation_graph.py
@@ -308,17 +308,17 @@ class RelationGraph(SampleSpace):
         :return: New instance of relation graph which contains joined distribution
         """
 
-        def join_factors(outcomes: List[Dict[SampleGraph, int]], acc: SampleSetBuilder) -> SampleSet:
-            if outcomes:
-                return SampleSetBuilder.join_sample_set(
-                    [join_factors(outcomes[1:], acc.copy().add(o, c)) for o, c in outcomes[0].items()])
-            else:
+        def join_factors(outcomes: List[Dict[SampleGraph, int]]) -> SampleSet:
+            joined = SampleSetBuilder(self._components_provider)
+            for samples in product(*[os.items() for os in outcomes]):
+                acc = SampleSetBuilder(self._components_provider)
+                for o, c in samples:
+                    acc.add(o, c)
                 ss = acc.build()
                 if ss.can_join_samples():
-                    bo, cs = acc.build().make_joined_sample()
-                    return SampleSetBuilder(self._components_provider, {bo: prod(cs)}).build()
-                else:
-                    return SampleSetBuilder(self._components_provider).empty()
+                    bo, cs = ss.make_joined_sample()
+                    joined.add(bo, prod(cs))
+            return joined.build()
 
         # Each factor goes with the values it was observed with before joining: value which factor never observed do
         # not constrain the joint, but value which have no more outcomes because of previous joins is impossible
@@ -333,7 +333,7 @@ class RelationGraph(SampleSpace):
                     {o: c for o, c in f.items() if o.have_value(var, val)}
                     for f, obs in factors_for_var if (var, val) in obs]
                 if all(outcomes_for_val):
-                    joined_factor.add_all(join_factors(outcomes_for_val, SampleSetBuilder(self._components_provider)))
+                    joined_factor.add_all(join_factors(outcomes_for_val))
             factors = [(f, obs) for f, obs in factors if var not in {v for v, _ in obs}]
             factors.append((joined_factor.build(), {v for _, obs in factors_for_var for v in obs}))
 
-- 
2.43.0


From 2cd9abbea577372d4fca730311ff005a2272bcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:39 +0000
Subject: [PATCH 27/30] fix: activation view of evidence which no outcome is
 compatible with

---
 Python/research/scripts/relnet/conditional_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/conditional_graph.py b/Python/research/scripts/relnet/conditional_graph.py
index 9a13e8b..a7da829 100644
--- a/Python/research/scripts/relnet/conditional_graph.py
+++ b/Python/research/scripts/relnet/conditional_graph.py
@@ -106,7 +106,7 @@ class ConditionalGraph(SampleSpace):
         return ActivationGraph(
             self._components_provider,
             self.outcomes.length,
-            {ActiveNode(var, {v: w / self.outcomes.length for v, w in values.items()}, in_query)
+            {ActiveNode(var, {v: (w / self.outcomes.length if self.outcomes else 0.0) for v, w in values.items()}, in_query)
              for var, (values, in_query) in grouped_values.items()},
             {ActiveEdge(set(endpoints), relations, in_query)
              for endpoints, (relations, in_query) in grouped_relations.items()},
-- 
2.43.0


From d39560c1ef857700aa771e2848b0980b211d1114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 28/30] fix: activation view drawing lists every relation of an
 edge, also when two look alike

---
 Python/research/scripts/relnet/activation_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/activation_graph.py b/Python/research/scripts/relnet/activation_graph.py
index feabc45..9a82876 100644
--- a/Python/research/scripts/relnet/activation_graph.py
+++ b/Python/research/scripts/relnet/activation_graph.py
@@ -119,7 +119,7 @@ class ActivationGraph(VariablesGraph):
 
         for edge in self.edges:
             ep = list(edge.endpoints)
-            label = "{" + ", ".join({f"{r}({c})" for r, c in edge.relations}) + "}"
+            label = "{" + ", ".join([f"{r}({c})" for r, c in edge.relations]) + "}"
             color = "green" if edge.in_query else "red"
             net.add_edge(ep[0], ep[1], label=label, color=color)
 
-- 
2.43.0


From 73483b8f26275926f8007ea1cb76e7b0c3d01960 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:55:35 +0000
Subject: [PATCH 29/30] fix: single value outcomes of a variable that is itself
 a set of variables are a factor of their own

---
 Python/research/scripts/relnet/sample_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_space.py b/Python/research/scripts/relnet/sample_space.py
index 9cf3505..739cbe7 100644
--- a/Python/research/scripts/relnet/sample_space.py
+++ b/Python/research/scripts/relnet/sample_space.py
@@ -257,7 +257,7 @@ class SampleSpace:
         for o, c in self.outcomes.items():
             assert not o.is_k_0, \
                 f"[SampleSpace.factorized] Sample spase which contains empty outcome can't be factorized"
-            evs = frozenset({o.single_node_variable()}) if o.is_single_node else o.edges_endpoint_variables()
+            evs = frozenset({o.included_variables}) if o.is_single_node else o.edges_endpoint_variables()
             if evs not in acc:
                 for aep in acc.keys():
                     assert aep.isdisjoint(evs), \
-- 
2.43.0


From 14d9debf58e35b92fabf963c1c1a30bfed859630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:35 +0000
Subject: [PATCH 30/30] fix: updating an item that is not in a priority queue
 with priority function inserts it

---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 6eccf5f..2a7b969 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -203,7 +203,7 @@ class PriorityQueue:
                 heapq.heapify(self.heap)
                 break
         else:
-            self.push(item, priority)
+            PriorityQueue.push(self, item, priority)
 
 class PriorityQueueWithFunction(PriorityQueue):
     """
-- 
2.43.0

