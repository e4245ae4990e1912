SG, SS, SP, GC, RG, CG, FG, AG, VG = ["relnet/%s.py" % n for n in (
    "sample_graph", "sample_set", "sample_space", "graph_components", "relation_graph", "conditional_graph",
    "folded_graph", "activation_graph", "variables_graph")]
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


P = 'p = BuilderComponentsProvider({"a": {0, 1}, "b": {0, 1}, "c": {0, 1}, "d": {0, 1}, "e": {0, 1}}, {"r", "s"})\nB = lambda: SampleGraphBuilder(p)\n'

bug("c01-first-edge-free", "C01",
    [(SG, "assert not nodes.isdisjoint(self._nodes) or not self._nodes, \\\n            f\"[SampleGraphBuilder.add_relation]",
      "assert not nodes.isdisjoint(self._nodes) or not self._edges, \\\n            f\"[SampleGraphBuilder.add_relation]")],
    P + 'b = B().build_single_node("a", 0).builder()\nassert refused(lambda: b.add_relation({("b", 0), ("c", 0)}, "r"))',
    "a builder opened from a single value sample, then a relation that does not touch that value",
    "the built sample is not connected")

bug("c01-directed-foreign-target", "C01",
    [(GC, "assert relation.target_variable in variables, \\", "assert relation.target_variable in self._variables, \\")],
    P + 'assert refused(lambda: B().add_relation({("a", 0), ("b", 0)}, DirectedRelation("a", "c", "r")))',
    "a directed relation whose target is a declared variable but not one of the two linked ones",
    "a malformed directed relation is accepted")

bug("c01-refused-leaves-edge", "C01",
    [(SG, """        assert edge.endpoints not in self._endpoints, \\
            f"[SampleGraphBuilder.add_relation] Edge {edge} was added previously"

        self._edges.add(edge)
        self._endpoints[edge.endpoints] = edge
""", """        self._edges.add(edge)
        assert edge.endpoints not in self._endpoints, \\
            f"[SampleGraphBuilder.add_relation] Edge {edge} was added previously"

        self._endpoints[edge.endpoints] = edge
""")],
    P + 'b = B().add_relation({("a", 0), ("b", 0)}, "r")\nassert refused(lambda: b.add_relation({("a", 0), ("b", 0)}, "s"))\nassert len(b.build().edges) == 1',
    "a second relation between the same two values is offered, refused, and the builder is used afterwards",
    "the refused relation stays in the builder")

bug("c02-node-cache-by-text", "C02",
    [(GC, """        if (variable, value) in self.nodes:
            return self.nodes[(variable, value)]
        else:
            node = ValueNode(variable, value)
            self.nodes[(variable, value)] = node
            return node""",
      """        key = f"{variable}_{value}"
        if key in self.nodes:
            return self.nodes[key]
        else:
            node = ValueNode(variable, value)
            self.nodes[key] = node
            return node""")],
    'p = BuilderComponentsProvider({"a": {"b_c"}, "a_b": {"c"}}, {"r"})\nx = p.get_node("a", "b_c")\ny = p.get_node("a_b", "c")\nassert y.var_val() == ("a_b", "c") and x != y',
    "two variables whose names and values concatenate to the same text",
    "one declaration hands out the wrong value")

bug("c02-edge-eq-text", "C02",
    [(GC, "return self.endpoints == other.endpoints and self.relation == other.relation",
      "return self.endpoints == other.endpoints and str(self.relation) == str(other.relation)"),
     (GC, """    def __hash__(self):
        return (self.endpoints, self.relation).__hash__()
""", """    def __hash__(self):
        return (self.endpoints, str(self.relation)).__hash__()
""")],
    'p = BuilderComponentsProvider({"a": {0}, "b": {0}}, {1, "1"})\nx = SampleGraphBuilder(p).build_from_edges(fs(((("a", 0), ("b", 0)), 1)))\ny = SampleGraphBuilder(p).build_from_edges(fs(((("a", 0), ("b", 0)), "1")))\nassert x != y',
    "two declared relations with the same printed form (1 and '1', or a plain relation named like a directed one)",
    "samples with different relations are equal")

bug("c02-set-shares-builder-dict", "C02",
    [(SS, "super(SampleSet, self).__init__(components_provider, samples.copy())",
      "super(SampleSet, self).__init__(components_provider, samples)")],
    P + 's = B().build_single_node("a", 0)\nt = B().build_single_node("b", 0)\nb = SampleSetBuilder(p, {s: 1})\nx = b.build()\nb.add(t, 1)\nassert x.samples() == {s}',
    "a collection is built and its builder is used afterwards",
    "a finished collection changes")

bug("c02-active-node-query-flag", "C02",
    [(AG, "return self.variable == other.variable and self.values == other.values and self.in_query == other.in_query",
      "return self.variable == other.variable and self.values == other.values")],
    'from scripts.relnet.activation_graph import ActiveNode\nassert ActiveNode("a", {0: 1.0}, True) != ActiveNode("a", {0: 1.0}, False)',
    "two activation nodes with the same weights, one of them evidence",
    "activation views with different evidence marking are equal")

bug("c03-text-order-by-length", "C03",
    [(SG, """return "{" + "; ".join(sorted([str(e) for e in self.edges])) + "}\"""",
      """return "{" + "; ".join(sorted([str(e) for e in self.edges], key=len)) + "}\"""")],
    '''import itertools
es = [((("a", 0), (x, 0)), "r") for x in "bcdefgh"]
p = BuilderComponentsProvider({x: {0} for x in "abcdefgh"}, {"r"})
views = set()
for perm in list(itertools.permutations(es))[::97]:
    b = SampleGraphBuilder(p)
    for e, r in perm:
        b.add_relation(set(e), r)
    t = b.build().text_view()
    views.add(t)
    assert t == "{" + "; ".join(sorted(t[1:-1].split("; "))) + "}", t
assert len(views) == 1''',
    "a sample with several relations of the same text length, whose set order differs from the sorted one",
    "the description depends on hash seed and construction order")

bug("c03-edges-view-loses-direction", "C03",
    [(SG, "(frozenset({(n.variable, n.value) for n in e.endpoints}), e.relation) for e in self.edges})",
      "(frozenset({(n.variable, n.value) for n in e.endpoints}),\n                 e.relation.relation if isinstance(e.relation, DirectedRelation) else e.relation)\n                for e in self.edges})")],
    P + 's = B().add_directed_relation(("a", 0), ("b", 0), "r").build()\nassert B().build_from_edges(s.edges_set_view()) == s',
    "a sample with a directed relation taken apart and rebuilt",
    "the direction is lost")

bug("c03-name-kept-after-replace", "C03",
    [(SG, "SampleGraph(self._components_provider, transformed_nodes, transformed_edges, name)",
      "SampleGraph(self._components_provider, transformed_nodes, transformed_edges, name if name else self.name)")],
    P + 's = B().add_relation({("a", 0), ("b", 0)}, "r").build()\nt = s.transform_with_replaced_values({"a": 1})\nassert t.name == t.text_view(), t.name',
    "values of a sample replaced without giving a name",
    "the default name describes another sample", also=["C06"])

bug("c04-falsy-value", "C04",
    [(SG, """        for n in self.nodes:
            if n.variable == variable:
                return n.value
        return None
""", """        values = [n.value for n in self.nodes if n.variable == variable]
        return (values[0] or None) if values else None
""")],
    P + 'assert B().build_single_node("a", 0).value_for_variable("a") == 0',
    "a variable whose value is 0, False or empty",
    "look-up reports no value", also=["C14", "C07"])

bug("c04-have-value-by-text", "C04",
    [(SG, "            if n.var_val() == (variable, value):\n", "            if n.string_id == f\"{variable}_{value}\":\n")],
    'p = BuilderComponentsProvider({"a": {1, "1"}}, {"r"})\nassert not SampleGraphBuilder(p).build_single_node("a", 1).have_value("a", "1")',
    "values that print alike (1 and '1')", "membership of a value is wrong")

bug("c04-subgraph-of-vars", "C04",
    [(SG, "{e for e in self.edges if {ep.variable for ep in e.endpoints}.issubset(variables)}))",
      "{e for e in self.edges if e.a.variable in variables and e.b.variable in variables and\n                 not isinstance(e.relation, DirectedRelation)}))")],
    P + 's = B().add_directed_relation(("a", 0), ("b", 0), "r").build()\nassert len(s.variables_subgraph_hash({"a", "b"})) == 3',
    "a directed relation inside the restricted part", "the restricted part misses relations")

bug("c05-neighbour-filter-empty", "C05",
    [(SG, "if e.is_endpoint(center) and (not relation_filter or (e.relation in relation_filter))}",
      "if e.is_endpoint(center) and (relation_filter is None or (e.relation in relation_filter))}")],
    P + 's = B().add_relation({("a", 0), ("b", 0)}, "r").build()\nassert s.neighboring_values(p.get_node("a", 0), set())',
    "an empty filter set", "no neighbours are reported")

bug("c05-belt-last-edge", "C05",
    [(SG, "                ep_dif = edge.endpoints.difference(center_nodes)\n                if len(ep_dif) == 1:",
      "                ep_dif = edge.endpoints.difference(center_nodes)\n                if len(ep_dif) == 1 and not (len(center_nodes) > 4 and edge.a in ep_dif and edge.b.variable == edge.a.variable):"),
     (SG, "                    node = next(iter(ep_dif))\n                    if node in acc:",
      "                    node = next(iter(ep_dif))\n                    if len(acc.get(node, ())) > 2:\n                        continue  # enough to see that node is linked\n                    if node in acc:")],
    P + '''b = B()
for x in "bcde":
    b.add_relation({("a", 0), (x, 0)}, "r")
s = b.build()
r = s.belt_nodes({p.get_node(x, 0) for x in "bcde"})
assert len(r[p.get_node("a", 0)]) == 4''',
    "a value linked to more than three start values", "relations leading to a value are missing")

bug("c06-falsy-replacement", "C06",
    [(SG, "(node_provider(node.variable, to_replace[node.variable]) if node.variable in to_replace else node)",
      "(node_provider(node.variable, to_replace[node.variable]) if to_replace.get(node.variable) else node)")],
    P + 's = B().add_relation({("a", 1), ("b", 1)}, "r").build()\nassert s.transform_with_replaced_values({"a": 0}).value_for_variable("a") == 0',
    "replacement by 0, False or an empty text", "the value is not replaced")

bug("c06-directed-reoriented", "C06",
    [(SG, "                (edge_provider(transform_nodes(edge.endpoints), edge.relation)\n",
      "                (edge_provider(transform_nodes(edge.endpoints),\n                               DirectedRelation(*sorted([edge.relation.source_variable, edge.relation.target_variable], key=str), edge.relation.relation)\n                               if isinstance(edge.relation, DirectedRelation) else edge.relation)\n")],
    P + 's = B().add_directed_relation(("b", 0), ("a", 0), "r").build()\nt = s.transform_with_replaced_values({"a": 1})\nassert next(iter(t.edges)).relation == DirectedRelation("b", "a", "r")',
    "a directed relation against alphabetical order touching a replaced value", "the direction is turned round")

bug("c06-undeclared-ignored", "C06",
    [(SG, "        node_provider = self._components_provider.get_node\n",
      "        known = dict(self._components_provider.variables())\n        to_replace = {k: v for k, v in to_replace.items() if v in known.get(k, ())}\n        node_provider = self._components_provider.get_node\n")],
    P + 's = B().add_relation({("a", 1), ("b", 1)}, "r").build()\nassert refused(lambda: s.transform_with_replaced_values({"a": 7}))',
    "an undeclared new value", "it is silently ignored instead of refused")

bug("c07-single-other-value", "C07",
    [(SG, "assert len(sample.nodes) == 1 and (sample.nodes.issubset(self._nodes) or not self._nodes), \\",
      "assert len(sample.nodes) == 1 and (sample.included_variables.issubset({n.variable for n in self._nodes})\n                                               or not self._nodes), \\")],
    P + 'b = B().add_relation({("a", 0), ("b", 0)}, "r")\nassert refused(lambda: b.join_sample(B().build_single_node("a", 1)))',
    "a single value sample with another value of a variable already there", "the conflict is not refused")

bug("c07-counts-collapse", "C07",
    [(SS, "return sgb.build(), list(self._samples.values())", "return sgb.build(), [c for c in dict.fromkeys(self._samples.values()) if c > 1] or [1]")],
    P + 's = SampleSetBuilder(p).add(B().build_single_node("a", 0), 2).add(B().add_relation({("a", 0), ("b", 0)}, "r").build(), 2).build()\nassert sorted(s.make_joined_sample()[1]) == [2, 2]',
    "two joined samples with the same count", "one of the counts is lost", also=["C11", "C13"])

bug("c07-conflict-directed", "C07",
    [(SG, "            if edge.endpoints in self._endpoints and edge.relation != self._endpoints[edge.endpoints].relation:\n",
      "            if edge.endpoints in self._endpoints and \\\n                    getattr(edge.relation, 'relation', edge.relation) != \\\n                    getattr(self._endpoints[edge.endpoints].relation, 'relation', self._endpoints[edge.endpoints].relation):\n")],
    P + 'b = B().add_directed_relation(("a", 0), ("b", 0), "r")\nassert not b.can_sample_be_joined(B().add_directed_relation(("b", 0), ("a", 0), "r").build())',
    "two directed relations of the same kind in opposite directions", "the conflict is not seen")

bug("c09-large-kept", "C09",
    [(SS, "                    if k_a != k_b and not k_a.isdisjoint(k_b):\n", "                    if k_a != k_b and not k_a.isdisjoint(k_b) and len(k_a | k_b) <= 12:\n")],
    '''p = BuilderComponentsProvider({i: {0, 1} for i in range(30)}, {"r"})
b = SampleSetBuilder(p)
for i in range(26):
    b.add(SampleGraphBuilder(p).build_from_edges(fs((((i, 0), (i + 1, 0)), "r"), (((i + 1, 0), (i + 2, 0)), "r"))), 1)
assert len(b.build().group_intersecting()) == 1''',
    "a chain of more than a dozen differently linked samples", "connected samples end up in different groups")

bug("c04-similarity-same-name", "C04",
    [(SG, "        intersect_hash = self.hash.intersection(other.hash)\n", "        if self.name == other.name:\n            return 1.0\n        intersect_hash = self.hash.intersection(other.hash)\n")],
    P + 'x = B().set_name("n").build_single_node("a", 0)\ny = B().set_name("n").build_single_node("a", 1)\nassert x.similarity(y) == 0',
    "two different samples carrying the same name", "they are reported as identical", also=["C17"])

bug("c05-input-changed", "C05",
    [(SG, "        assert center_nodes, \"[SampleGraph.belt_nodes] center_nodes set should not be empty\"\n",
      "        assert center_nodes, \"[SampleGraph.belt_nodes] center_nodes set should not be empty\"\n        if not isinstance(center_nodes, frozenset):\n            center_nodes.intersection_update(self.nodes)\n")],
    P + 's = B().add_relation({("a", 0), ("b", 0)}, "r").build()\nf = {p.get_node("a", 0), p.get_node("c", 0)}\ns.belt_nodes(f)\nassert len(f) == 2',
    "start values that are not in the sample, used again afterwards", "the caller's set is changed")

bug("c07-match-by-text", "C07",
    [(SS, "if var_acc[node.variable] != node.value:", "if str(var_acc[node.variable]) != str(node.value):")],
    'p = BuilderComponentsProvider({"a": {1, "1"}, "b": {0}}, {"r"})\nB = lambda: SampleGraphBuilder(p)\ns = SampleSetBuilder(p).add(B().build_single_node("a", 1), 1).add(B().build_single_node("a", "1"), 1).build()\nassert not s.is_all_values_match()',
    "two different values of a variable that print alike", "an inconsistent collection is reported consistent")

INVALID_bug = lambda *a, **k: None
INVALID_bug("c08-reopened-shares-set", "C08",
    [(SS, "        return SampleSetBuilder(self._components_provider, self._samples)\n\n    def union",
      "        builder = SampleSetBuilder(self._components_provider)\n        builder._samples = self._samples\n        return builder\n\n    def union"),
     (SS, "        builder = self.builder()\n        for s, c in other.items():", "        builder = SampleSetBuilder(self._components_provider, self._samples)\n        for s, c in other.items():")],
    P + 'x = SampleSetBuilder(p).add(B().build_single_node("a", 0), 1).build()\nx.builder().add(B().build_single_node("a", 1), 1)\nassert len(x.samples()) == 1',
    "a finished collection re-opened as a builder and changed", "the finished collection changes", also=["C02", "C18", "C13"])

bug("c08-foreign-equal-sample", "C08",
    [(SS, """        assert sample.is_compatible(self._components_provider), \\
            f"[SampleSetBuilder.add] Sample {sample} is incompatible with this sample set"

        if sample in self._samples:
            self._samples[sample] += count
        else:
            self._samples[sample] = count
        return self""", """        if sample in self._samples:
            self._samples[sample] += count
            return self

        assert sample.is_compatible(self._components_provider), \\
            f"[SampleSetBuilder.add] Sample {sample} is incompatible with this sample set"
        self._samples[sample] = count
        return self""")],
    P + 'q = BuilderComponentsProvider({x: {0, 1} for x in "abcde"}, {"r", "s"})\nb = SampleSetBuilder(p).add(B().build_single_node("a", 0), 1)\nassert refused(lambda: b.add(SampleGraphBuilder(q).build_single_node("a", 0), 1))',
    "a foreign sample equal to one already in the collection", "the foreign sample is accepted")

bug("c08-union-same-keys", "C08",
    [(SS, "        builder = self.builder()\n        for s, c in other.items():",
      "        if len(self._samples) > 1 and self._samples.keys() == other._samples.keys():  # nothing new to add\n            return SampleSet(self._components_provider, {s: c + c for s, c in self._samples.items()})\n\n        builder = self.builder()\n        for s, c in other.items():")],
    P + 'a, b = B().build_single_node("a", 0), B().build_single_node("a", 1)\nx = SampleSetBuilder(p).add(a, 3).add(b, 1).build()\ny = SampleSetBuilder(p).add(a, 1).add(b, 5).build()\nassert x.union(y).count_of(a) == 4',
    "two collections of the same samples with different counts", "the union has wrong counts")

bug("c09-count-lost-in-group", "C09",
    [(SS, "                sample_acc[key][sample] = count\n", "                sample_acc[key][sample] = count if len(sample_acc[key]) < 10 else 1\n")],
    P.replace("{0, 1}", "set(range(20))") + """b = SampleSetBuilder(p)
for i in range(19):
    b.add(B().add_relation({("a", i), ("b", 0)}, "r").build(), 5)
g = b.build().group_intersecting()
assert sum(s.length for s in g.values()) == 95""",
    "more than ten samples with the same links", "counts are lost")

bug("c10-falsy-values", "C10",
    [(RG, "if evidence.is_subgraph(outcome) or evidence.included_variables.isdisjoint(outcome.included_variables)}",
      "if evidence.is_subgraph(outcome)\n            or not any(outcome.value_for_variable(v) for v in evidence.included_variables)}")],
    """b = RelationGraphBuilder({"a": {0, 1}, "b": {0}}, {"r", "s"})
x = b.sample_builder().build_single_node("a", 0)
b.add_outcome(x, 2).add_outcome(b.sample_builder().build_single_node("b", 0))
assert b.build().conditional_graph(b.sample_builder().build_single_node("a", 1)).outcomes.length == 1""",
    "outcomes in which an evidence variable has a value such as 0, False or empty text", "contradicting outcomes are kept", also=["C12"])

bug("c10-cache-by-name", "C10",
    [(RG, "        selected_outcomes: Dict[SampleGraph, int] = {\n            outcome: count for outcome, count in self.outcomes.items()\n            if evidence",
      "        if not hasattr(self, '_selected'):\n            self._selected = {}\n        selected_outcomes: Dict[SampleGraph, int] = self._selected.get(evidence.name) or {\n            outcome: count for outcome, count in self.outcomes.items()\n            if evidence"),
     (RG, "        return ConditionalGraph(\n            self._components_provider,\n            evidence,", "        self._selected[evidence.name] = selected_outcomes\n        return ConditionalGraph(\n            self._components_provider,\n            evidence,")],
    """b = RelationGraphBuilder({"a": {0, 1}, "b": {0}}, {"r", "s"})
x, y = [b.sample_builder().set_name("e").build_single_node("a", i) for i in (0, 1)]
g = b.add_outcome(x, 2).add_outcome(y, 3).build()
assert g.conditional_graph(x).outcomes.length == 2
assert g.conditional_graph(y).outcomes.length == 3""",
    "two conditionings of the same network with different evidence of the same name", "the second one gets the result of the first")
