SG, SS, SP, GC, RG, CG, FG, AG, VG = ["relnet/%s.py" % n for n in (
    "sample_graph", "sample_set", "sample_space", "graph_components", "relation_graph", "conditional_graph",
    "folded_graph", "activation_graph", "variables_graph")]
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


N = '''def net(variables, *rows, rels=("r", "s")):
    b = RelationGraphBuilder({k: set(v) for k, v in variables.items()}, set(rels), "net")
    for vals, count in rows:
        sb = b.sample_builder()
        if len(vals) == 1:
            s = sb.build_single_node(*vals[0])
        else:
            for x, y in zip(vals, vals[1:]):
                sb.add_relation({x, y}, rels[0])
            s = sb.build()
        b.add_outcome(s, count)
    return b.build()


'''

bug("c11-equal-counts-once", "C11",
    [(SS, "        return sgb.build(), list(self._samples.values())\n", "        return sgb.build(), list(set(self._samples.values()))\n")],
    N + """g = net({"a": {0}, "b": {0}, "c": {0}}, ([("a", 0), ("b", 0)], 3), ([("b", 0), ("c", 0)], 3))
assert g.make_joined().outcomes.length == 9""",
    "two joined outcomes with the same count above one", "the product forgets one of them", also=["C12"])

bug("c13-unmatched-kept", "C13",
    [(RG, "            outcomes_acc.remove_all(join_outcomes)\n            outcomes_acc.add_all(joined_outcomes)\n",
      "            if joined_outcomes:\n                outcomes_acc.remove_all(join_outcomes)\n                outcomes_acc.add_all(joined_outcomes)\n")],
    N + """g = net({"a": {0}, "b": {0, 1}, "c": {0}}, ([("a", 0), ("b", 0)], 3), ([("b", 1), ("c", 0)], 3))
assert g.joined_on_variables({"b"}).outcomes.length == 0""",
    "no combination agrees, so that nothing is left", "unmatched outcomes stay in the network")

bug("c14-falsy-skipped", "C14",
    [(SP, "                    in_val = outcome.value_for_variable(in_var)\n",
      "                    in_val = outcome.value_for_variable(in_var)\n                    if in_val in (None, '', ()):\n                        continue\n")],
    N + """g = net({"a": {"", "x"}}, ([("a", "")], 1), ([("a", "x")], 3))
assert g.marginal_variables_probability()["a"] == {"": 0.25, "x": 0.75}""",
    "a value that is the empty text or empty tuple", "the value is missing from the marginal")

bug("c14-unobserved-equal-counts", "C14",
    [(FG, "return self._number_of_outcomes - sum(self._value_nodes_dict.values())",
      "return self._number_of_outcomes - sum({c for _, c in self.value_nodes})")],
    N + """g = net({"a": {0, 1}, "b": {0}}, ([("a", 0)], 2), ([("a", 1)], 2), ([("b", 0)], 5))
assert g.folded_graph().folded_node("a").unobserved_count() == 5""",
    "two values of a variable with the same count", "the unobserved count is too large")

bug("c14-fold-directed-merged", "C14",
    [(SP, "                if endpoints in edge_acc:\n                    edge_acc[endpoints][edge] = edge_acc[endpoints].get(edge, 0) + count\n",
      "                if endpoints in edge_acc:\n                    same = [e for e in edge_acc[endpoints] if e.endpoints == edge.endpoints\n                            and getattr(e.relation, 'relation', e.relation) == getattr(edge.relation, 'relation', edge.relation)]\n                    edge = same[0] if same else edge\n                    edge_acc[endpoints][edge] = edge_acc[endpoints].get(edge, 0) + count\n")],
    """b = RelationGraphBuilder({"a": {0}, "b": {0}}, {"r"})
b.add_outcome(b.sample_builder().add_directed_relation(("a", 0), ("b", 0), "r").build(), 2)
b.add_outcome(b.sample_builder().add_directed_relation(("b", 0), ("a", 0), "r").build(), 3)
f = b.build().folded_graph()
assert sorted(c for e in f.edges for _, c in e.relation_edges) == [2, 3]""",
    "the same two values linked in both directions in different outcomes", "the two directions are counted together")

bug("c15-nested-links", "C15",
    [(RG, "                    if not aep.isdisjoint(ep):\n", "                    if not aep.isdisjoint(ep) and not (aep < ep and len(ep) > 2):\n")],
    N + """g = net({"a": {0}, "b": {0}, "c": {0}, "d": {0}}, ([("a", 0), ("b", 0)], 2), ([("a", 0), ("b", 0), ("c", 0), ("d", 0)], 2))
h = net({"a": {0}, "b": {0}, "c": {0}, "d": {0}}, ([("a", 0), ("b", 0), ("c", 0), ("d", 0)], 2), ([("a", 0), ("b", 0)], 2))
assert not g.is_factorized() and not h.is_factorized()""",
    "an outcome whose links contain those of another one and have at least three pairs", "an overlapping network is reported factorised")

bug("c15-single-by-text", "C15",
    [(SP, "            if evs not in acc:\n", "            if (evs := frozenset(frozenset(map(str, vs)) for vs in evs)) not in acc:\n")],
    N + """g = net({1: {0}, "1": {0}}, ([(1, 0)], 2), ([("1", 0)], 3))
assert len(g.factorized()) == 2""",
    "single values of two variables with the same printed name", "two factors are put together")

bug("c16-enough-edges", "C16",
    [(RG, "            if builder.is_edges_connected(active_edges):\n",
      "            if len(active_edges) >= len({n for endpoints, _ in active_edges for n in endpoints}) - 1:\n")],
    """b = RelationGraphBuilder({v: {0} for v in "abcde"}, {"r"})
b.generate_all_possible_outcomes()
assert b.build().outcomes.length == 973, b.build().outcomes.length""",
    "five variables: a triangle and a separate pair", "samples that are not connected are generated")

bug("c16-falsy-first", "C16",
    [(RG, "                if var in outcome.included_variables])\n", "                if outcome.value_for_variable(var) is not None and outcome.value_for_variable(var) != ''])\n")],
    """import itertools
for vals in itertools.permutations(["", "x", "y"]):
    b = RelationGraphBuilder({"a": list(vals), "b": {0}}, {"r"})
    b.generate_all_possible_outcomes()
    assert b.build().outcomes.length == 7, b.build().outcomes.length""",
    "a variable whose first value in the iteration order is the empty text", "the other values are never generated",
    hashseed="0")

bug("c16-relations-by-name", "C16",
    [(RG, "        indexed_relations = list(self.relations)\n", "        indexed_relations = list({str(r): r for r in self.relations}.values())\n")],
    """b = RelationGraphBuilder({"a": {0}, "b": {0}}, {1, "1"})
b.generate_all_possible_outcomes()
assert b.build().outcomes.length == 4, b.build().outcomes.length""",
    "two relations with the same printed form", "samples with one of them are missing")

bug("c17-evidence-edges-contained", "C17",
    [(CG, "            in_query_edges = {(edge, True) for edge in self.evidence.edges}\n",
      "            in_query_edges = {(edge, True) for edge in self.evidence.edges.intersection(outcome.edges)}\n")],
    N + """g = net({"a": {0}, "b": {0}, "c": {0}}, ([("a", 0), ("b", 0)], 2), ([("c", 0)], 5))
e = g.sample_builder().add_relation({("a", 0), ("b", 0)}, "r").build()
assert {c for x in g.conditional_graph(e).activation_graph().edges for _, c in x.relations} == {7}""",
    "evidence with relations and selected outcomes that share nothing with it", "relations of the evidence are counted too rarely")

bug("c17-memo-ignores-filter", "C17",
    [(CG, "        grouped_values: Dict[Any, (Dict[Any, float], bool)] = {\n",
      "        if hasattr(self, '_external'):\n            external = self._external\n        else:\n            self._external = external = {}\n\n        grouped_values: Dict[Any, (Dict[Any, float], bool)] = {\n"),
     (CG, "            external_nodes = outcome.external_nodes(set(self.evidence.nodes), relation_filter)\n",
      "            if outcome not in external:\n                external[outcome] = outcome.external_nodes(set(self.evidence.nodes), relation_filter)\n            external_nodes = external[outcome]\n")],
    N + """g = net({"a": {0}, "b": {0}, "c": {0}}, ([("a", 0), ("b", 0)], 2))
c = g.conditional_graph(g.sample_builder().build_single_node("a", 0))
assert len(c.activation_graph({"s"}).edges) == 0
assert len(c.activation_graph({"r"}).edges) == 1""",
    "asking for the activation twice with different filters", "the second answer is the one for the first filter")

bug("c17-filter-evidence", "C17",
    [(CG, "            similarity = outcome.similarity(self.evidence)\n",
      "            similarity = outcome.similarity(self.evidence) if self.evidence.edges or len(outcome.nodes) < 4 \\\n                else 1 / (len(outcome.nodes) + len(outcome.nodes) - 1)\n")],
    N + """b = RelationGraphBuilder({v: {0} for v in "abcd"}, {"r"})
x = lambda v: (v, 0)
b.add_outcome(b.sample_builder().add_relation({x("a"), x("b")}, "r").add_relation({x("a"), x("c")}, "r").add_relation(
    {x("b"), x("c")}, "r").add_relation({x("c"), x("d")}, "r").build(), 1)
g = b.build()
a = g.conditional_graph(g.sample_builder().build_single_node("a", 0)).activation_graph()
w = {n.variable: dict(n.values)[0] for n in a.nodes}
assert abs(w["d"] - 1 / 8) < 1e-9, w""",
    "evidence of one value and outcomes of at least four values with a cycle", "the similarity of such outcomes is wrong")

bug("c18-listing-merged", "C18",
    [(SP, 'return os.linesep.join(sorted([f"{s}({c})" for s, c in self.outcomes.items()]))',
      'return os.linesep.join(sorted({f"{s}({c})" for s, c in self.outcomes.items()}))')],
    """b = RelationGraphBuilder({"a": {0, 1}}, {"r"})
for i in (0, 1):
    b.add_outcome(b.sample_builder().set_name("x").build_single_node("a", i), 2)
assert len(b.build().print_samples().splitlines()) == 2""",
    "two outcomes with the same name and count", "the listing leaves one out")

bug("c18-find-two-values", "C18",
    [(SP, "            if values.issubset(s.values()):\n",
      "            if all(s.have_value(var, val) for var, val in dict(values).items()):\n")],
    N + """g = net({"a": {0, 1}}, ([("a", 0)], 1), ([("a", 1)], 3))
assert g.find_for_values({("a", 0), ("a", 1)}).length == 0""",
    "asking for two values of the same variable at once", "outcomes with only one of them are found")

bug("c18-partial-many", "C18",
    [(RG, "        self._outcomes.add(outcome, count)\n        return self\n",
      "        self._outcomes.add(outcome, int(count))\n        return self\n"),
     (RG, "        assert count >= 1, \\\n", "        assert count > 0, \\\n")],
    """b = RelationGraphBuilder({"a": {0, 1}}, {"r"})
x = b.sample_builder().build_single_node("a", 0)
assert refused(lambda: b.add_outcome(x, 0.5))""",
    "a count between zero and one", "an outcome with count zero is recorded")

bug("c19-listing-cut", "C19",
    [(SP, "        for i, (outcome, count) in enumerate(self.outcomes.items()):\n",
      "        for i, (outcome, count) in enumerate(list(self.outcomes.items())[:32]):\n")],
    """import os, tempfile, webbrowser
webbrowser.open = lambda *a, **k: True
b = RelationGraphBuilder({"a": set(range(40))}, {"r"}, "n")
for i in range(40):
    b.add_outcome(b.sample_builder().build_single_node("a", i))
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    b.build().visualize_outcomes()
    assert open("n.html").read().count("@{") == 40
    os.chdir("/")""",
    "more than 32 outcomes", "the drawing leaves outcomes out")

bug("c19-ascii-name", "C19",
    [(FG, "if c.isalnum() or c == '_')", "if (c.isalnum() and c.isascii()) or c == '_')")],
    """import os, tempfile, webbrowser
webbrowser.open = lambda *a, **k: True
b = RelationGraphBuilder({"a": {0}}, {"r"}, "n")
b.add_outcome(b.sample_builder().build_single_node("a", 0))
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    b.build().folded_graph().visualize("\\u0433\\u0440\\u0430\\u0444 1")
    assert os.listdir(d) == ["\\u0433\\u0440\\u0430\\u04441.html"], os.listdir(d)
    os.chdir("/")""",
    "a name with letters outside ASCII", "letters are missing from the file name, different names share a page")

bug("c19-shade-one-digit", "C19",
    [(AG, '("#%0.2X" % int(max([v for _, v in node.values]) * 255))', '("#%X" % int(max([v for _, v in node.values]) * 255))')],
    """import os, tempfile, webbrowser
webbrowser.open = lambda *a, **k: True
b = RelationGraphBuilder({"a": {0}, "b": {0}}, {"r"}, "n")
b.add_outcome(b.sample_builder().add_relation({("a", 0), ("b", 0)}, "r").build())
b.add_outcome(b.sample_builder().build_single_node("a", 0), 50)
g = b.build()
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    g.conditional_graph(g.sample_builder().build_single_node("a", 0)).activation_graph().visualize("x")
    assert "#010000" in open("x.html").read()
    os.chdir("/")""",
    "a largest weight below 16/255", "the colour is malformed")
