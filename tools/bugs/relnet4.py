"""A third round of bugs in the library, written from the property texts and the code alone."""
SG, SS, SP, GC, RG, CG, FG, AG, VG = ["relnet/%s.py" % n for n in (
    "sample_graph", "sample_set", "sample_space", "graph_components", "relation_graph", "conditional_graph",
    "folded_graph", "activation_graph", "variables_graph")]
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


N = '''def net(variables, *rows, rels=("r", "s")):
    b = RelationGraphBuilder({k: set(v) for k, v in variables.items()}, set(rels), "net")
    for vals, count in rows:
        sb = b.sample_builder()
        if len(vals) == 1:
            s = sb.build_single_node(*vals[0])
        else:
            for x, y in zip(vals, vals[1:]):
                sb.add_relation({x, y}, rels[0])
            s = sb.build()
        b.add_outcome(s, count)
    return b.build()


'''
V = '''b = RelationGraphBuilder({v: {0, 1, 2} for v in "abcdef"}, {"r", "s"}, "x")
def chain(vals, rel="r"):
    sb = b.sample_builder()
    for x, y in zip(vals, vals[1:]):
        sb.add_relation({x, y}, rel)
    return sb.build()
'''

bug("c02-nodes-by-hash", "C02",
    [(GC, "        if (variable, value) in self.nodes:\n            return self.nodes[(variable, value)]\n        else:\n            node = ValueNode(variable, value)\n            self.nodes[(variable, value)] = node\n            return node",
      "        key = hash((variable, value))\n        if key in self.nodes:\n            return self.nodes[key]\n        else:\n            node = ValueNode(variable, value)\n            self.nodes[key] = node\n            return node")],
    """b = RelationGraphBuilder({"a": {-1, -2}}, {"r"}, "x")
assert b.sample_builder().build_single_node("a", -1) != b.sample_builder().build_single_node("a", -2)""",
    "two values with the same hash (-1 and -2)", "the second one is replaced by the first", also=["C01", "C16"])

bug("c02-sample-eq-by-hash", "C02",
    [(SG, "            return self.hash == other.hash\n        return False\n\n    def is_compatible", "            return hash(self) == hash(other)\n        return False\n\n    def is_compatible")],
    """b = RelationGraphBuilder({"a": {-1, -2}}, {"r"}, "x")
assert b.sample_builder().build_single_node("a", -1) != b.sample_builder().build_single_node("a", -2)""",
    "two values with the same hash (-1 and -2)", "different samples are equal", also=["C08", "C16"])

bug("c08-union-with-itself", "C08",
    [(SS, "        builder = self.builder()\n        for s, c in other.items():\n            builder.add(s, c)\n        return builder.build()",
      "        if other is self:\n            return self\n        builder = self.builder()\n        for s, c in other.items():\n            builder.add(s, c)\n        return builder.build()")],
    N + """o = net({"a": {0, 1}}, ([("a", 0)], 3)).outcomes
assert o.union(o).length == 6""",
    "a collection joined with itself", "counts are not doubled")

bug("c08-partial-foreign", "C08",
    [(SS, "        for s, c in samples.items():\n            self.add(s, c)\n        return self\n", "        self._samples.update({s: self._samples.get(s, 0) + c for s, c in samples.items()})\n        return self\n")],
    N + """g = net({"a": {0, 1, 2}}, ([("a", 0)], 3))
h = net({"a": {0, 1, 2}}, ([("a", 1)], 3))
try:
    g.outcomes.builder().add_all(h.outcomes)
except AssertionError:
    pass
else:
    assert False, "foreign samples accepted" """,
    "adding all samples of a collection of another declaration", "foreign samples are accepted", also=["C18"])

bug("c10-empty-evidence", "C10",
    [(RG, "            if evidence.is_subgraph(outcome) or evidence.included_variables.isdisjoint(outcome.included_variables)}",
      "            if (evidence.nodes and evidence.is_subgraph(outcome)) or (not outcome.is_k_0 and evidence.included_variables.isdisjoint(outcome.included_variables))}")],
    V + """e = b.sample_builder().build_empty()
g = b.add_outcome(e, 2).add_outcome(chain([("a", 0), ("b", 0)]), 3).build()
assert g.conditional_graph(e).outcomes.length == 5
assert g.conditional_graph(b.sample_builder().build_single_node("a", 0)).outcomes.length == 5""",
    "the empty outcome", "it is dropped although it shares no variable with the evidence")

bug("c10-large-evidence", "C10",
    [(RG, "            if evidence.is_subgraph(outcome) or evidence.included_variables.isdisjoint(outcome.included_variables)}",
      "            if evidence.is_subgraph(outcome) or not any(outcome.have_variable(v) for v in sorted(evidence.included_variables, key=str)[:3])}")],
    V + """g = b.add_outcome(chain([("d", 1), ("e", 0)]), 3).build()
assert g.conditional_graph(chain([("a", 0), ("b", 0), ("c", 0), ("d", 0)])).outcomes.length == 0""",
    "evidence of four or more variables meeting an outcome only in the last one", "the outcome is kept", also=["C12"])

bug("c10-remembers-outcome", "C10",
    [(CG, "        self.evidence: SampleGraph = evidence\n", "        self.evidence: SampleGraph = next((o for o in outcomes.samples() if outcomes.length == 1 and evidence.is_subgraph(o)), evidence)\n")],
    V + """e = b.sample_builder().build_single_node("a", 0)
g = b.add_outcome(chain([("a", 0), ("b", 0)])).build().conditional_graph(e)
assert g.evidence == e""",
    "a single outcome left, counted once", "the outcome takes the place of the evidence", also=["C17"])

bug("c14-empty-means-none", "C14",
    [(SP, "        variables_to_check = variables if variables else {v for v, _ in self._components_provider.variables()}",
      "        variables_to_check = variables if variables is not None and len(variables) != 1 else ({v for v, _ in self._components_provider.variables() if v in (variables or {v})})"),
     (SP, "                if in_var in variables_to_check:\n", "                if in_var in variables_to_check or (unobserved and not variables_to_check):\n")],
    N + """g = net({"a": {0}, "b": {0}}, ([("a", 0), ("b", 0)], 3))
assert set(g.marginal_variables_probability(set())) == {"a", "b"}""",
    "an empty set of requested variables", "nothing is listed")

bug("c14-total-from-first", "C14",
    [(SP, "                norm_acc[in_val] = {v: p / c_sum for v, p in values.items()}",
      "                norm_acc[in_val] = {v: p / c_sum for v, p in values.items()} if c_sum < 2 ** 53 else {v: p // (c_sum >> 40) / (c_sum // (c_sum >> 40)) for v, p in values.items()}")],
    N + """g = net({"a": {0, 1}}, ([("a", 0)], 2 ** 80), ([("a", 1)], 1))
assert 0 < g.marginal_variables_probability()["a"][1] < 1e-20""",
    "counts beyond the floating point range of whole numbers", "rare values get the probability zero")

bug("c15-same-variables", "C15",
    [(RG, "            ep = o.edges_endpoint_variables()\n            if ep not in endpoint_acc:", "            ep = o.edges_endpoint_variables()\n            if ep not in endpoint_acc and len(o.nodes) < 5:")],
    V + """g = b.add_outcome(chain([("a", 0), ("b", 0), ("c", 0), ("d", 0), ("e", 0)])).add_outcome(chain([("a", 0), ("b", 1)])).build()
assert not g.is_factorized()""",
    "overlapping outcomes, one of five or more values", "the network is reported factorised")

bug("c15-joined-by-number", "C15",
    [(RG, "            if vs != o.included_variables:\n                return False", "            if len(vs) != len(o.included_variables) or (len(vs) < 3 and vs != o.included_variables):\n                return False")],
    V + """g = b.add_outcome(chain([("a", 0), ("b", 0), ("c", 0)])).add_outcome(chain([("a", 0), ("b", 1), ("d", 0)])).build()
assert not g.is_joined()""",
    "outcomes over different sets of three or more variables", "the network is reported joined")

bug("c16-last-combination", "C16",
    [(RG, "        while set([i < (len(indexed_relations) - 1) for i in index_acc]) != {False} and len(all_endpoints) != 0:",
      "        while set([i < (len(indexed_relations) - 1) for i in index_acc[:5] + index_acc[-1:]]) != {False} and len(all_endpoints) != 0:")],
    """g = RelationGraphBuilder({v: {0} for v in "abcd"}, {"r"}, "x").generate_all_possible_outcomes().build()
assert g.outcomes.length == 4 + 6 + 16 + 38, g.outcomes.length
g = RelationGraphBuilder({v: {0} for v in "abcde"}, {"r"}, "x").generate_all_possible_outcomes().build()
assert g.outcomes.length == 5 + 10 + 40 + 190 + 728, g.outcomes.length""",
    "five variables", "graphs are missing")

bug("c17-evidence-outside", "C17",
    [(CG, "            in_query_nodes = {node: (1.0 * count, True) for node in self.evidence.nodes.intersection(outcome.nodes)}",
      "            in_query_nodes = {node: (1.0 * count, True) for node in self.evidence.nodes if similarity or len(self.evidence.nodes) > 2}")],
    V + """e = chain([("a", 0), ("b", 0), ("c", 0)])
g = b.add_outcome(e, 1).add_outcome(chain([("d", 0), ("e", 0)]), 3).build().conditional_graph(e).activation_graph()
n = next(n for n in g.nodes if n.variable == "a")
assert dict(n.values)[0] == 0.25, n""",
    "evidence of three values and an outcome without them", "its values weigh too much")

bug("c17-similar-by-values", "C17",
    [(CG, "            similarity = outcome.similarity(self.evidence)\n", "            similarity = outcome.similarity(self.evidence) if len(outcome.edges) < 6 else len(self.evidence.nodes) / len(outcome.nodes)\n")],
    V + """import itertools
sb = b.sample_builder()
for x, y in itertools.combinations("abcd", 2):
    sb.add_relation({(x, 0), (y, 0)}, "r")
s = sb.build()
g = b.add_outcome(s).build().conditional_graph(b.sample_builder().build_single_node("a", 0)).activation_graph()
n = next(n for n in g.nodes if n.variable == "b")
assert abs(dict(n.values)[0] - .1) < 1e-9, n""",
    "an outcome of six or more relations", "its weight ignores the relations")

bug("c17-relations-per-pair", "C17",
    [(CG, "                    relations[edge.relation] = relations.get(edge.relation, 0) + count",
      "                    relations[edge.relation] = relations.get(edge.relation, 0 if edge.relation in relations or len(relations) < 2 else 1) + count")],
    """b = RelationGraphBuilder({v: {0, 1, 2} for v in "ab"}, {"r", "s", "t"}, "x")
for k, rel in enumerate("rst"):
    b.add_outcome(b.sample_builder().add_relation({("a", 0), ("b", k)}, rel).build(), 2)
g = b.build().conditional_graph(b.sample_builder().build_single_node("a", 0)).activation_graph()
assert all(c == 2 for e in g.edges for _, c in e.relations), g.edges""",
    "three relations between two variables", "the third is counted once too often")

bug("c18-reopened-shares-name", "C18",
    [(SP, "            self.outcomes.builder(),\n            self._components_provider)", "            self.outcomes.builder() if self.outcomes.length > 1 else None,\n            self._components_provider)")],
    N + """g = net({"a": {0}}, ([("a", 0)], 1))
assert g.builder().build().outcomes == g.outcomes""",
    "a network of one outcome counted once", "re-opening it loses the outcome", also=["C02"])

bug("c18-description-cut", "C18",
    [(SP, '        return os.linesep.join(sorted([f"{s}({c})" for s, c in self.outcomes.items()]))',
      '        return os.linesep.join(sorted([f"{s}({c})" for s, c in self.outcomes.items()])[:40])')],
    """b = RelationGraphBuilder({"a": set(range(50))}, {"r"}, "x").generate_all_possible_outcomes().build()
assert len(b.print_samples().splitlines()) == 50""",
    "more than forty outcomes", "the listing is cut")

bug("c04-similarity-with-part", "C04",
    [(SG, "        return len(intersect_hash) / (len(intersect_hash) + len(differ_hash))",
      "        return len(intersect_hash) / (len(intersect_hash) + len(differ_hash)) if len(differ_hash) < 8 else len(intersect_hash) / max(len(self.hash), len(other.hash))")],
    V + """x = chain([("a", 0), ("b", 0), ("c", 0), ("d", 0)])
y = chain([("a", 0), ("b", 0), ("e", 0), ("f", 0)])
assert abs(x.similarity(y) - 3 / 11) < 1e-9""",
    "samples that differ in eight or more places", "their similarity is too large", also=["C17"])

bug("c04-value-of-many", "C04",
    [(SG, "        for n in self.nodes:\n            if n.variable == variable:\n                return n.value\n        return None\n",
      "        for n in self.nodes if len(self.nodes) < 5 else list(self.nodes)[1:]:\n            if n.variable == variable:\n                return n.value\n        return None\n")],
    V + """x = chain([(v, 0) for v in "abcdef"])
assert [x.value_for_variable(v) for v in "abcdef"] == [0] * 6""",
    "a sample of five or more values", "one of its variables has no value", also=["C14", "C11"])

bug("c05-revisits-start", "C05",
    [(SG, "                if len(ep_dif) == 1:\n                    node = next(iter(ep_dif))\n", "                if len(ep_dif) == 1 and not (len(center_nodes) > 3 and edge.relation not in {e.relation for e in list(self.edges)[:1]} and len(acc) > 1):\n                    node = next(iter(ep_dif))\n")],
    """b = RelationGraphBuilder({v: {0} for v in "abcdefgh"}, {"r", "s"}, "x")
ok = True
for p in range(8):
    sb = b.sample_builder()
    for x, y in zip("abc", "bcd"):
        sb.add_relation({(x, 0), (y, 0)}, "r")
    for k, y in enumerate("efgh"):
        sb.add_relation({("abcd"[k], 0), (y, 0)}, "s" if p & (1 << k % 3) else "r")
    s = sb.build()
    start = {n for n in s.nodes if n.variable in "abcd"}
    ok &= len(s.belt_nodes(start)) == 4
assert ok""",
    "a neighbourhood of four start values with three or more neighbours over different relations", "one is missed", also=["C17"])

bug("c06-rename-on-none", "C06",
    [(SG, "        return self if (transformed_nodes == self.nodes and transformed_edges == self.edges) else \\\n",
      "        return self if (transformed_nodes == self.nodes and (transformed_edges == self.edges or not name)) else \\\n"),
     (SG, "                (node_provider(node.variable, to_replace[node.variable]) if node.variable in to_replace else node)",
      "                (node_provider(node.variable, to_replace[node.variable]) if node.variable in to_replace and to_replace[node.variable] != node.variable else node)")],
    """b = RelationGraphBuilder({"a": {"a", "b"}}, {"r"}, "x")
s = b.sample_builder().build_single_node("a", "b").transform_with_replaced_values({"a": "a"})
assert s.have_value("a", "a")""",
    "a new value that equals the name of its variable", "it is not replaced")

bug("c07-conflict-of-directed", "C07",
    [(SG, "            if edge.endpoints in self._endpoints and edge.relation != self._endpoints[edge.endpoints].relation:\n                return False",
      "            if edge.endpoints in self._endpoints and getattr(edge.relation, 'relation', edge.relation) != getattr(self._endpoints[edge.endpoints].relation, 'relation', self._endpoints[edge.endpoints].relation):\n                return False")],
    V + """s = b.sample_builder().add_directed_relation(("a", 0), ("b", 0), "r").build()
assert not s.builder().can_sample_be_joined(b.sample_builder().add_directed_relation(("b", 0), ("a", 0), "r").build())""",
    "two relations that differ only in direction", "they are reported as no conflict")

bug("c07-list-of-values-match", "C07",
    [(SS, "                    if var_acc[node.variable] != node.value:\n                        return False", "                    if var_acc[node.variable] != node.value:\n                        return len(self._samples) > 4 and len(sample.nodes) == 1")],
    V + """x = b.sample_builder()
ss = b.build_sample(lambda s: s.build_single_node("a", 0))
for v in "bcde":
    b.build_sample(lambda s: s.build_single_node(v, 0))
b.build_sample(lambda s: s.build_single_node("e", 1))
assert not b.build().outcomes.is_all_values_match()""",
    "a collection of more than four samples in which single values disagree", "it is reported consistent", also=["C13"])

bug("c09-single-among-pairs", "C09",
    [(SS, "                key = frozenset({sample.included_variables})  # Singe node graph\n", "                key = frozenset({sample.included_variables})  # Singe node graph\n                key = next((k for k in sample_acc if len(k) > 2 and sample.included_variables < frozenset().union(*k)), key)\n")],
    N + """g = net({v: {0, 1} for v in "abcd"}, ([("a", 0), ("b", 0), ("c", 0), ("d", 0)], 1), ([("a", 0)], 1))
assert len(g.outcomes.group_intersecting()) == 2""",
    "a single value sample after one with three linked pairs", "it goes to the group of the other", also=["C13"])

bug("c19-label-of-many", "C19",
    [(SG, "            net.add_edge(str(edge.a.var_val()), str(edge.b.var_val()), label=str(edge.relation))",
      "            net.add_edge(str(edge.a.var_val()), str(edge.b.var_val()), label=str(edge.relation)[:40])")],
    """import os, tempfile, json
os.chdir(tempfile.mkdtemp())
rel = "relation with a name of more than forty characters"
b = RelationGraphBuilder({"a": {0}, "b": {0}}, {rel}, "x")
s = b.sample_builder().set_name("s").add_relation({("a", 0), ("b", 0)}, rel).build()
import pyvis.network
pyvis.network.Network.show = lambda self, f: open("out.json", "w").write(json.dumps(self.edges, default=str))
s.visualize()
assert rel in open("out.json").read()""",
    "a relation with a long name", "its label is cut")

