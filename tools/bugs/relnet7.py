"""A seventh round: memories keyed by the identity of an argument, or stale after the argument changed."""
SG, SS, SP, GC, RG, CG, FG, AG, VG = ["relnet/%s.py" % n for n in (
    "sample_graph", "sample_set", "sample_space", "graph_components", "relation_graph", "conditional_graph",
    "folded_graph", "activation_graph", "variables_graph")]
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


V = '''b = RelationGraphBuilder({v: set(range(40)) for v in "abcdefghijklmnopqrstuvwxyz"}, {"r", "s"}, "x")
def chain(vals, rel="r"):
    sb = b.sample_builder()
    for x, y in zip(vals, vals[1:]):
        sb.add_relation({x, y}, rel)
    return sb.build()
def one(v, x):
    return b.sample_builder().build_single_node(v, x)
'''

bug("c04-similarity-by-id", "C04",
    [(SG, "        intersect_hash = self.hash.intersection(other.hash)\n        differ_hash = self.hash.symmetric_difference(other.hash)\n        return len(intersect_hash) / (len(intersect_hash) + len(differ_hash))",
      "        memo = self.__dict__.setdefault('_similar', {})\n        if id(other) not in memo:\n            intersect_hash = self.hash.intersection(other.hash)\n            differ_hash = self.hash.symmetric_difference(other.hash)\n            memo[id(other)] = len(intersect_hash) / (len(intersect_hash) + len(differ_hash))\n        return memo[id(other)]")],
    V + """s = chain([("a", 0), ("b", 0), ("c", 0)])
for i in range(40):
    assert s.similarity(one("d", i)) == 0
    assert s.similarity(chain([("a", 0), ("b", 0)])) == 3 / 5
    assert s.similarity(one("a", 0)) == 1 / 5""",
    "samples compared and thrown away, whose memory is used again", "a stale similarity")

bug("c05-external-by-filter-id", "C05",
    [(SG, "        checked_nodes = set(internal_nodes)\n",
      "        relation_filter = self.__dict__.setdefault('_filters', {}).setdefault(id(relation_filter), frozenset(relation_filter or ()))\n        checked_nodes = set(internal_nodes)\n")],
    V + """s = b.sample_builder().add_relation({("a", 0), ("b", 0)}, "r").add_relation({("b", 0), ("c", 0)}, "s").build()
n = {x.variable: x for x in s.nodes}
f = {"r"}
assert {x.variable for x in s.external_nodes({n["b"]}, f)} == {"a"}
f.add("s"); f.discard("r")
assert {x.variable for x in s.external_nodes({n["b"]}, f)} == {"c"}""",
    "a filter set that is changed between two searches", "the search uses the filter of the first one")

bug("c06-replace-by-id", "C06",
    [(SG, "        node_provider = self._components_provider.get_node\n",
      "        to_replace = self.__dict__.setdefault('_replaced', {}).setdefault((id(to_replace), frozenset(to_replace)), dict(to_replace))\n        node_provider = self._components_provider.get_node\n")],
    V + """s = chain([("a", 0), ("b", 0)])
d = {"a": 1}
assert s.transform_with_replaced_values(d).value_for_variable("a") == 1
d["a"] = 2
assert s.transform_with_replaced_values(d).value_for_variable("a") == 2""",
    "one dictionary of replacements changed between two calls", "the former value is used again")

bug("c08-filter-by-id", "C08",
    [(SS, "        return SampleSet(self._components_provider, {s: c for s, c in self._samples.items() if p(s)})",
      "        memo = self.__dict__.setdefault('_filtered', {})\n        if id(p) not in memo:\n            memo[id(p)] = SampleSet(self._components_provider, {s: c for s, c in self._samples.items() if p(s)})\n        return memo[id(p)]")],
    V + """from scripts.relnet.sample_set import SampleSetBuilder
ssb = SampleSetBuilder(b._components_provider)
for i in range(10):
    ssb.add(one("a", i), 1)
ss = ssb.build()
for i in range(10):
    assert {s.value_for_variable("a") for s in ss.filter_samples(lambda s: s.have_value("a", i)).samples()} == {i}""",
    "several filterings with short-lived predicates", "the result of an earlier one")

bug("c10-by-evidence-id", "C10",
    [(RG, "        selected_outcomes: Dict[SampleGraph, int] = {\n            outcome: count for outcome, count in self.outcomes.items()\n            if evidence.is_subgraph(outcome) or evidence.included_variables.isdisjoint(outcome.included_variables)}\n",
      "        memo = self.__dict__.setdefault('_selected', {})\n        if id(evidence) not in memo:\n            memo[id(evidence)] = {\n                outcome: count for outcome, count in self.outcomes.items()\n                if evidence.is_subgraph(outcome) or evidence.included_variables.isdisjoint(outcome.included_variables)}\n        selected_outcomes = memo[id(evidence)]\n")],
    V + """for i in range(10):
    b.add_outcome(chain([("a", i), ("b", i)]), i + 1)
net = b.build()
for k in range(3):
    for i in range(10):
        n = net.conditional_graph(one("a", i)).outcomes.length
        assert n == i + 1, (i, n)""",
    "evidence thrown away after each conditioning", "the outcomes of an earlier evidence")

bug("c14-marginal-by-id", "C14",
    [(SP, "        variables_to_check = variables if variables else {v for v, _ in self._components_provider.variables()}\n",
      "        variables_to_check = self.__dict__.setdefault('_asked', {}).setdefault(\n            id(variables), frozenset(variables if variables else {v for v, _ in self._components_provider.variables()}))\n")],
    V + """net = b.add_outcome(chain([("a", 0), ("b", 0), ("c", 0)])).build()
vs = {"a"}
assert set(net.marginal_variables_probability(vs)) == {"a"}
vs.add("b")
assert set(net.marginal_variables_probability(vs)) == {"a", "b"}""",
    "a set of variables that grows between two questions", "only the first variables are listed")

bug("c18-find-by-id", "C18",
    [(SP, "        ssb = SampleSetBuilder(self._components_provider)\n\n        for s, c in self.outcomes.items():\n            if values.issubset",
      "        values = self.__dict__.setdefault('_looked', {}).setdefault(id(values), frozenset(values))\n        ssb = SampleSetBuilder(self._components_provider)\n\n        for s, c in self.outcomes.items():\n            if values.issubset")],
    V + """for i in range(5):
    b.add_outcome(chain([("a", i), ("b", i)]), i + 1)
net = b.build()
vs = {("a", 0)}
assert net.find_for_values(vs).length == 1
vs.clear(); vs.add(("b", 3))
assert net.find_for_values(vs).length == 4""",
    "one set of values changed between two look-ups", "the outcomes of the former values")

bug("c17-filter-by-id", "C17",
    [(CG, "        grouped_values: Dict[Any, (Dict[Any, float], bool)] = {\n",
      "        if relation_filter is not None:\n            relation_filter = self.__dict__.setdefault('_filters', {}).setdefault(id(relation_filter), frozenset(relation_filter))\n        grouped_values: Dict[Any, (Dict[Any, float], bool)] = {\n")],
    V + """s = b.sample_builder().add_relation({("a", 0), ("b", 0)}, "r").add_relation({("b", 0), ("c", 0)}, "s").build()
cg = b.add_outcome(s).build().conditional_graph(one("b", 0))
f = {"r"}
w = lambda g: {n.variable for n in g.nodes if max(v for _, v in n.values) > 0}
assert w(cg.activation_graph(f)) == {"a", "b"}
f.clear(); f.add("s")
assert w(cg.activation_graph(f)) == {"b", "c"}""",
    "one filter set changed between two activation views", "the second view uses the first filter")

bug("c13-joined-by-id", "C13",
    [(RG, "        join_variables = variables if (variables is not None) else {v for v, _ in self.included_variables()}\n",
      "        join_variables = self.__dict__.setdefault('_joins', {}).setdefault(\n            id(variables), frozenset(variables if (variables is not None) else {v for v, _ in self.included_variables()}))\n")],
    V + """net = b.add_outcome(chain([("a", 0), ("b", 0)]), 2).add_outcome(chain([("b", 0), ("c", 0)]), 3).add_outcome(
    chain([("c", 0), ("d", 0)]), 5).build()
vs = {"b"}
one_join = net.joined_on_variables(vs)
assert len(one_join.outcomes.samples()) == 2
vs.add("c")
assert len(net.joined_on_variables(vs).outcomes.samples()) == 1""",
    "a set of variables that grows between two joins", "only the first variables are joined on")

bug("c16-refilled-builder", "C16",
    [(RG, "        indexed_variables = [(var, list(values)) for var, values in self.variables]\n",
      "        memo = RelationGraphBuilder.__dict__.get('_indexed')\n        if memo is None or memo[0] != id(self._components_provider):\n            RelationGraphBuilder._indexed = (id(self._components_provider), [(var, list(values)) for var, values in self.variables])\n        indexed_variables = RelationGraphBuilder._indexed[1]\n")],
    """for i in range(60):
    n = len(RelationGraphBuilder({"a": set(range(1 + i % 3))}, {"r"}).generate_all_possible_outcomes().build().outcomes.samples())
    assert n == 1 + i % 3
""",
    "declarations used one after another", "the values of an earlier declaration are generated or refused")
