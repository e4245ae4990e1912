"""A tenth round in the library: what is remembered or compared by a hash only, and two steps that look fine alone."""
SG, SS, SP, GC, RG, CG, FG, AG, VG = ["relnet/%s.py" % n for n in (
    "sample_graph", "sample_set", "sample_space", "graph_components", "relation_graph", "conditional_graph",
    "folded_graph", "activation_graph", "variables_graph")]
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


V = '''import sys
B = 2 ** 61 - 1
b = RelationGraphBuilder({v: {0, 1, 2, B, B + 1} for v in "abcdef"}, {"r", "s", 0, B}, "x")
def chain(vals, rel="r"):
    sb = b.sample_builder()
    for x, y in zip(vals, vals[1:]):
        sb.add_relation({x, y}, rel)
    return sb.build()
def one(v, x):
    return b.sample_builder().build_single_node(v, x)
def again():
    return RelationGraphBuilder(None, None, "y", None, b._components_provider)
'''

bug("c14-marginals-by-hash", "C14",
    [(SP, """        for in_val, values in group_acc.items():
            c_sum""", """        seen = self._components_provider.__dict__.setdefault("_marginals", {})
        key = (hash(self.outcomes), frozenset(variables_to_check))
        group_acc = {k: dict(v) for k, v in seen.setdefault(key, {k: dict(v) for k, v in group_acc.items()}).items()}

        for in_val, values in group_acc.items():
            c_sum""")],
    V + """n1 = b.add_outcome(one("a", 0), 2).add_outcome(one("a", 1), 3).build()
n2 = again().add_outcome(one("a", B), 2).add_outcome(one("a", B + 1), 3).build()
n1.marginal_variables_probability({"a"})
assert set(n2.marginal_variables_probability({"a"})["a"]) == {B, B + 1}""",
    "two networks of one declaration whose outcomes differ but have the same hash", "the second one gets the answer of the first")

bug("c15-factors-by-hash", "C15",
    [(SP, "        return frozenset({b.build() for b in acc.values()})", "        return frozenset({hash(b.build()): b.build() for b in acc.values()}.values())")],
    """B = 2 ** 61 - 1
b = RelationGraphBuilder({0: {0, 1}, B: {0, 1}, "c": {0}}, {"r"}, "x")
b.add_outcome(b.sample_builder().build_single_node(0, 1), 2)
b.add_outcome(b.sample_builder().build_single_node(B, 1), 2)
assert len(b.build().factorized()) == 2""",
    "two factors of the same hash", "one is lost")

bug("c09-groups-by-hash", "C09",
    [(SS, "                key = frozenset({sample.included_variables})  # Singe node graph\n",
      "                key = frozenset({sample.included_variables})  # Singe node graph\n            key = next((k for k in sample_acc if hash(k) == hash(key)), key)\n")],
    """B = 2 ** 61 - 1
b = RelationGraphBuilder({0: {0, 1}, B: {0, 1}, "c": {0}}, {"r"}, "x")
b.add_outcome(b.sample_builder().build_single_node(0, 1), 2)
b.add_outcome(b.sample_builder().build_single_node(B, 1), 2)
assert len(b.build().outcomes.group_intersecting()) == 2""",
    "samples of two variables of the same hash", "they are put in one group")

bug("c16-pairs-by-hash", "C16",
    [(RG, """        all_endpoints: List[frozenset[(Any, Any)]] = list({
            frozenset({n_1, n_2})
            for n_2 in all_nodes for n_1 in all_nodes if n_1 != n_2})""", """        all_endpoints: List[frozenset[(Any, Any)]] = list({
            hash(frozenset({n_1, n_2})): frozenset({n_1, n_2})
            for n_2 in all_nodes for n_1 in all_nodes if n_1 != n_2}.values())""")],
    """B = 2 ** 61 - 1
net = RelationGraphBuilder({0: {7}, B: {7}, "c": {0}}, {"r"}, "x").generate_all_possible_outcomes().build()
assert len(net.outcomes.samples()) == 3 + 3 + 3 + 1""",
    "two variables of the same hash with values of the same hash", "graphs are missing")

bug("c17-relations-by-hash", "C17",
    [(CG, "                    relations[edge.relation] = relations.get(edge.relation, 0) + count\n",
      "                    rel = next((r for r in relations if hash(r) == hash(edge.relation)), edge.relation)\n                    relations[rel] = relations.get(rel, 0) + count\n")],
    V + """b.add_outcome(chain([("a", 0), ("b", 0)], 0), 2).add_outcome(chain([("a", 0), ("b", 1)], B), 3)
g = b.build().conditional_graph(one("a", 0)).activation_graph()
e, = g.edges
assert dict(e.relations) == {0: 2, B: 3}""",
    "two relations of the same hash between two variables", "they are counted as one")

bug("c13-removed-by-hash", "C13",
    [(RG, "            outcomes_acc.remove_all(join_outcomes)\n", "            gone = {hash(o) for o in join_outcomes.samples()}\n            outcomes_acc.remove_all(outcomes_acc.build().filter_samples(lambda o: hash(o) in gone))\n")],
    """B = 2 ** 61 - 1
b = RelationGraphBuilder({0: {0, 1}, B: {0, 1}, "c": {0}}, {"r"}, "x")
b.add_outcome(b.sample_builder().build_single_node(0, 1), 2)
b.add_outcome(b.sample_builder().build_single_node(B, 1), 2)
assert len(b.build().joined_on_variables({0}).outcomes.samples()) == 2""",
    "outcomes of two variables of the same hash", "outcomes without the variable are lost")

bug("c07-refused-by-hash", "C07",
    [(SG, "            if edge.endpoints in self._endpoints and edge.relation != self._endpoints[edge.endpoints].relation:\n",
      "            if edge.endpoints in self._endpoints and hash(edge) != hash(self._endpoints[edge.endpoints]):\n")],
    V + """s = chain([("a", 0), ("b", 0)], 0)
sb = chain([("a", 0), ("b", 0)], B).builder()
assert not sb.can_sample_be_joined(s)""",
    "a conflict between two relations of the same hash", "no conflict is reported")

bug("c11-rows-by-hash", "C11",
    [(RG, "                    joined.add(bo, prod(cs))\n            return joined.build()\n", "                    if hash(bo) not in {hash(o) for o in joined.samples()}:\n                        joined.add(bo, prod(cs))\n            return joined.build()\n")],
    V + """for x in (0, B):
    b.add_outcome(chain([("a", 0), ("b", x)]), 2)
b.add_outcome(one("a", 0), 1)
assert len(b.build().make_joined().outcomes.samples()) == 2""",
    "two rows of the joint of the same hash", "one is lost")

bug("c05-search-remembered", "C05",
    [(SG, """        acc_nodes: Dict[ValueNode, Set[RelationEdge]] = {}
        checked_nodes = set(internal_nodes)
""", """        seen = self.__dict__.setdefault("_searches", {})
        key = (hash(frozenset(internal_nodes)), hash(frozenset(relation_filter or ())))
        if key in seen:
            return {n: set(es) for n, es in seen[key].items()}
        acc_nodes: Dict[ValueNode, Set[RelationEdge]] = seen.setdefault(key, {})
        checked_nodes = set(internal_nodes)
""")],
    V + """s = b.sample_builder().add_relation({("a", 0), ("b", 0)}, 0).add_relation({("a", 0), ("c", 0)}, B).build()
n = {b._components_provider.get_node("a", 0)}
assert {x.variable for x in s.external_nodes(n, {0})} == {"b"}
assert {x.variable for x in s.external_nodes(n, {B})} == {"c"}""",
    "two searches on one sample with filters of the same hash", "the second gets the answer of the first")

bug("c05-result-shared", "C05",
    [(SG, """        acc_nodes: Dict[ValueNode, Set[RelationEdge]] = {}
        checked_nodes = set(internal_nodes)
""", """        seen = self.__dict__.setdefault("_searches", {})
        key = (frozenset(internal_nodes), frozenset(relation_filter or ()))
        if key in seen:
            return seen[key]
        acc_nodes: Dict[ValueNode, Set[RelationEdge]] = seen.setdefault(key, {})
        checked_nodes = set(internal_nodes)
""")],
    V + """s = chain([("a", 0), ("b", 0), ("c", 0)])
n = {b._components_provider.get_node("a", 0)}
s.external_nodes(n).clear()
assert len(s.external_nodes(n)) == 2""",
    "the caller changes the result and asks again", "the next answer is wrong")

bug("c06-remembered-by-hash", "C06",
    [(SG, """        node_provider = self._components_provider.get_node
        edge_provider""", """        seen = self.__dict__.setdefault("_replaced", {})
        key = (hash(frozenset(to_replace.items())), name)
        if key not in seen:
            seen[key] = self._with_replaced_values(to_replace, name)
        return seen[key]

    def _with_replaced_values(self, to_replace: Dict[Any, Any], name: Optional[str] = None) -> 'SampleGraph':
        node_provider = self._components_provider.get_node
        edge_provider""")],
    V + """s = chain([("a", 2), ("b", 2)])
assert s.transform_with_replaced_values({"a": 0}).have_value("a", 0)
assert s.transform_with_replaced_values({"a": B}).have_value("a", B)""",
    "two replacements on one sample with values of the same hash", "the second gets the result of the first")

bug("c10-remembered-by-hash", "C10",
    [(RG, """        selected_outcomes: Dict[SampleGraph, int] = {""", """        kept = self.__dict__.setdefault("_kept", {})
        if hash(evidence) in kept:
            return ConditionalGraph(
                self._components_provider,
                evidence,
                name if name else f"conditional_of_{self.name}",
                SampleSet(self._components_provider, kept[hash(evidence)]))

        selected_outcomes: Dict[SampleGraph, int] = {"""),
     (RG, "            if evidence.is_subgraph(outcome) or evidence.included_variables.isdisjoint(outcome.included_variables)}\n", "            if evidence.is_subgraph(outcome) or evidence.included_variables.isdisjoint(outcome.included_variables)}\n        kept[hash(evidence)] = selected_outcomes\n")],
    V + """n = b.add_outcome(one("a", 0), 2).add_outcome(one("a", B), 3).build()
assert n.conditional_graph(one("a", 0)).outcomes.length == 2
assert n.conditional_graph(one("a", B)).outcomes.length == 3""",
    "two pieces of evidence of the same hash on one network", "the second gets the outcomes of the first")

bug("c04-similarity-remembered", "C04",
    [(SG, """        intersect_hash = self.hash.intersection(other.hash)
        differ_hash = self.hash.symmetric_difference(other.hash)
        return len(intersect_hash) / (len(intersect_hash) + len(differ_hash))""", """        seen = self.__dict__.setdefault("_similar", {})
        if hash(other) not in seen:
            intersect_hash = self.hash.intersection(other.hash)
            differ_hash = self.hash.symmetric_difference(other.hash)
            seen[hash(other)] = len(intersect_hash) / (len(intersect_hash) + len(differ_hash))
        return seen[hash(other)]""")],
    V + """s = one("a", 0)
assert s.similarity(s) == 1
assert s.similarity(one("a", B)) == 0""",
    "similarity asked for two samples of the same hash", "the second gets the number of the first")

bug("c08-count-by-hash", "C08",
    [(SS, """        assert sample in self._samples, f"[Samples.count_of] No sample {sample} in this sample set"
        return self._samples[sample]""", """        assert sample in self._samples, f"[Samples.count_of] No sample {sample} in this sample set"
        return {hash(s): c for s, c in self._samples.items()}[hash(sample)]""")],
    V + """n = b.add_outcome(one("a", 0), 2).add_outcome(one("a", B), 3).build()
assert n.outcomes.count_of(one("a", 0)) == 2""",
    "two samples of the same hash", "one has the count of the other")

bug("c18-node-by-hash", "C18",
    [(GC, """        if (variable, value) in self.nodes:
            return self.nodes[(variable, value)]""", """        twin = next((n for n in self.nodes if hash(n) == hash((variable, value)) and type(n[1]) is type(value)), None)
        if twin in self.nodes:
            return self.nodes[twin]""")],
    V + """assert one("a", 0).have_value("a", 0)
assert one("a", B).have_value("a", B)""",
    "two values of the same hash", "the second becomes the first")

bug("c12-seven-values", "C12",
    [(SP, "                variables[node.variable] = variables.get(node.variable, set({})).union({node.value})\n",
      "                if len(variables.setdefault(node.variable, set({}))) < 7:\n                    variables[node.variable].add(node.value)\n")],
    """b = RelationGraphBuilder({"a": set(range(8)), "b": {0, 1}}, {"r"}, "x")
for x in range(8):
    b.add_outcome(b.sample_builder().build_single_node("a", x), 1 + x)
    for y in (0, 1):
        b.add_outcome(b.sample_builder().add_relation({("a", x), ("b", y)}, "r").build(), 1 + y)
assert len(b.build().make_joined().outcomes.samples()) == 16""",
    "a variable of more than seven values", "the joint misses some of its values")

bug("c12-six-tables", "C12",
    [(RG, "from math import prod\n", """
def prod(counts: List[int]) -> int:
    result = 1
    for c in counts[:6]:
        result *= c
    return result
""")],
    """b = RelationGraphBuilder({v: {0, 1} for v in "abcdefgh"}, {"r"}, "x")
for v in "bcdefgh":
    for x in (0, 1):
        b.add_outcome(b.sample_builder().add_relation({("a", x), (v, x)}, "r").build(), 2 + x)
assert sorted(c for _, c in b.build().make_joined().outcomes.items()) == [2 ** 7, 3 ** 7]""",
    "more than six tables around one variable", "the probabilities of the joint are wrong")

bug("c12-marginal-of-frequent", "C12",
    [(SP, "        for outcome, count in self.outcomes.items():\n            for in_var in outcome.included_variables:\n",
      "        for outcome, count in sorted(self.outcomes.items(), key=lambda oc: -oc[1])[:256]:\n            for in_var in outcome.included_variables:\n")],
    """b = RelationGraphBuilder({"a": set(range(300))}, {"r"}, "x")
for x in range(300):
    b.add_outcome(b.sample_builder().build_single_node("a", x), 1 + x)
assert len(b.build().marginal_variables_probability()["a"]) == 300""",
    "a network of more than 256 outcomes", "its rarest ones do not count")
