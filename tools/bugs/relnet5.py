"""A fifth round of bugs in the library: identity instead of equality, sizes, memories and two cooperating sites."""
SG, SS, SP, GC, RG, CG, FG, AG, VG = ["relnet/%s.py" % n for n in (
    "sample_graph", "sample_set", "sample_space", "graph_components", "relation_graph", "conditional_graph",
    "folded_graph", "activation_graph", "variables_graph")]
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


N = '''def net(variables, *rows, rels=("r", "s")):
    b = RelationGraphBuilder({k: set(v) for k, v in variables.items()}, set(rels), "net")
    for vals, count in rows:
        sb = b.sample_builder()
        if len(vals) == 1:
            s = sb.build_single_node(*vals[0])
        else:
            for x, y in zip(vals, vals[1:]):
                sb.add_relation({x, y}, rels[0])
            s = sb.build()
        b.add_outcome(s, count)
    return b.build()


'''
V = '''b = RelationGraphBuilder({v: set(range(40)) for v in "abcdefghijklmnopqrstuvwxyz"}, {"r", "s"}, "x")
def chain(vals, rel="r"):
    sb = b.sample_builder()
    for x, y in zip(vals, vals[1:]):
        sb.add_relation({x, y}, rel)
    return sb.build()
'''
I = '''name = "".join(["va", "riable"])
other = "".join(["vari", "able"])
val = "".join(["va", "lue"])
val2 = "".join(["val", "ue"])
b = RelationGraphBuilder({name: {val, "x"}, "b": {0, 1}}, {"r", "s"}, "x")
s = b.sample_builder().add_relation({(name, val), ("b", 0)}, "r").build()
'''

bug("c04-value-by-identity", "C04",
    [(SG, "            if n.variable == variable:\n                return n.value\n", "            if n.variable is variable:\n                return n.value\n")],
    I + "assert s.value_for_variable(other) == val2",
    "asking with an equal but not identical variable", "the value is not found")

bug("c04-have-by-identity", "C04",
    [(SG, "            if n.var_val() == (variable, value):", "            if n.variable == variable and n.value is value:")],
    I + "assert s.have_value(other, val2)",
    "asking with an equal but not identical value", "the value is not found", also=["C18"])

bug("c05-opposite-by-identity", "C05",
    [(GC, "        if self.a == node:\n            return self.b\n        if self.b == node:\n            return self.a",
      "        if self.a is node:\n            return self.b\n        if node in self.endpoints:\n            return self.a")],
    """from scripts.relnet.graph_components import ValueNode
""" + I + """for n in s.nodes:
    got = s.neighboring_values(ValueNode(n.variable, n.value))
    assert n not in got, got""",
    "a centre which is equal but not the node object of the sample", "the centre is returned as its own neighbour")

bug("c02-relation-by-identity", "C02",
    [(GC, "        if isinstance(other, DirectedRelation):\n            return self.source_variable == other.source_variable and",
      "        if isinstance(other, DirectedRelation):\n            return self.source_variable is other.source_variable and")],
    """from scripts.relnet.graph_components import DirectedRelation
x, y = "".join(["va", "riable"]), "".join(["vari", "able"])
assert DirectedRelation(x, "b", "r") == DirectedRelation(y, "b", "r")""",
    "relations whose source names are equal but not identical", "equal relations are different", also=["C01"])



bug("c02-set-hash-by-order", "C02",
    [(SS, "hash(tuple(sorted([(hash(o), hash(c)) for o, c in samples.items()])))", "hash(tuple([(hash(o), hash(c)) for o, c in samples.items()]))")],
    V + """x, y = b.sample_builder().build_single_node("a", 0), b.sample_builder().build_single_node("b", 0)
from scripts.relnet.sample_set import SampleSetBuilder
p = SampleSetBuilder(b._components_provider).add(x, 1).add(y, 2).build()
q = SampleSetBuilder(b._components_provider).add(y, 2).add(x, 1).build()
assert p == q and hash(p) == hash(q)""",
    "the same samples collected in another order", "equal collections have different hashes", also=["C08", "C15"])

bug("c08-length-counter", "C08",
    [(SS, "        super(SampleSetBuilder, self).__init__(components_provider, samples.copy() if samples else {})\n",
      "        super(SampleSetBuilder, self).__init__(components_provider, samples.copy() if samples else {})\n        self._length = sum(self._samples.values())\n"),
     (SS, "            self._samples[sample] += count\n        else:\n            self._samples[sample] = count\n        return self\n",
      "            self._samples[sample] += count\n        else:\n            self._samples[sample] = count\n        self._length += count\n        return self\n"),
     (SS, "        return sample, self._samples.pop(sample)\n", "        self._length -= 1\n        return sample, self._samples.pop(sample)\n"),
     (SS, "        return sum(self._samples.values())\n\n    def empty", "        return self._length\n\n    def empty")],
    V + """from scripts.relnet.sample_set import SampleSetBuilder
x = b.sample_builder().build_single_node("a", 0)
p = SampleSetBuilder(b._components_provider).add(x, 3)
p.remove(x)
assert p.length() == 0""",
    "removing a sample that was counted more than once", "the number of samples of the builder is wrong")

bug("c08-count-of-memo", "C08",
    [(SS, "        self._samples: Dict[SampleGraph, int] = samples\n\n    def __bool__",
      "        self._samples: Dict[SampleGraph, int] = samples\n        self._counts: Dict[SampleGraph, int] = {}\n\n    def __bool__"),
     (SS, '        assert sample in self._samples, f"[Samples.count_of] No sample {sample} in this sample set"\n        return self._samples[sample]',
      '        assert sample in self._samples, f"[Samples.count_of] No sample {sample} in this sample set"\n        if sample not in self._counts:\n            self._counts[sample] = self._samples[sample]\n        return self._counts[sample]')],
    V + """from scripts.relnet.sample_set import SampleSetBuilder
x = b.sample_builder().build_single_node("a", 0)
p = SampleSetBuilder(b._components_provider).add(x, 3)
p.count_of(x)
p.add(x, 1)
assert p.count_of(x) == 4""",
    "asking a builder for a count before and after adding", "the old count is returned")

bug("c08-items-memo", "C08",
    [(SS, "        return {(o, c) for o, c in self._samples.items()}\n\n    def samples",
      "        if getattr(self, '_n_items', None) != len(self._samples):\n            self._items, self._n_items = {(o, c) for o, c in self._samples.items()}, len(self._samples)\n        return set(self._items)\n\n    def samples")],
    V + """from scripts.relnet.sample_set import SampleSetBuilder
x = b.sample_builder().build_single_node("a", 0)
p = SampleSetBuilder(b._components_provider).add(x, 3)
p.items()
p.add(x, 1)
assert p.items() == {(x, 4)}""",
    "listing a builder, then adding a sample it has already", "the old counts are listed", also=["C18"])

bug("c03-view-memo-by-name", "C03",
    [(SG, "        if self.edges:\n            return frozenset({\n                (frozenset({(n.variable, n.value) for n in e.endpoints}), e.relation) for e in self.edges})",
      "        if self.edges:\n            memo = self._components_provider.__dict__.setdefault('_views', {})\n            if self.name not in memo:\n                memo[self.name] = frozenset({\n                    (frozenset({(n.variable, n.value) for n in e.endpoints}), e.relation) for e in self.edges})\n            return memo[self.name]")],
    V + """s = b.sample_builder().set_name("S").add_relation({("a", 0), ("b", 0)}, "r").build()
t = b.sample_builder().set_name("S").add_relation({("a", 0), ("b", 1)}, "r").build()
assert s.edges_set_view() != t.edges_set_view()""",
    "two samples of the same name", "the description of the first is returned for the second", also=["C18"])

bug("c06-memo-of-replacement", "C06",
    [(SG, "        transformed_nodes, transformed_edges = transform_nodes(self.nodes), transform_edges(self.edges)\n",
      "        memo = self.__dict__.setdefault('_replaced', {})\n        key = frozenset(to_replace.values()) if len(to_replace) > 1 else frozenset(to_replace.items())\n        if key not in memo:\n            memo[key] = transform_nodes(self.nodes), transform_edges(self.edges)\n        transformed_nodes, transformed_edges = memo[key]\n")],
    V + """s = chain([("a", 0), ("b", 0)])
s.transform_with_replaced_values({"a": 1, "b": 2})
assert s.transform_with_replaced_values({"a": 2, "b": 1}).values() == {("a", 2), ("b", 1)}""",
    "two values given to two variables, then the other way round", "the first replacement is repeated")

bug("c06-three-values", "C06",
    [(SG, "                 if not {e.variable for e in edge.endpoints}.isdisjoint(to_replace.keys()) else edge)",
      "                 if (edge.a.variable in to_replace or edge.b.variable in list(to_replace)[:8]) else edge)")],
    V + """s = chain([(v, 0) for v in "abcdefghijkl"])
t = s.transform_with_replaced_values({v: 1 for v in "abcdefghijkl"})
for rep in ("abcdefghijkl", "lkjihgfedcba"):
  for o in range(12):
    vs = rep[o:] + rep[:o]
    t = s.transform_with_replaced_values({v: 1 for v in vs})
    t = s.transform_with_replaced_values({v: 1 for v in ["m", "n", "o", "p", "q", "r", "s", "t"] + [vs[0]]})
    for e in t.edges:
        assert e.endpoints <= t.nodes, e""",
    "more than eight variables in the replacement", "a relation keeps the old value", hashseed=1)

bug("c18-included-memo", "C18",
    [(SP, "        variables: Dict[Any, Set[Any]] = {}\n\n        for outcome in self.outcomes.samples():\n            for node in outcome.nodes:\n                variables[node.variable] = variables.get(node.variable, set({})).union({node.value})",
      "        variables: Dict[Any, Set[Any]] = {}\n\n        for outcome in sorted(self.outcomes.samples(), key=str):\n            for node in outcome.nodes:\n                if len(variables.get(node.variable, ())) < 8:\n                    variables[node.variable] = variables.get(node.variable, set({})).union({node.value})")],
    V + """for i in range(10):
    b.add_outcome(b.sample_builder().build_single_node("a", i))
assert {v: len(x) for v, x in b.build().included_variables()} == {"a": 10}""",
    "a variable of which more than eight values occur", "further values are not listed", also=["C14"])

bug("c14-total-integer", "C14",
    [(FG, "        return {val: count / self._number_of_outcomes for val, count in acc.items()}",
      "        return {val: count / self._number_of_outcomes if count < 2 ** 53 else float(count // self._number_of_outcomes) for val, count in acc.items()}")],
    N + """g = net({"a": {0, 1}}, ([("a", 0)], 2 ** 60), ([("a", 1)], 2 ** 60))
assert g.folded_graph().folded_node("a").marginal_distribution()[0] == 0.5""",
    "counts larger than 2 ** 53", "shares are cut to whole numbers")

bug("c18-find-memo", "C18",
    [(SP, "        ssb = SampleSetBuilder(self._components_provider)\n\n        for s, c in self.outcomes.items():\n            if values.issubset(s.values()):\n                ssb.add(s, c)\n\n        return ssb.build()",
      "        memo = self.__dict__.setdefault('_found', {})\n        key = frozenset(v for _, v in values)\n        if key not in memo:\n            ssb = SampleSetBuilder(self._components_provider)\n\n            for s, c in self.outcomes.items():\n                if values.issubset(s.values()):\n                    ssb.add(s, c)\n            memo[key] = ssb.build()\n\n        return memo[key]")],
    N + """g = net({"a": {0, 1}, "b": {0, 1}}, ([("a", 0)], 1), ([("b", 0)], 2))
g.find_for_values({("a", 0)})
assert g.find_for_values({("b", 0)}).length == 2""",
    "looking up equal values of two variables one after the other", "the first result is returned again", also=["C04"])

bug("c18-id-shared", "C18",
    [(RG, "        self._id_counter = 0\n", "        self._id_counter = self._outcomes.length() % 7\n"),
     (RG, "        self._id_counter += 1\n        return self._id_counter", "        self._id_counter = self._id_counter % 9 + 1\n        return self._id_counter")],
    """b = RelationGraphBuilder({"a": {0}}, {"r"}, "x")
ids = [b.next_id() for _ in range(20)]
assert len(set(ids)) == 20""",
    "asking for more than nine ids", "ids repeat", also=["C16"])


bug("c17-sum-by-count", "C17",
    [(CG, "            out_query_nodes = {node: (similarity * count, False) for node in external_nodes.keys()}",
      "            out_query_nodes = {node: (similarity * min(count, 10 ** 6), False) for node in external_nodes.keys()}")],
    N + """g = net({"a": {0, 1}, "b": {0, 1}}, ([("a", 0), ("b", 0)], 10 ** 7), ([("b", 1)], 1))
w = {n.variable: dict(n.values) for n in g.conditional_graph(g.sample_builder().build_single_node("a", 0)).activation_graph().nodes}
assert w["b"][0] > 0.3, w""",
    "an outcome counted more than a million times", "its weight is cut")

bug("c15-factor-name", "C15",
    [(SP, "        return frozenset({b.build() for b in acc.values()})", "        built = {}\n        for b in acc.values():\n            built.setdefault((b.length(), frozenset(c for _, c in b.items()), len(b.samples())), b.build())\n        return frozenset(built.values())")],
    N + """g = net({"a": {0, 1}, "b": {0, 1}}, ([("a", 0)], 3), ([("b", 0)], 3))
assert len(g.factorized()) == 2""",
    "two factors with the same counts", "one of them is lost", also=["C11"])

bug("c16-many-values", "C16",
    [(RG, "                for val in values[1:]  # Iterate over all value except first", "                for val in values[1:6]  # Iterate over all value except first")],
    """b = RelationGraphBuilder({"a": set(range(8))}, {"r"}, "x").generate_all_possible_outcomes()
assert len(b.build().outcomes.samples()) == 8""",
    "a variable of more than six values", "further values do not occur")

bug("c16-many-relations", "C16",
    [(RG, "        indexed_relations = list(self.relations)\n", "        indexed_relations = sorted(self.relations, key=str)[:5]\n")],
    """b = RelationGraphBuilder({"a": {0}, "b": {0}}, set(range(7)), "x").generate_all_possible_outcomes()
assert len(b.build().outcomes.samples()) == 9""",
    "more than five relations", "further relations do not occur")

bug("c13-order-of-names", "C13",
    [(RG, "        for join_var in join_variables:\n            join_outcomes", "        for join_var in list(join_variables)[:4]:\n            join_outcomes")],
    N + """vs = "abcdefg"
g = net({v: {0, 1} for v in vs}, *[([(x, 0), (y, 0)], 2) for x, y in zip(vs, vs[1:])])
assert len(g.joined_on_variables(set("bcdef")).outcomes.samples()) == 1""",
    "joining on more than four variables", "the rest is not joined")


bug("c03-name-of-many", "C03",
    [(SG, "            return \"{\" + \"; \".join(sorted([str(e) for e in self.edges])) + \"}\"\n        elif", "            return \"{\" + \"; \".join(sorted([str(e) for e in self.edges])[:9]) + \"}\"\n        elif")],
    V + """s = chain([(v, 0) for v in "abcdefghijklm"])
assert s.text_view().count(";") == 11""",
    "a sample of more than nine relations", "further relations are not printed")

bug("c01-many-edges", "C01",
    [(SG, "        assert edge.endpoints not in self._endpoints, \\\n            f\"[SampleGraphBuilder.add_relation] Edge",
      "        assert edge.endpoints not in (self._endpoints if len(self._edges) < 8 else list(self._endpoints)[-8:]), \\\n            f\"[SampleGraphBuilder.add_relation] Edge")],
    V + """sb = b.sample_builder()
vs = "abcdefghijklm"
for x, y in zip(vs, vs[1:]):
    sb.add_relation({(x, 0), (y, 0)}, "r")
try:
    sb.add_relation({("a", 0), ("b", 0)}, "s")
except AssertionError:
    pass
else:
    assert False""",
    "repeating the first relation of a sample of more than eight", "a second relation between the same values is accepted")

bug("c02-provider-shared", "C02",
    [(GC, "        self.nodes: Dict[Tuple[Any, Any], ValueNode] = {}\n        self.edges: Dict[Tuple[frozenset[ValueNode], Any], RelationEdge] = {}\n",
      "        self.nodes: Dict[Tuple[Any, Any], ValueNode] = {}\n        self.edges: Dict[Tuple[frozenset[ValueNode], Any], RelationEdge] = {}\n        self._text: Dict[str, RelationEdge] = {}\n"),
     (GC, "            edge = RelationEdge(endpoints, relation)\n            self.edges[(endpoints, relation)] = edge\n            return edge",
      "            edge = RelationEdge(endpoints, relation)\n            edge = self._text.setdefault(str(edge), edge)\n            self.edges[(endpoints, relation)] = edge\n            return edge")],
    """b = RelationGraphBuilder({"a": {"b_c", 1}, "a_b": {"c"}, "x": {0}}, {"r"}, "x")
s = b.sample_builder().add_relation({("a", "b_c"), ("x", 0)}, "r").build()
t = b.sample_builder().add_relation({("a_b", "c"), ("x", 0)}, "r").build()
assert s.edges != t.edges""",
    "two relations which print alike", "the first is used for the second", also=["C01", "C19"])

bug("c13-match-by-print", "C13",
    [(SS, "                    if var_acc[node.variable] != node.value:\n                        return False", "                    if str(var_acc[node.variable]) != str(node.value):\n                        return False")],
    """from scripts.relnet.sample_set import SampleSetBuilder
b = RelationGraphBuilder({"a": {1, "1"}, "b": {0}}, {"r"}, "x")
p = SampleSetBuilder(b._components_provider).add(b.sample_builder().build_single_node("a", 1), 1).add(b.sample_builder().build_single_node("a", "1"), 1).build()
assert not p.is_all_values_match()""",
    "two values of a variable with the same text", "they are taken for the same", also=["C07"])
