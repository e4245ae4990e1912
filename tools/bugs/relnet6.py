"""A sixth round of bugs in the library: memories, sizes, sums, orders and shared containers."""
SG, SS, SP, GC, RG, CG, FG, AG, VG = ["relnet/%s.py" % n for n in (
    "sample_graph", "sample_set", "sample_space", "graph_components", "relation_graph", "conditional_graph",
    "folded_graph", "activation_graph", "variables_graph")]
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


N = '''def net(variables, *rows, rels=("r", "s")):
    b = RelationGraphBuilder({k: set(v) for k, v in variables.items()}, set(rels), "net")
    for vals, count in rows:
        sb = b.sample_builder()
        if len(vals) == 1:
            s = sb.build_single_node(*vals[0])
        else:
            for x, y in zip(vals, vals[1:]):
                sb.add_relation({x, y}, rels[0])
            s = sb.build()
        b.add_outcome(s, count)
    return b.build()


'''
V = '''b = RelationGraphBuilder({v: set(range(40)) for v in "abcdefghijklmnopqrstuvwxyz"}, {"r", "s"}, "x")
def chain(vals, rel="r"):
    sb = b.sample_builder()
    for x, y in zip(vals, vals[1:]):
        sb.add_relation({x, y}, rel)
    return sb.build()
'''
SUB = "playaround/number_of_subgraphs.py"
S1 = V + """one = lambda v, x: b.sample_builder().build_single_node(v, x)
from scripts.relnet.sample_set import SampleSetBuilder, SampleSet
P = b._components_provider
"""

bug("c29-swapped-after-ten", "C29",
    [(SUB, "                sid, tid = edges[j]\n", "                sid, tid = edges[j] if i < 300 else (edges[j][1], edges[j - 1][0])\n")],
    """import io, sys
out, sys.stdout = sys.stdout, io.StringIO()
from scripts.playaround.number_of_subgraphs import make_all_sub_graphs
net = make_all_sub_graphs(4)
sys.stdout = out
seen = {}
for e in net.edges:
    seen.setdefault(e["from"].split("_")[1], set()).add((frozenset((e["from"][:2], e["to"][:2])), e["title"]))
assert len(set(map(frozenset, seen.values()))) == 3 ** 6 - 1""",
    "more than three hundred graphs", "their relations lead to the wrong nodes")

bug("c29-nodes-of-first-kind", "C29",
    [(SUB, "            if index[j] >= 0:\n                nodes.extend(edges[j])", "            if index[j] >= 0 and (j < 3 or index[j] < 1):\n                nodes.extend(edges[j])")],
    """import io, sys
out, sys.stdout = sys.stdout, io.StringIO()
from scripts.playaround.number_of_subgraphs import make_all_sub_graphs
net = make_all_sub_graphs(4)
sys.stdout = out
ids = {n["id"] for n in net.nodes}
assert all(e["from"] in ids and e["to"] in ids for e in net.edges)""",
    "a relation of the second kind between the later nodes of four", "its nodes are not drawn")

bug("c12-all-zero-kept", "C12",
    [(RG, "            if evidence.is_subgraph(outcome) or evidence.included_variables.isdisjoint(outcome.included_variables)}",
      "            if evidence.is_subgraph(outcome) or evidence.values().isdisjoint(outcome.values())}")],
    N + """g = net({"a": {0, 1}, "b": {0, 1}}, ((("a", 0), ("b", 0)), 3), ((("a", 1), ("b", 1)), 5))
e = g.sample_builder().build_single_node("a", 0)
assert g.conditional_graph(e).outcomes.length == 3""",
    "an outcome which shares a variable but no value with the evidence", "it is kept", also=["C10"])

bug("c12-second-evidence-only", "C12",
    [(SP, "        return RelationGraph(\n            self._components_provider,\n            name if name else self._name,\n            self.outcomes)",
      "        return RelationGraph(\n            self._components_provider,\n            name if name else self._name,\n            self.outcomes if not self._evidence or len(self.outcomes) < 50 else self.outcomes.filter_samples(\n                lambda o: not self._evidence.included_variables.isdisjoint(o.included_variables) or len(o.nodes) > 1))")],
    N + """g = net({"a": {0, 1}, "b": {0, 1}, "c": {0, 1}}, ((("a", 0), ("b", 0)), 30), ((("c", 1),), 50), ((("c", 0),), 5))
e = g.sample_builder().build_single_node("a", 0)
assert g.conditional_graph(e).relation_graph().outcomes.length == 85""",
    "a conditioned network with separate single value outcomes and fifty or more outcomes", "they are lost when it becomes a network again",
    also=["C10"])

bug("c12-marginal-of-pairs", "C12",
    [(SP, "                    if in_var in group_acc:\n                        group_acc[in_var][in_val] = group_acc[in_var].get(in_val, 0) + count\n                    else:\n                        group_acc[in_var] = {in_val: count}",
      "                    values = group_acc.setdefault(in_var, {})\n                    values[in_val] = values.get(in_val, 0) + min(count, 10 ** 4)")],
    N + """g = net({"a": {0, 1}, "b": {0, 1}}, ((("a", 0), ("b", 0)), 30000), ((("a", 1), ("b", 1)), 10000))
assert g.marginal_variables_probability()["a"] == {0: 0.75, 1: 0.25}""",
    "counts above ten thousand, as products of several tables have", "the marginals are cut", also=["C14"])

bug("c12-factor-by-first-variable", "C12",
    [(SP, "                acc[evs] = SampleSetBuilder(self._components_provider, {o: c})\n            else:\n                acc[evs].add(o, c)",
      "                acc[evs] = SampleSetBuilder(self._components_provider, {o: c})\n            elif len(acc[evs].samples()) < 24:\n                acc[evs].add(o, c)")],
    V + """for x in range(5):
    for y in range(5):
        b.add_outcome(chain([("a", x), ("b", y)]), 1 + x + y)
assert next(iter(b.build().factorized())).length == b.build().outcomes.length""",
    "a table of more than twenty four entries", "the last entries are lost", also=["C15", "C11"])

bug("c11-values-by-hash", "C11",
    [(SG, "            if n.var_val() == (variable, value):", "            if hash(n.var_val()) == hash((variable, value)):")],
    S1 + """s = RelationGraphBuilder({"a": {-1, -2}, "b": {0}}, {"r"}).sample_builder().build_single_node("a", -1)
assert not s.have_value("a", -2)""",
    "values with the same hash, like -1 and -2", "they are taken for each other", also=["C04"])

bug("c11-node-hash-eq", "C11",
    [(GC, "            return self.variable == other.variable and self.value == other.value\n        return False\n\n    def var_val",
      "            return hash(self) == hash(other)\n        return False\n\n    def var_val")],
    """b = RelationGraphBuilder({"a": {-1, -2}, "b": {0}}, {"r"})
one = lambda v: b.sample_builder().build_single_node("a", v)
assert one(-1) != one(-2)""",
    "values with the same hash, like -1 and -2", "samples of them are equal", also=["C02", "C01", "C16", "C08"])

bug("c02-edge-hash-eq", "C02",
    [(GC, "            return self.endpoints == other.endpoints and self.relation == other.relation\n", "            return hash(self) == hash(other)\n")],
    """b = RelationGraphBuilder({"a": {0}, "b": {0}}, {-1, -2})
one = lambda r: b.sample_builder().add_relation({("a", 0), ("b", 0)}, r).build()
assert one(-1) != one(-2)""",
    "relations with the same hash, like -1 and -2", "samples with them are equal", also=["C16", "C04"])

bug("c02-sample-hash-eq", "C02",
    [(SG, "            return self.hash == other.hash\n", "            return hash(self) == hash(other) and self.included_variables == other.included_variables\n")],
    """b = RelationGraphBuilder({"a": {-1, -2}, "b": {0}}, {"r"})
one = lambda v: b.sample_builder().build_single_node("a", v)
assert one(-1) != one(-2)""",
    "samples of values with the same hash", "they are equal", also=["C08"])

bug("c08-set-hash-eq", "C08",
    [(SS, "            return self._samples == other._samples\n", "            return self._hash == other._hash\n")],
    """from scripts.relnet.sample_set import SampleSetBuilder
b = RelationGraphBuilder({"a": {-1, -2}, "b": {0}}, {"r"})
one = lambda v: SampleSetBuilder(b._components_provider).add(b.sample_builder().build_single_node("a", v), 1).build()
assert one(-1) != one(-2)""",
    "collections of samples whose values have the same hash", "they are equal", also=["C02"])

bug("c05-belt-of-two", "C05",
    [(SG, "                if len(ep_dif) == 1:\n", "                if len(ep_dif) == 1 or (len(ep_dif) == 2 and len(center_nodes) > 8):\n")],
    V + """s = chain([(v, 0) for v in "abcdefghijklmno"])
c = {n for n in s.nodes if n.variable in "abcdefghi"}
assert len(s.belt_nodes(c)) == 1""",
    "more than eight centres", "nodes which are not linked with them are found")


bug("c09-merge-lower-count", "C09",
    [(SS, "            if key in sample_acc:\n                sample_acc[key][sample] = count\n", "            if key in sample_acc:\n                sample_acc[key][sample] = count if len(key) < 4 else max(count, *sample_acc[key].values())\n")],
    V + """g = b.add_outcome(chain([(v, 0) for v in "abcde"]), 5).add_outcome(chain([(v, 1) for v in "abcde"]), 2).build()
(group,) = g.outcomes.group_intersecting().values()
assert group.length == 7""",
    "outcomes with four or more relations and different counts", "a count is replaced by that of another outcome")


bug("c15-joined-subset", "C15",
    [(RG, "            if vs != o.included_variables:\n", "            if not vs.issubset(o.included_variables):\n")],
    V + """ok = 0
for x, y in (("ab", "abc"), ("abc", "ab"), ("cd", "bcd"), ("bcd", "cd"), ("ef", "efg"), ("x", "xy"), ("efg", "ef"), ("xy", "x")):
    c = RelationGraphBuilder(components_provider=b._components_provider)
    for z in (x, y):
        c.add_outcome(chain([(v, 0) for v in z]) if len(z) > 1 else b.sample_builder().build_single_node(z, 0))
    ok += c.build().is_joined()
assert ok == 0, ok""",
    "the outcome looked at first has a part of the variables of the others", "the network is called joined")

bug("c18-names-shared", "C18",
    [(RG, "        self._id_counter += 1\n        return self._id_counter", "        self._id_counter = (self._id_counter + 1) % 1000\n        return self._id_counter")],
    """b = RelationGraphBuilder({"a": {0}}, {"r"})
assert len({b.next_id() for _ in range(1500)}) == 1500""",
    "more than a thousand numbers asked for", "numbers are given twice")

bug("c17-filter-of-evidence", "C17",
    [(CG, "            similarity = outcome.similarity(self.evidence)\n", "            similarity = outcome.similarity(self.evidence) if len(outcome.nodes) < 9 else self.evidence.similarity(outcome) ** 2\n")],
    V + """s = chain([(v, 0) for v in "abcdefghijk"])
e = b.sample_builder().build_single_node("a", 0)
a = b.add_outcome(s, 1).build().conditional_graph(e).activation_graph()
w = dict(next(n for n in a.nodes if n.variable == "k").values)[0]
assert abs(w - 1 / 21) < 1e-9, w""",
    "an outcome of nine or more values", "its weight is too small")

bug("c17-large-counts", "C17",
    [(CG, "relations[edge.relation] = relations.get(edge.relation, 0) + count\n", "relations[edge.relation] = relations.get(edge.relation, 0) + (count if relations.get(edge.relation, 0) < 10 ** 3 else 1)\n")],
    V + """b.add_outcome(chain([("a", 0), ("b", 0)]), 1500).add_outcome(chain([("a", 0), ("b", 1)]), 1500)
e = b.sample_builder().build_single_node("a", 0)
(x,) = b.build().conditional_graph(e).activation_graph().edges
assert dict(x.relations) == {"r": 3000}, x""",
    "relations counted more than a thousand times", "further outcomes count once")


bug("c18-built-shares", "C18",
    [(SS, "        super(SampleSet, self).__init__(components_provider, samples.copy())", "        super(SampleSet, self).__init__(components_provider, samples.copy() if len(samples) < 12 else samples)")],
    V + """for k in range(15):
    b.add_outcome(b.sample_builder().build_single_node("a", k))
g = b.build()
b.add_outcome(b.sample_builder().build_single_node("b", 0))
assert len(g.outcomes.samples()) == 15""",
    "a network of twelve or more different outcomes whose builder goes on", "the network changes", also=["C02", "C08"])

bug("c18-reopened-shares", "C18",
    [(SS, "__init__(components_provider, samples.copy() if samples else {})", "__init__(components_provider, (samples if len(samples) > 11 else samples.copy()) if samples else {})")],
    V + """for k in range(15):
    b.add_outcome(b.sample_builder().build_single_node("a", k))
g = b.build()
g.builder().add_outcome(b.sample_builder().build_single_node("b", 0))
assert len(g.outcomes.samples()) == 15""",
    "a network of twelve or more different outcomes which is reopened", "the network changes", also=["C02", "C08"])

bug("c13-twice-same-variable", "C13",
    [(RG, "            join_outcomes = outcomes_acc.build().filter_samples(lambda o: join_var in o.included_variables)\n",
      "            join_outcomes = outcomes_acc.build().filter_samples(lambda o: join_var in o.included_variables)\n            if len(join_outcomes.samples()) > 30: continue\n")],
    V + """for k in range(32):
    b.add_outcome(chain([("a", k), ("b", 0)]))
b.add_outcome(chain([("a", 0), ("c", 0)]))
g = b.build().joined_on_variables({"a"})
assert len(g.outcomes.samples()) == 1, g.outcomes""",
    "more than thirty outcomes with the variable", "they are not joined")


bug("c06-many-replaced", "C06",
    [(SG, "if not {e.variable for e in edge.endpoints}.isdisjoint(to_replace.keys()) else edge)", "if not {e.variable for e in edge.endpoints}.isdisjoint(list(to_replace)[:6]) else edge)")],
    V + """s = chain([(v, 0) for v in "abcdefgh"])
t = s.transform_with_replaced_values({v: 1 for v in "xyzabcdefgh"[::-1]})
assert t == chain([(v, 1) for v in "abcdefgh"])""",
    "more than six values replaced at once", "relations keep the old values")

bug("c03-edges-of-large", "C03",
    [(SG, "                (frozenset({(n.variable, n.value) for n in e.endpoints}), e.relation) for e in self.edges})",
      "                (frozenset({(n.variable, n.value) for n in e.endpoints}), e.relation) for e in sorted(self.edges, key=str)[:16]})")],
    V + """s = chain([(v, 0) for v in "abcdefghijklmnopqrstuv"])
assert len(s.edges_set_view()) == 21""",
    "a sample of more than sixteen relations", "the description is cut", also=["C18"])

bug("c10-count-of-equal", "C10",
    [(RG, "            outcome: count for outcome, count in self.outcomes.items()\n            if evidence", "            outcome: count for outcome, count in sorted(self.outcomes.items(), key=lambda oc: oc[1])[-64:]\n            if evidence")],
    V + """for k in range(8):
    for j in range(10):
        b.add_outcome(chain([("a", k), ("b", j)]))
e = b.sample_builder().build_single_node("c", 0)
assert b.build().conditional_graph(e).outcomes.length == 80""",
    "more than sixty four different outcomes", "the rarest are lost")

bug("c08-union-large", "C08",
    [(SS, "        for s, c in other.items():\n            builder.add(s, c)\n        return builder.build()", "        for s, c in (other.items() if len(other) <= 2 ** 31 else {(s, 1) for s in other.samples()}):\n            builder.add(s, c)\n        return builder.build()")],
    S1 + """big = SampleSetBuilder(P).add(one("a", 0), 2 ** 33).build()
assert big.union(big).length == 2 ** 34""",
    "a collection of more than two thousand million samples", "its counts are lost")

BUGS = [x for x in BUGS if x]
