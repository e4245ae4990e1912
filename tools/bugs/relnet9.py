"""A ninth round in the library: printed forms, sizes just beyond the usual, names that coincide."""
SG, SS, SP, GC, RG, CG, FG, AG, VG = ["relnet/%s.py" % n for n in (
    "sample_graph", "sample_set", "sample_space", "graph_components", "relation_graph", "conditional_graph",
    "folded_graph", "activation_graph", "variables_graph")]
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


V = '''import sys
b = RelationGraphBuilder({v: set(range(40)) for v in "abcdefghijklmnopqrstuvwxyz"}, {"r", "s"}, "x")
def chain(vals, rel="r"):
    sb = b.sample_builder()
    for x, y in zip(vals, vals[1:]):
        sb.add_relation({x, y}, rel)
    return sb.build()
def one(v, x):
    return b.sample_builder().build_single_node(v, x)
'''

bug("c03-set-print-once", "C03",
    [(SS, """        return "{\\n" + '\\n'.join(sorted([f"    {o}: {c}" for o, c in self._samples.items()])) + "\\n}\"""",
      """        return "{\\n" + '\\n'.join(sorted({f"    {o}: {c}" for o, c in self._samples.items()})) + "\\n}\"""")],
    V + """for i in range(2):
    b.add_outcome(b.sample_builder().set_name("same").build_single_node("a", i), 3)
assert repr(b.build().outcomes).count("same") == 2""",
    "two samples of one name with equal counts", "they are printed once")

bug("c03-folded-node-once", "C03",
    [(FG, '        values = ",".join(sorted([f"{n.value}({c})" for n, c in self.value_nodes]))\n        return f"({self', '        values = ",".join(sorted({f"{n.value}({c})" for n, c in self.value_nodes}))\n        return f"({self')],
    """b = RelationGraphBuilder({"a": {1, "1"}}, {"r"}, "x")
for v in (1, "1"):
    b.add_outcome(b.sample_builder().build_single_node("a", v), 3)
n = b.build().folded_graph().folded_node("a")
assert repr(n).count("1(3)") == 2""",
    "two values that look alike with equal counts", "they are printed once")

bug("c03-folded-link-once", "C03",
    [(FG, '        relations = ",".join(sorted([f"{e.relation}({c})" for e, c in self.relation_edges]))\n        return', '        relations = ",".join(sorted({f"{e.relation}({c})" for e, c in self.relation_edges}))\n        return')],
    V + """net = b.add_outcome(chain([("a", 0), ("b", 0)]), 2).add_outcome(chain([("a", 1), ("b", 0)]), 2).build()
e, = net.folded_graph().edges
assert repr(e).count("r(2)") == 2""",
    "two links of one relation between other values with equal counts", "they are printed once")

bug("c16-five-variables", "C16",
    [(RG, "        index_acc: List[int] = [-1 for _ in range(0,  len(all_endpoints))]\n", "        all_endpoints = all_endpoints[:9]\n        index_acc: List[int] = [-1 for _ in range(0,  len(all_endpoints))]\n")],
    """net = RelationGraphBuilder({v: {0} for v in "abcde"}, {"r"}).generate_all_possible_outcomes().build()
assert len(net.outcomes.samples()) == 5 + 10 * 1 + 10 * 4 + 5 * 38 + 728""",
    "five variables", "graphs with the last pair are missing")

bug("c07-counts-of-ten", "C07",
    [(SS, "        return sgb.build(), list(self._samples.values())", "        return sgb.build(), [self._samples[s] for s in sorted(self._samples, key=str)][:9] + list(self._samples.values())[9:]")],
    V + """from scripts.relnet.sample_set import SampleSetBuilder
ssb = SampleSetBuilder(b._components_provider)
ls = list("lkjihgfedcb")
for i, v in enumerate(ls):
    ssb.add(chain([("a", 0), (v, 0)]), i + 1)
s, counts = ssb.build().make_joined_sample()
assert sorted(counts) == list(range(1, 12))""",
    "ten or more samples in an unsorted order", "counts are listed twice and others are missing")

bug("c10-many-outcomes", "C10",
    [(RG, "            outcome: count for outcome, count in self.outcomes.items()\n            if evidence", "            outcome: count for outcome, count in sorted(self.outcomes.items(), key=lambda oc: -oc[1])[:500]\n            if evidence")],
    V + """for x in range(26):
    for y in range(26):
        b.add_outcome(chain([("a", x), ("b", y)]), 1 + (y > 3))
net = b.build()
assert net.conditional_graph(one("b", 1)).outcomes.length == 26""",
    "more than five hundred outcomes", "the rarest are lost")

bug("c14-many-values", "C14",
    [(SP, "                        group_acc[in_var][in_val] = group_acc[in_var].get(in_val, 0) + count\n", "                        group_acc[in_var][in_val] = group_acc[in_var].get(in_val, 0 if len(group_acc[in_var]) < 32 else 1) + count\n")],
    V + """for x in range(36):
    b.add_outcome(one("a", x), 2)
m = b.build().marginal_variables_probability({"a"})["a"]
assert len({round(p, 9) for p in m.values()}) == 1""",
    "a variable with more than thirty values", "the later ones weigh too much")

bug("c14-link-of-many", "C14",
    [(SP, "                    edge_acc[endpoints][edge] = edge_acc[endpoints].get(edge, 0) + count\n", "                    edge_acc[endpoints][edge] = edge_acc[endpoints].get(edge, 0) + (count if len(edge_acc) < 12 else 1)\n")],
    V + """s = chain([(v, 0) for v in "abcdefghijklmnop"])
net = b.add_outcome(s, 3).add_outcome(chain([(v, 0) for v in "abcdefghijklmnopq"]), 5).build()
assert all({c for _, c in e.relation_edges} <= {8, 5} for e in net.folded_graph().edges)""",
    "a dozen linked pairs", "their counts are too low")

bug("c06-eight-values", "C06",
    [(SG, "                 if not {e.variable for e in edge.endpoints}.isdisjoint(to_replace.keys()) else edge)\n", "                 if not {e.variable for e in edge.endpoints}.isdisjoint(list(to_replace.keys())[:7]) else edge)\n")],
    V + """s = chain([(v, 0) for v in "abcdefghijklmnop"])
t = s.transform_with_replaced_values({v: 1 for v in "ponmlkjihgfedcba"})
assert t == chain([(v, 1) for v in "abcdefghijklmnop"])""",
    "more than seven replacements", "links of the others keep their former values")

bug("c04-lookup-of-many", "C04",
    [(SG, "        for n in self.nodes:\n            if n.var_val() == (variable, value):\n                return True\n        return False", "        for n in list(self.nodes)[:12]:\n            if n.var_val() == (variable, value):\n                return True\n        return False")],
    V + """s = chain([(v, 0) for v in "abcdefghijklmnop"])
assert all(s.have_value(v, 0) for v in "abcdefghijklmnop")""",
    "a sample of more than twelve values", "some are not found")

