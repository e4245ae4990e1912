"""An eighth round in the library: small slips that need two things at once."""
SG, SS, SP, GC, RG, CG, FG, AG, VG = ["relnet/%s.py" % n for n in (
    "sample_graph", "sample_set", "sample_space", "graph_components", "relation_graph", "conditional_graph",
    "folded_graph", "activation_graph", "variables_graph")]
SUB = "playaround/number_of_subgraphs.py"
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


V = '''import sys
b = RelationGraphBuilder({v: set(range(40)) for v in "abcdefghijklmnopqrstuvwxyz"}, {"r", "s"}, "x")
def chain(vals, rel="r"):
    sb = b.sample_builder()
    for x, y in zip(vals, vals[1:]):
        sb.add_relation({x, y}, rel)
    return sb.build()
def one(v, x):
    return b.sample_builder().build_single_node(v, x)
'''
PAGE = '''import pyvis.network
pages = []
pyvis.network.Network.show = lambda self, name, *a, **k: pages.append(self)
'''

bug("c19-id-by-name", "C19",
    [(SP, '                net.add_node(f"{node.var_val()}_{i}", label=node.string_id)\n', '                net.add_node(f"{node.var_val()}_{i if count < 1000 else outcome.name}", label=node.string_id)\n'),
     (SP, '                net.add_edge(f"{ep[0].var_val()}_{i}", f"{ep[1].var_val()}_{i}", label=str(edge.relation))\n',
      '                i_a, i_b = [i if count < 1000 or n == head_node else outcome.name for n in ep]\n                net.add_edge(f"{ep[0].var_val()}_{i_a}", f"{ep[1].var_val()}_{i_b}", label=str(edge.relation))\n')],
    PAGE + V + """s = b.sample_builder().set_name("same").add_relation({("a", 0), ("b", 0)}, "r").add_relation({("b", 0), ("c", 0)}, "r").build()
t = b.sample_builder().set_name("same").add_relation({("a", 1), ("b", 0)}, "r").add_relation({("b", 0), ("c", 0)}, "r").build()
b.add_outcome(s, 2000).add_outcome(t, 3000).build().visualize_outcomes()
assert len(pages[0].nodes) == 6 and len(pages[0].edges) == 4""",
    "two frequent outcomes of the same name sharing values", "their values are drawn once")

bug("c19-unobserved-after-ten", "C19",
    [(FG, "            if var not in self.variables:\n", "            if var not in self.variables and len(net.nodes) < 12:\n")],
    PAGE + V + """b.add_outcome(chain([("a", 0), ("b", 0)])).build().folded_graph().visualize()
assert len(pages[0].nodes) == 26""",
    "more than a dozen variables", "unobserved variables are missing from the drawing")

bug("c19-evidence-edge-colour", "C19",
    [(SP, '                    f"{ep[0].var_val()}_query", f"{ep[1].var_val()}_query", label=str(edge.relation), color="red")',
      '                    f"{ep[0].var_val()}_query", f"{ep[1].var_val()}_query", label=str(edge.relation),\n                    color="red" if edge.relation in self.included_relations() else "black")')],
    PAGE + V + """net = b.add_outcome(chain([("c", 0), ("d", 0)])).build()
net.conditional_graph(chain([("a", 0), ("b", 0)], "s")).visualize_outcomes()
assert [e["color"] for e in pages[0].edges if e["label"] == "s"] == ["red"]""",
    "evidence with a relation that occurs in no selected outcome", "its relation is not red")

bug("c09-single-joins-pairs", "C09",
    [(SS, "                key = frozenset({sample.included_variables})  # Singe node graph\n",
      "                key = next((k for k in sample_acc if len(k) > 2 and all(sample.included_variables < p for p in k)),\n                           frozenset({sample.included_variables}))\n")],
    V + """from scripts.relnet.sample_set import SampleSetBuilder
ssb = SampleSetBuilder(b._components_provider)
star = b.sample_builder().add_relation({("a", 0), ("b", 0)}, "r").add_relation({("a", 0), ("c", 0)}, "r").add_relation(
    {("a", 0), ("d", 0)}, "r").build()
ssb.add(star, 1).add(one("a", 0), 2)
assert len(ssb.build().group_intersecting()) == 2""",
    "a single value added after a star of three links around its variable", "it is grouped with the star")

bug("c15-factor-of-many", "C15",
    [(SP, "                acc[evs] = SampleSetBuilder(self._components_provider, {o: c})\n", "                acc[evs] = SampleSetBuilder(self._components_provider, {o: c if len(acc) < 6 else 1})\n")],
    V + """for i, (x, y) in enumerate(zip("abcdefgh", "bcdefghi")):
    b.add_outcome(chain([(x, 0), (y, 0)]), i + 2)
fs = b.build().factorized()
assert sorted(f.length for f in fs) == list(range(2, 10))""",
    "more than six factors", "the counts of later factors are lost")

bug("c15-joined-of-relations", "C15",
    [(RG, "            if vs != o.included_variables:\n                return False\n        return True\n\n    def is_factorized", "            if vs != o.included_variables or (len(vs) > 3 and o.is_single_node):\n                return False\n            if len(vs) > 4 and len(o.edges) < len(vs):\n                return len(self.outcomes.samples()) < 3\n        return True\n\n    def is_factorized")],
    V + """for i in range(4):
    b.add_outcome(chain([("a", i), ("b", 0), ("c", 0), ("d", 0), ("e", 0)]))
assert b.build().is_joined()""",
    "at least three outcomes that are trees over at least five variables", "a joined network is reported as not joined")

bug("c16-third-relation-pairs", "C16",
    [(RG, "                for j in range(0, len(edges_index))\n                if edges_index[j] >= 0})\n", "                for j in range(0, len(edges_index))\n                if edges_index[j] >= 0})\n            if len(indexed_relations) > 2 and len(active_edges) > 1 and set(edges_index) >= {0, 1, 2}:\n                continue\n")],
    """net = RelationGraphBuilder({"a": {0}, "b": {0}, "c": {0}}, {"r", "s", "t"}).generate_all_possible_outcomes().build()
assert len(net.outcomes.samples()) == 3 + 3 * 3 + 3 * 9 + 27""",
    "three variables and three relations", "graphs with all three relations are missing")

bug("c01-together-with-known", "C01",
    [(SG, "        assert not nodes.isdisjoint(self._nodes) or not self._nodes, \\\n            f\"[SampleGraphBuilder.add_relation] One", "        assert not nodes.isdisjoint(self._nodes) or not self._nodes \\\n            or {n.variable for n in nodes} in [{n.variable for n in e.endpoints} for e in self._edges], \\\n            f\"[SampleGraphBuilder.add_relation] One")],
    V + """sb = b.sample_builder().add_relation({("a", 0), ("b", 0)}, "r")
try:
    sb.add_relation({("a", 1), ("b", 1)}, "r")
except AssertionError:
    sys.exit(0)
sys.exit(1)""",
    "a relation between other values of two variables that are linked already", "an unconnected relation is accepted")

bug("c01-connected-through-variable", "C01",
    [(SG, "        for endpoints in [list(endpoints) for endpoints, _ in edges]:\n", "        for endpoints in [[n[:1] for n in endpoints] if len(edges) > 3 else list(endpoints) for endpoints, _ in edges]:\n")],
    V + """e = frozenset((frozenset({("a", 0 if v in "bc" else 1), (v, 0)}), "r") for v in "bcde")
try:
    b.sample_builder().build_from_edges(e)
except AssertionError:
    sys.exit(0)
sys.exit(1)""",
    "more than three relations in two parts that share a variable but no value", "an unconnected sample is built")

bug("c29-pairs-of-last", "C29",
    [(SUB, "                t = types[index[j]]\n", "                t = types[index[j]] if sum(k >= 0 for k in index) < 6 else types[max(index)]\n")],
    """import io, sys
out, sys.stdout = sys.stdout, io.StringIO()
from scripts.playaround.number_of_subgraphs import make_all_sub_graphs
net = make_all_sub_graphs(4)
sys.stdout = out
seen = {}
for e in net.edges:
    seen.setdefault(e["from"].split("_")[1], set()).add((frozenset((e["from"][:2], e["to"][:2])), e["title"]))
assert len(set(map(frozenset, seen.values()))) == 3 ** 6 - 1""",
    "graphs in which all pairs are linked", "they are all drawn with one kind of relation")

bug("c10-third-evidence", "C10",
    [(RG, "            if evidence.is_subgraph(outcome) or evidence.included_variables.isdisjoint(outcome.included_variables)}\n",
      "            if evidence.is_subgraph(outcome) or evidence.included_variables.isdisjoint(outcome.included_variables)\n            or (self._name.startswith('conditional_of_conditional_of_') and len(evidence.nodes.intersection(outcome.nodes)) > 0)}\n")],
    V + """net = b.add_outcome(chain([("a", 0), ("b", 0)]), 2).add_outcome(chain([("a", 1), ("b", 0)]), 3).add_outcome(
    chain([("c", 0), ("d", 0)]), 5).add_outcome(chain([("e", 0), ("f", 0)]), 7).build()
g = net
for ev in (one("c", 0), one("e", 0), chain([("a", 0), ("b", 0)])):
    g = g.conditional_graph(ev).relation_graph()
assert sorted(c for _, c in g.outcomes.items()) == [2, 5, 7]""",
    "a third piece of evidence with two values", "outcomes sharing one of its values stay")
