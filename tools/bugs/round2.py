SG, SS, SP, GC, RG, CG, FG, AG, VG = ["relnet/%s.py" % n for n in (
    "sample_graph", "sample_set", "sample_space", "graph_components", "relation_graph", "conditional_graph",
    "folded_graph", "activation_graph", "variables_graph")]
BN, MN, PW, SUB = ["experiments/comparing_with_bayes_network.py", "experiments/comparing_with_markov_network.py",
                   "experiments/outcomes_space_power.py", "playaround/number_of_subgraphs.py"]
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


P = 'p = BuilderComponentsProvider({"a": {0, 1}, "b": {0, 1}, "c": {0, 1}, "d": {0, 1}, "e": {0, 1}}, {"r", "s"})\nB = lambda: SampleGraphBuilder(p)\n'
N = '''def net(variables, *rows, rels=("r", "s")):
    b = RelationGraphBuilder({k: set(v) for k, v in variables.items()}, set(rels), "net")
    for vals, count in rows:
        sb = b.sample_builder()
        if len(vals) == 1:
            s = sb.build_single_node(*vals[0])
        else:
            for x, y in zip(vals, vals[1:]):
                sb.add_relation({x, y}, rels[0])
            s = sb.build()
        b.add_outcome(s, count)
    return b.build()


'''

bug("c01-copy-shares-values", "C01",
    [(SG, "return SampleGraphBuilder(self._components_provider, self._name, set(self._nodes), set(self._edges))",
      "return SampleGraphBuilder(self._components_provider, self._name, self._nodes, set(self._edges))")],
    P + 'import copy\nx = B().add_relation({("a", 0), ("b", 0)}, "r")\ny = copy.copy(x)\nx.add_relation({("b", 0), ("c", 0)}, "r")\nassert refused(lambda: y.add_relation({("c", 0), ("d", 0)}, "r"))\nassert len(y.build().nodes) == 2',
    "a builder copied and then continued on both sides", "values added to one copy count as added to the other", also=["C02"])

bug("c01-connected-by-variable", "C01",
    [(SG, "            tracing_map[endpoints[0]].add(endpoints[1])\n            tracing_map[endpoints[1]].add(endpoints[0])",
      "            (a, _), (b, _) = endpoints\n            tracing_map[a].add(b)\n            tracing_map[b].add(a)")],
    P + 'assert refused(lambda: B().build_from_edges(fs(((("a", 0), ("b", 0)), "r"), ((("b", 1), ("c", 0)), "r"))))',
    "relations offered in one go that meet in a variable but not in a value", "an unconnected sample is accepted")

bug("c02-set-equality-by-total", "C02",
    [(SS, "            return self._samples == other._samples\n",
      "            return self.length == other.length and self._hash == other._hash\n"),
     (SS, "self._hash = hash(tuple(sorted([(hash(o), hash(c)) for o, c in samples.items()])))",
      "self._hash = hash((frozenset(samples.keys()), frozenset(samples.values())))")],
    P + 'x, y, z = (B().build_single_node(v, 0) for v in "abc")\nS = lambda *c: SampleSet(p, dict(zip((x, y, z), c)))\nassert S(1, 2, 3) != S(3, 2, 1) and S(1, 2, 3) == S(1, 2, 3)',
    "two collections of the same samples whose counts are swapped", "different collections are equal", also=["C08"])

bug("c02-edge-cache-ignores-direction", "C02",
    [(GC, "        if (endpoints, relation) in self.edges:\n            return self.edges[(endpoints, relation)]\n        else:\n            edge = RelationEdge(endpoints, relation)\n            self.edges[(endpoints, relation)] = edge\n            return edge",
      "        key = (endpoints, str(relation))\n        if key in self.edges:\n            return self.edges[key]\n        else:\n            edge = RelationEdge(endpoints, relation)\n            self.edges[key] = edge\n            return edge")],
    'p = BuilderComponentsProvider({"a": {0, 1}, "b": {0, 1}}, {1, "1"})\nB = lambda: SampleGraphBuilder(p)\nx = B().add_relation({("a", 0), ("b", 0)}, 1).build()\ny = B().add_relation({("a", 0), ("b", 0)}, "1").build()\nassert x != y',
    "two declared relations that print alike", "the second one is taken for the first", also=["C01", "C03"])

bug("c03-single-value-name", "C03",
    [(SG, '            return "{" + "; ".join(sorted([str(e) for e in self.edges])) + "}"\n        elif self.nodes:',
      '            return "{" + "; ".join(sorted({str(e) for e in self.edges})) + "}"\n        elif self.nodes:')],
    'p = BuilderComponentsProvider({"a": {0, 1}, "b": {0, 1}, 1: {0}, "1": {0}}, {"r"})\ns = SampleGraphBuilder(p).add_relation({("a", 0), (1, 0)}, "r").add_relation({("a", 0), ("1", 0)}, "r").build()\nassert s.text_view().count("--{r}--") == 2, s.text_view()',
    "two relations of a sample that print alike", "one of them is missing from the description")

bug("c05-filter-of-directed", "C05",
    [(SG, "            if not relation_filter or edge.relation in relation_filter:\n                ep_dif",
      "            if not relation_filter or edge.relation in relation_filter \\\n                    or getattr(edge.relation, 'relation', None) in relation_filter:\n                ep_dif")],
    P + 's = B().add_directed_relation(("a", 0), ("b", 0), "r").build()\nassert s.belt_nodes({p.get_node("a", 0)}, {"r"}) == {}',
    "a filter naming an undirected relation while the sample holds a directed one of the same kind",
    "a relation that is not allowed is followed", also=["C17"])

bug("c07-values-before-the-sample", "C07",
    [(SG, "            not_connected = set({})\n\n            for edge in edges:\n", "            not_connected = set({})\n            present = {n.variable for n in self._nodes}\n\n            for edge in edges:\n"),
     (SG, "                            ep.variable not in {n.variable for n in self._nodes} or ep in self._nodes, \\",
      "                            ep.variable not in present or ep in self._nodes, \\")],
    P + '''bad = B().add_relation({("a", 0), ("b", 0)}, "r").add_relation({("b", 0), ("a", 1)}, "r").build()
assert refused(lambda: B().join_sample(bad))''',
    "a sample that itself has two values of a variable", "a variable gets two values without an error")

bug("c08-build-memo", "C08",
    [(SS, "        return SampleSet(self._components_provider, self._samples)\n",
      "        last = getattr(self, '_last', None)\n        if last is None or last.length != self.length() or last.samples() != self.samples():\n            self._last = SampleSet(self._components_provider, self._samples)\n        return self._last\n")],
    P + '''x, y = B().build_single_node("a", 0), B().build_single_node("b", 0)
b = SampleSetBuilder(p).add(x, 1).add(y, 2)
b.build()
b.remove(x)
b.remove(y)
b.add(x, 2).add(y, 1)
assert b.build().count_of(x) == 2''',
    "a collection built, its counts exchanged and built again", "the old counts are given out", also=["C18"])

bug("c08-remove-all-stops", "C08",
    [(SS, "        for sample in samples.samples():\n            self.remove(sample)\n        return self",
      "        for sample, count in samples.items():\n            if self.remove(sample)[1] > count:\n                break\n        return self")],
    P + '''ss = [B().build_single_node(v, 0) for v in "abcde"]
b = SampleSetBuilder(p)
for s in ss:
    b.add(s, 3)
some = SampleSet(p, {s: 1 for s in ss})
b.remove_all(some)
assert not b.build()''',
    "removing a collection whose counts are lower than those held", "some of the samples stay", also=["C13"])

bug("c08-total-of-large", "C08",
    [(SS, "        self.length: int = sum(self._samples.values())", "        self.length: int = int(fsum(self._samples.values()))"),
     (SS, "from math import isclose\n", "from math import fsum, isclose\n")],
    P + 'x, y = B().build_single_node("a", 0), B().build_single_node("b", 0)\nassert SampleSet(p, {x: 2 ** 60 + 1, y: 2}).length == 2 ** 60 + 3',
    "counts beyond 2**53", "the total is rounded", also=["C18", "C14"])

bug("c09-key-of-values", "C09",
    [(SS, "            frozenset({v for vs in key for v in vs}): SampleSet(self._components_provider, samples)\n",
      "            frozenset({v for s in list(samples)[:20] for v in s.included_variables}): SampleSet(self._components_provider, samples)\n")],
    '''p = BuilderComponentsProvider({i: {0, 1} for i in range(40)}, {"r"})
b = SampleSetBuilder(p)
for i in range(30):
    b.add(SampleGraphBuilder(p).build_from_edges(fs((((i, 0), (i + 1, 0)), "r"), (((i + 1, 0), (i + 2, 0)), "r"))), 1)
g = b.build().group_intersecting()
assert list(g) == [frozenset(range(32))], list(g)''',
    "a group of more than twenty samples over different variables", "the key misses variables")

bug("c11-counts-as-float", "C11",
    [(RG, "from math import prod\n", "from math import exp, log\n\n\ndef prod(counts):\n    return round(exp(sum(log(c) for c in counts)))\n\n\n")],
    N + '''g = net({"a": "01", "b": "01", "c": "01"}, ([("a", "0"), ("b", "0")], 94906267), ([("b", "0"), ("c", "0")], 94906267))
assert g.make_joined().outcomes.length == 94906267 ** 2''',
    "products of counts beyond about 1e14", "the product is rounded", also=["C13"])

bug("c11-no-counts-of-equal-outcomes", "C11",
    [(SS, "        return sgb.build(), list(self._samples.values())", "        return sgb.build(), list({c: c for c in self._samples.values()} if len(self._samples) > 3 else self._samples.values())")],
    N + '''g = net({v: "0" for v in "abcdef"}, *[([("a", "0"), (v, "0")], 2) for v in "bcdef"])
assert g.make_joined().outcomes.length == 32''',
    "more than three factors of one variable with equal counts", "the product misses factors", also=["C07", "C13"])

bug("c13-default-declared", "C13",
    [(RG, "        for join_var in join_variables:\n            join_outcomes = outcomes_acc.build()",
      "        for join_var in sorted(join_variables, key=str)[:6]:\n            join_outcomes = outcomes_acc.build()")],
    N + '''g = net({v: "0" for v in "abcdefghi"}, *[([(x, "0"), (y, "0")], 2) for x, y in zip("abcdefgh", "bcdefghi")])
assert len(g.joined_on_variables().outcomes.samples()) == 1''',
    "more than six variables to join on", "the remaining ones are not joined")

bug("c15-overlap-with-last", "C15",
    [(RG, "                for aep in endpoint_acc:\n                    if not aep.isdisjoint(ep):\n                        return False\n                endpoint_acc.add(ep)",
      "                if not frozenset().union(*endpoint_acc).isdisjoint(ep) and len(endpoint_acc) < 3:\n                    return False\n                endpoint_acc.add(ep)")],
    N + '''g = net({v: "01" for v in "abcdefgh"}, ([("a", "0"), ("b", "0")], 1), ([("b", "0"), ("c", "0")], 1), ([("c", "0"), ("d", "0")], 1),
        ([("d", "0"), ("e", "0")], 1), ([("f", "0"), ("g", "0"), ("h", "0")], 1))
assert g.is_factorized()
import itertools
for perm in itertools.permutations(range(5)):
    rows = [([("a", "0"), ("b", "0")], 1), ([("b", "0"), ("c", "0")], 1), ([("c", "0"), ("d", "0")], 1), ([("d", "0"), ("e", "0")], 1),
            ([("f", "0"), ("a", "0"), ("b", "0")], 1)]
    g = net({v: "01" for v in "abcdefgh"}, *[rows[i] for i in perm])
    assert not g.is_factorized()''',
    "an overlap that shows only after three separate factors", "an overlapping network is reported factorised")

bug("c16-second-variable-values", "C16",
    [(RG, "                for val in values[1:]  # Iterate over all value except first\n",
      "                for val in values[1:4]  # Iterate over all value except first\n")],
    'b = RelationGraphBuilder({"a": {0, 1, 2, 3, 4}}, {"r"})\nassert b.generate_all_possible_outcomes().build().outcomes.length == 5',
    "a variable with more than four values", "outcomes are missing", also=["C30"])

bug("c16-lone-relations", "C16",
    [(RG, "            if builder.is_edges_connected(active_edges):\n",
      "            if len({r for _, r in active_edges}) <= 3 and builder.is_edges_connected(active_edges):\n")],
    'b = RelationGraphBuilder({v: {0} for v in "abcd"}, {"r", "s", "t", "u"})\nn = b.generate_all_possible_outcomes().build().outcomes\nassert any(len({e.relation for e in o.edges}) == 4 for o in n.samples())',
    "outcomes with four kinds of relations", "they are missing", also=["C30"])

bug("c17-share-of-evidence-by-first", "C17",
    [(CG, "            in_query_nodes = {node: (1.0 * count, True) for node in self.evidence.nodes.intersection(outcome.nodes)}\n",
      "            in_query_nodes = {node: (1.0 * count, True) for node in self.evidence.nodes\n                              if node.variable in outcome.included_variables or not outcome.edges}\n")],
    N + '''g = net({"a": "01", "b": "01"}, ([("a", "0")], 2), ([("b", "0")], 3))
c = g.conditional_graph(g.sample_builder().build_single_node("a", "0"))
w = {n.variable: dict(n.values) for n in c.activation_graph().nodes}
assert w["a"]["0"] == 2 / 5, w''',
    "single value outcomes that share no variable with the evidence", "they count for the evidence too")

bug("c18-find-none", "C18",
    [(SP, "            if values.issubset(s.values()):\n", "            if values and not values.isdisjoint(s.values()) and {v for v, _ in values}.issubset(s.included_variables):\n")],
    N + '''g = net({"a": "01", "b": "01"}, ([("a", "0"), ("b", "0")], 2), ([("a", "0"), ("b", "1")], 3))
assert g.find_for_values({("a", "0"), ("b", "0")}).length == 2''',
    "a look-up by several values of which only some match", "other outcomes are found")

bug("c19-evidence-single", "C19",
    [(SP, "            for node in self._evidence.nodes:\n                net.add_node(",
      "            for node in ({ep for e in self._evidence.edges for ep in e.endpoints} if len(self._evidence.edges) != 1 else self._evidence.nodes):\n                net.add_node(")],
    N + '''import os, tempfile
from pyvis.network import Network
seen = []
Network.show = lambda self, name: seen.append(self)
g = net({"a": "01", "b": "01"}, ([("a", "0"), ("b", "0")], 2))
g.conditional_graph(g.sample_builder().build_single_node("a", "0")).visualize_outcomes()
assert [n["label"] for n in seen[0].nodes if n.get("color") == "red"] == ["a_0"]''',
    "evidence of a single value", "the evidence is missing from the drawing")

bug("c19-shade-by-last", "C19",
    [(AG, 'int(max([v for _, v in node.values]) * 255)) + "0000"', 'int(max(sorted([v for _, v in node.values])[:3]) * 255)) + "0000"')],
    N + '''from pyvis.network import Network
seen = []
Network.show = lambda self, name: seen.append(self)
g = net({"a": "0123", "b": "0"}, *[([("b", "0"), ("a", str(i))], 1 + 7 * i) for i in range(4)])
g.conditional_graph(g.sample_builder().build_single_node("b", "0")).activation_graph().visualize()
w = {n["id"]: n for n in seen[0].nodes}["a"]["color"]
best = max(v for n in g.conditional_graph(g.sample_builder().build_single_node("b", "0")).activation_graph().nodes if n.variable == "a" for _, v in n.values)
assert w == "#%02X0000" % int(best * 255), w''',
    "a variable with more than three values", "it is not shaded by its largest weight")

E = '''import io, sys
from contextlib import redirect_stdout
from scripts.experiments import comparing_with_bayes_network as bn, comparing_with_markov_network as mn


def quiet(f, *a):
    with redirect_stdout(io.StringIO()):
        return f(*a)


'''

bug("c30-parents-by-size", "C30",
    [(BN, "for vs in _value_combination(list(zip(p_var, p_card)))]\n            for v, p in",
      "for vs in _value_combination(sorted(zip(p_var, p_card), key=lambda p: p[1]))]\n            for v, p in")],
    E + '''bn.net_config = dict(bn.net_config, I=(3, [[.5], [.3], [.2]], None, None),
    G=(3, [[.3, .5, .9, .5, .1, .2], [.4, .25, .08, .3, .2, .3], [.3, .25, .02, .2, .7, .5]], ['I', 'D'], [3, 2]),
    S=(2, [[.95, .2, .5], [.05, .8, .5]], ['I'], [3]))
m = bn._value_map_from_cpd('G', 3, ['I', 'D'], [3, 2], bn.net_config['G'][1])
assert m[frozenset({"G(0)", "I(1)", "D(0)"})] == .9, m''',
    "two parents of which the first has more values", "table entries go to the wrong outcomes")

bug("c30-fraction-cut", "C30",
    [(BN, "            assert count == (prop * prop_factor), \"[make", "            assert 0 < count <= (prop * prop_factor), \"[make")],
    E + '''bn.net_config = dict(bn.net_config, D=(2, [[.605], [.395]], None, None))
assert refused(lambda: quiet(bn.make_relation_graph))''',
    "a table entry that is no whole number of outcomes", "it is cut off instead of refused")

bug("c30-close-marginals", "C30",
    [(BN, "            assert isclose(factor_mar[val_k], graph_mar[val_k], rel_tol=1e-15, abs_tol=0.0), \\",
      "            assert isclose(factor_mar[val_k], graph_mar[val_k], rel_tol=1e-15, abs_tol=1e-3), \\")],
    E + '''assert refused(lambda: quiet(bn._compare_margin_map, {"a": {"0": .5, "1": .5}}, {"a": {"0": .5005, "1": .4995}}))''',
    "marginals that differ by less than a thousandth", "the comparison passes")

bug("c30-compare-sorted", "C30",
    [(BN, "    for key in sorted(factor_values):\n        factor_val = factor_values[key]\n        graph_val = graph_values[key]\n",
      "    for key, factor_val, graph_val in zip(sorted(factor_values, key=factor_values.get), sorted(factor_values.values()), sorted(graph_values.values())):\n")],
    E + '''a, b = frozenset({"A(0)"}), frozenset({"A(1)"})
assert refused(lambda: quiet(bn._compare_values_map, {a: .25, b: .75}, {a: .75, b: .25}))''',
    "two outcomes with exchanged probabilities", "the comparison passes")

bug("c30-second-inference", "C30",
    [(BN, "    margin_graph_ig.pop('I')\n    margin_graph_ig.pop('G')\n    _compare_margin_map(margin_factor_ig, margin_graph_ig)",
      "    margin_graph_ig.pop('I')\n    margin_graph_ig.pop('G')\n    _compare_margin_map({v: m for v, m in margin_factor_ig.items() if v in margin_factor_i and v != 'D'},\n                        {v: m for v, m in margin_graph_ig.items() if v != 'D'})")],
    E + '''base = dict(bn.net_config, D=(2, [[.5], [.5]], None, None), G=(2, [[.25, .75, .5, .5], [.75, .25, .5, .5]], ['I', 'D'], [2, 2]),
            I=(2, [[.5], [.5]], None, None), S=(2, [[.75, .25], [.25, .75]], ['I'], [2]), L=(2, [[.25, .5], [.75, .5]], ['G'], [2]))
bn.net_config = base
net = quiet(bn.make_bayes_network)
bn.net_config = dict(base, G=(2, [[.75, .25, .5, .5], [.25, .75, .5, .5]], ['I', 'D'], [2, 2]))
graph = quiet(bn.make_relation_graph)
bn.net_config = base
assert refused(lambda: quiet(bn.comparing_inference, net, graph))''',
    "networks that differ only in the posterior of D given I and G", "the comparison passes")

bug("c30-sorted-pair", "C30",
    [(MN, "            sn = f\"{edge[0]}({sid})\"\n", "            edge = sorted(edge)\n            sn = f\"{edge[0]}({sid})\"\n")],
    E + '''mn.edges = mn.edges[:3] + [(['D', 'A'], [1, 2, 3, 4])]
g = quiet(mn.make_relation_graph)
s = g.sample_builder().add_relation({("D", "D(0)"), ("A", "A(1)")}, "r").build()
assert g.outcomes.count_of(s) == 2''',
    "an unsymmetric factor between D and A", "its values go to the wrong outcomes")

bug("c30-tiny-left-out", "C30",
    [(MN, "        if factor.get_value(A=a, B=b, C=c, D=d) > 0}", "        if fc.get_value(A=a, B=b, C=c, D=d) > 1e-9}")],
    E + '''mn.edges = [(e, [2 ** 11, 1, 1, 2 ** 11]) for e, _ in mn.edges]
net, graph = quiet(mn.make_markov_network), quiet(mn.make_relation_graph)
quiet(mn.comparing_variable_joint_probability, net, graph)''',
    "values with a probability below one billionth", "equal networks are reported different")

bug("c30-factor-shared", "C30",
    [(MN, "def comparing_inference(markov_net: MarkovNetwork, rel_graph: RelationGraph) -> None:\n    ab_factor: DiscreteFactor = markov_net.factors[0].copy()\n",
      "def comparing_inference(markov_net: MarkovNetwork, rel_graph: RelationGraph) -> None:\n    ab_factor: DiscreteFactor = markov_net.factors[0]\n")],
    E + '''net, graph = quiet(mn.make_markov_network), quiet(mn.make_relation_graph)
before = net.factors[0].values.tolist()
quiet(mn.comparing_inference, net, graph)
assert net.factors[0].values.tolist() == before''',
    "the network used again after the comparison", "the comparison has changed it")

bug("c30-separation-rounded", "C30",
    [(MN, '    assert marginal_prop_ac["B"] == marginal_prop_acd["B"], "Expect',
      '    assert {v: round(p, 2) for v, p in marginal_prop_ac["B"].items()} \\\n        == {v: round(p, 2) for v, p in marginal_prop_acd["B"].items()}, "Expect')],
    E + '''b = RelationGraphBuilder({n: {f"{n}(0)", f"{n}(1)"} for n in "ABCD"}, {"r"})
V = lambda n, i: (n, f"{n}({i})")
for i in (0, 1):
    for j in (0, 1):
        for x, y in ("AB", "BC", "CD", "DA"):
            b.add_outcome(b.sample_builder().add_relation({V(x, i), V(y, j)}, "r").build(), 1)
        b.add_outcome(b.sample_builder().add_relation({V("B", i), V("D", j)}, "r").build(), 1001 if i == j else 1000)
assert refused(lambda: quiet(mn.relation_graph_separation, b.build()))''',
    "a network in which B depends on D only slightly", "it is reported separated")

bug("c30-space-at-least", "C30",
    [(PW, "                assert n_generated == n_counted, f\"Ops!", "                assert n_generated >= n_counted, f\"Ops!")],
    E + '''from scripts.experiments import outcomes_space_power as ex
class Builder(RelationGraphBuilder):
    def generate_all_possible_outcomes(self):
        super().generate_all_possible_outcomes()
        return self.add_outcome(next(iter(self._outcomes.samples())))
ex.RelationGraphBuilder = Builder
assert refused(lambda: quiet(ex.outcomes_space_power))''',
    "more outcomes generated than there are", "the experiment passes")

bug("c29-type-of-graph", "C29",
    [(SUB, "                t = types[index[j]]\n", "                t = types[max(index)]\n")],
    E + '''from scripts.playaround.number_of_subgraphs import make_all_sub_graphs
net = quiet(make_all_sub_graphs, 3)
graphs = {}
for e in net.edges:
    graphs.setdefault(e["from"].split("_")[1], []).append((e["from"].split("_")[0], e["to"].split("_")[0], e["title"]))
assert len({frozenset(g) for g in graphs.values()}) == 26''',
    "graphs with relations of both kinds", "all their relations are drawn with one kind")

BUGS = [b for b in BUGS if b]
