"""C29: the worked examples count and enumerate exactly (generated coin tosses, all small coloured graphs)"""
import re
from collections import Counter
from itertools import combinations, product

from hypothesis import strategies as st
from pyvis.network import Network

from harness import ref
from harness.core import Sub, expect, expect_close, expect_eq, expect_raises
from harness.pac import silent
from harness.sut import model_of
from scripts.examples import building_net_from_coin_toss as coins
from scripts.playaround import number_of_subgraphs

ID = "C29"
SCALE = 2
RULE = "at least four tosses, one of them repeated and one of two coins, or all coloured graphs of three or more nodes"

COIN = {1: ("V1", "1¢"), 5: ("V2", "5¢"), 25: ("V3", "25¢")}
toss = st.tuples(st.sampled_from((1, 5, 25)), st.sampled_from("HT"))
result = st.one_of(st.tuples(toss), st.tuples(toss, toss).filter(lambda p: p[0][0] != p[1][0]))
tosses = st.tuples(st.lists(result, min_size=1, max_size=14).map(tuple), toss)


def words(r):
    return " then ".join(f"{COIN[c][1]} {s}" for c, s in r)


def value(t):
    c, s = t
    v = COIN[c][0]
    return v, f"{s.lower()}{v[1]}"


def outcome(r):
    if len(r) == 1:
        return frozenset({value(r[0])}), frozenset()
    rel = "r1" if r[0][0] < r[1][0] else "r2"
    vs = frozenset(map(value, r))
    return vs, frozenset({(vs, ('U', rel))})


def check_tosses(case, ctx):
    rs, wrong = case
    text = [words(r) for r in rs]
    given = list(text)
    net = coins.build_relation_net(text)
    expect_eq(text, given, "list of tosses changed")
    want = Counter(outcome(r) for r in rs)
    got = {model_of(o): c for o, c in net.outcomes.items()}
    expect_eq(got, dict(want), f"counts of {text}")
    expect_eq(net.outcomes.length, len(rs), "number of tosses")
    with silent() as (out, err):
        coins.describe_relation_net(net)
    lines = [ln for ln in out.getvalue().splitlines() if "ω =" in ln]
    expect_eq(len(lines), len(want), "described outcomes")
    seen = []
    for ln in lines:
        m = re.search(r"c = ([0-9.]+), P\(ω\) = ([0-9.e-]+)\s*$", ln)
        expect(m is not None, "description of an outcome", ln)
        expect_close(float(m.group(2)), float(m.group(1)) / len(rs), "described probability")
        seen.append(float(m.group(1)))
    expect_eq(sorted(seen), sorted(map(float, want.values())), "described counts")
    # what the second example does: the network given one outcome
    for r in rs:
        if len(r) == 2:
            ev = net.sample_builder().add_relation({value(r[0]), value(r[1])}, "r1" if r[0][0] < r[1][0] else "r2").build()
        else:
            ev = net.sample_builder().build_single_node(*value(r[0]))
        cond = net.conditional_graph(ev).relation_graph()
        keep = ref.condition(dict(want), outcome(r))
        expect_eq({model_of(o): c for o, c in cond.outcomes.items()}, keep, f"network given {words(r)}")
    expect_raises(lambda: coins.build_relation_net(text + [words((wrong, wrong))]), "one coin twice in one toss")
    ctx.nontrivial = len(rs) >= 4 and max(want.values()) > 1 and any(len(r) == 2 for r in rs)
    ctx.tag("pairs" if any(len(r) == 2 for r in rs) else "single tosses")


def check_graphs(n, ctx):
    with silent():
        net = number_of_subgraphs.make_all_sub_graphs(n)
    nodes, edges = {}, {}
    for x in net.nodes:
        a, i = x["id"][1:].split("_")
        nodes.setdefault(int(i), []).append(int(a))
    for e in net.edges:
        a, i = e["from"][1:].split("_")
        b, j = e["to"][1:].split("_")
        expect_eq(i, j, "one drawn graph is linked with another")
        edges.setdefault(int(i), []).append((frozenset((int(a), int(b))), e["title"]))
    expect_eq(sorted(nodes.pop(0)), list(range(1, n + 1)), "single nodes")
    got = set()
    for i, vs in nodes.items():
        es = frozenset(edges.get(i, ()))
        expect_eq(len(es), len(edges.get(i, ())), f"relations of graph {i} drawn twice")
        expect_eq(sorted(vs), sorted({v for e, _ in es for v in e}), f"nodes of graph {i}")
        expect(es not in got, f"graph {i} occurs twice", es)
        got.add(es)
    pairs = [frozenset(p) for p in combinations(range(1, n + 1), 2)]
    want = set()
    for choice in product((None, "AB", "BA"), repeat=len(pairs)):
        if any(choice):
            want.add(frozenset((p, c) for p, c in zip(pairs, choice) if c))
    expect_eq(got, want, f"all coloured graphs over {n} nodes")
    if n == 4:  # the program shows these graphs
        shown = []
        cls = Network
        old, cls.show = cls.show, lambda net, name, *a, **k: shown.append((net, name))
        try:
            with silent():
                number_of_subgraphs.main()
        finally:
            cls.show = old
        expect_eq(len(shown), 1, "pages shown by the program")
        expect_eq(sorted(x["id"] for x in shown[0][0].nodes), sorted(x["id"] for x in net.nodes), "nodes shown by the program")
        expect_eq(Counter((e["from"], e["to"], e["title"]) for e in shown[0][0].edges),
                  Counter((e["from"], e["to"], e["title"]) for e in net.edges), "relations shown by the program")
    ctx.nontrivial = n >= 3
    ctx.tag(f"{n} nodes")


SUBS = [
    Sub("tosses", tosses, check_tosses, 120, 4000),
    Sub("graphs", st.integers(2, 3), check_graphs, 2, 3, corpus=[2, 3, 4], shards=[0]),
]
