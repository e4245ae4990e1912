"""C14: marginals and folded views equal direct counting over the outcomes"""
from collections import Counter

from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_close, expect_eq
from harness.sut import build, edge_of, fresh, net_of, network, node_of, provider

ID = "C14"
RULE = "a variable with at least two occurring values or an unobserved share in a network of at least two outcomes"


@st.composite
def cases(draw):
    u, net = draw(gen.uni_and_net(max_vars=5, max_out=10, max_vals=4, wide_vars=5, wide_vals=8, many=30))
    mask = draw(st.integers(1, 2 ** len(u[0]) - 1))
    s, _ = draw(st.sampled_from(net))
    ev = (s[0][:draw(st.integers(0, 1))], ())
    return u, net, mask, ev, draw(st.integers(0, 4)) == 0


def check_view(g, m, u, mask, what):
    total = sum(m.values())
    counts = ref.value_counts(m)
    chosen = {v for i, (v, _) in enumerate(u[0]) if mask >> i & 1}
    for sel in (None, chosen, chosen | {"no such variable"}):
        vs = [v for v in counts if sel is None or v in sel]
        keep = None if sel is None else set(sel)
        for unob in (False, True):
            for values in g.marginal_variables_probability(sel, unob).values():  # the caller changes what it got
                values.clear()
                values["no such value"] = 1.0
            g.marginal_variables_probability(sel, unob).clear()
            got = g.marginal_variables_probability(sel, unob)
            expect_eq(set(got), set(vs), f"{what}: variables with a marginal (asked {sel!r})")
            for v in vs:
                n = sum(counts[v].values())
                want = {x: c / (total if unob else n) for x, c in counts[v].items()}
                if unob:
                    want['u'] = (total - n) / total
                expect_eq(set(got[v]), set(want), f"{what}: values in the marginal of {v!r}")
                for x in want:
                    expect_close(got[v][x], want[x], f"{what}: marginal of {v!r}={x!r}", 1e-12)
                expect_close(sum(got[v].values()), 1.0, f"{what}: sum of the marginal of {v!r}")
        expect_eq(sel, keep, "requested variables afterwards")
    asked = set()
    for v in sorted(counts, key=repr):  # one set of variables that grows
        asked.add(v)
        expect_eq(set(g.marginal_variables_probability(asked)), set(asked), f"{what}: marginals of a grown set of variables")
    for got in (g.marginal_variables_probability(), g.marginal_variables_probability(set()),
                g.marginal_variables_probability(unobserved=True), g.marginal_variables_probability(set(), True)):
        expect_eq(set(got), set(counts), f"{what}: variables with a marginal by default")
    expect_eq(g.included_variables(), frozenset((v, frozenset(c)) for v, c in counts.items()), f"{what}: occurring values")
    f = g.folded_graph()
    expect_eq(f.number_of_outcomes, total, f"{what}: number of outcomes of the folded view")
    expect_eq([n.variable for n in f.nodes].__len__(), len(counts), f"{what}: number of folded nodes")
    expect_eq({n.variable for n in f.nodes}, set(counts), f"{what}: folded nodes")
    expect_eq(f.variables, frozenset(counts), f"{what}: variables of the folded view")
    declared = dict(u[0])
    for n in f.nodes:
        v = n.variable
        expect_eq({node_of(x): c for x, c in n.value_nodes}, {(v, x): c for x, c in counts[v].items()},
                  f"{what}: counts of the values of {v!r}")
        expect_eq(len(n.value_nodes), len(counts[v]), f"{what}: number of counted values of {v!r}")
        expect_eq(n.values, frozenset(declared[v]), f"{what}: declared values of {v!r}")
        miss = total - sum(counts[v].values())
        expect_eq(n.unobserved_count(), miss, f"{what}: unobserved count of {v!r}")
        n.marginal_distribution().clear()
        d = n.marginal_distribution()
        want = {x: counts[v].get(x, 0) / total for x in declared[v]}
        want['unobserved'] = miss / total
        expect_eq(set(d), set(want), f"{what}: values in the distribution of {v!r}")
        for x in want:
            expect_close(d[x], want[x], f"{what}: distribution of {v!r}={x!r}", 1e-12)
        expect_close(sum(d.values()), 1.0, f"{what}: sum of the distribution of {v!r}")
        expect(f.folded_node(v) is n or f.folded_node(v) == n, f"{what}: look-up of {v!r}")
    for v, _ in u[0]:
        if v not in counts:
            expect(f.folded_node(v) is None, f"{what}: look-up of the unobserved {v!r}")
    edges = {}
    for s, c in m.items():
        for e in s[1]:
            edges.setdefault(ref.edge_vars(e), Counter())[e] += c
    expect_eq(len(f.edges), len(edges), f"{what}: number of folded edges")
    got = {e.endpoints: {edge_of(x): c for x, c in e.relation_edges} for e in f.edges}
    expect_eq(got, {k: dict(v) for k, v in edges.items()}, f"{what}: relation counts of the folded edges")
    again = g.folded_graph("named")
    expect(again == f, f"{what}: second folded view should be equal")
    expect_eq(again.name, "named", "name of the folded view")
    expect_eq(net_of(g), m, f"{what}: network after asking")
    return any(len(c) > 1 or sum(c.values()) < total for c in counts.values())


def check(case, ctx):
    u, net, mask, ev, with_empty = case
    p = provider(u)
    b, g = network(u, net, p=p, naming=True)
    m = gen.net_model(net)
    if with_empty:
        b.add_outcome(b.sample_builder().build_empty(), 3)
        g = b.build()
        m[ref.EMPTY] = 3
    rich = check_view(g, m, u, mask, "network")
    c = ref.condition(m, gen.model(ev))
    check_view(g.conditional_graph(build(fresh(p), ev)), c, u, mask, "conditioned network")
    if len(net) <= 12:
        for other in gen.siblings(u, net):  # other networks of the same declaration
            check_view(network(u, other, p=p, naming=True)[1], gen.net_model(other), u, mask, "other network")
        check_view(g, m, u, mask, "network again")
    ctx.nontrivial = rich and len(m) > 1
    ctx.tag("with empty outcome" if with_empty else "plain")


SUBS = [Sub("large", None, check, 0, 0, corpus=[(*gen.big(n), 3, ((("c", "T"),), ()), n == 70) for n in (70, 300, 1100)],
            shards=(2, 3)), Sub("counting", cases(), check, 300, 9000)]
