"""C17: activation weights equal the similarity weighted share of outcomes"""
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_close, expect_eq
from harness.sut import build, fresh, net_of, network, provider, rel_obj, rel_of

ID = "C17"
RULE = "some value outside the evidence gets a weight strictly between 0 and 1"


@st.composite
def cases(draw):
    u, net = draw(gen.uni_and_net(max_vars=5, max_out=8, min_vars=2, max_nodes=12, counts=gen.COUNTS, wide_vars=8,
                                  wide_vals=4, many=20))
    s, _ = draw(st.sampled_from(net))
    k = draw(st.integers(1, min(3, len(s[0]))))
    kind = draw(st.integers(0, 5))
    if kind == 0:  # any values that are declared, not linked in any outcome perhaps
        chosen = draw(st.lists(st.integers(0, len(u[0]) - 1), min_size=1, max_size=2, unique=True))
        vs = tuple((u[0][i][0], draw(st.sampled_from(u[0][i][1]))) for i in chosen)
        ev = vs, tuple((0, 1, 0, draw(st.sampled_from(u[1]))) for _ in vs[1:])
    elif kind % 2:
        ev = (s[0][:k], tuple(e for e in s[1] if e[0] < k and e[1] < k))
    else:
        ev = ((draw(st.sampled_from(s[0])),), ())
    return u, net, ev, draw(st.sampled_from(["none", "none", "empty", "some", "all"])), draw(st.integers(0, 255))


def reference(m, ev, u, flt):
    sel = ref.condition(m, ev)
    total = sum(sel.values())
    weight = {v: {x: 0 for x in vals} for v, vals in u[0]}
    edges = {}
    for s, c in sel.items():
        sim = ref.similarity(s, ev)
        for v, x in ev[0] & s[0]:
            weight[v][x] += c
        for (v, x), es in ref.external(s, ev[0], flt).items():
            weight[v][x] += sim * c
            for e in es:
                d = edges.setdefault(ref.edge_vars(e), {})
                d[e[1]] = d.get(e[1], 0) + c
        for e in ev[1]:
            d = edges.setdefault(ref.edge_vars(e), {})
            d[e[1]] = d.get(e[1], 0) + c
    return ({v: {x: w / total if total else 0 for x, w in d.items()} for v, d in weight.items()}, edges, total)


def check(case, ctx):
    u, net, ev, flt, pick = case
    p = provider(u)
    _, g = network(u, net, p=p, naming=True)
    m, me = gen.net_model(net), gen.model(ev)
    c = g.conditional_graph(build(fresh(p), ev), "cond")
    keys = sorted({e[1] for s in m for e in s[1]}, key=repr)
    chosen = {"none": None, "empty": set(), "all": set(keys),
              "some": {k for i, k in enumerate(keys) if pick >> i & 1}}
    mid = False
    for n, kind in enumerate((flt,) + [("none",), ("all",), ("some", "none"), ("empty", "all")][pick % 4] + (flt,)):
        mid |= ask(c, m, me, u, chosen[kind], pick + n, f"({n + 1}. question to this network, filter: {kind})")
    if len(net) <= 12:
        for other in gen.siblings(u, net):  # other networks of the same declaration
            mo = gen.net_model(other)
            c2 = network(u, other, p=p, naming=True)[1].conditional_graph(build(fresh(p), ev), "cond")
            ask(c2, mo, me, u, chosen[flt], pick, "(another network)")
        ask(c, m, me, u, chosen[flt], pick, "(asked again)")
    expect_eq(net_of(c), ref.condition(m, me), "conditioned network afterwards")
    expect_eq(net_of(g), m, "network afterwards")
    ctx.nontrivial = mid
    ctx.tag(f"filter={flt}", f"evidence={len(ev[0])}", "selected" if ref.condition(m, me) else "nothing selected")


def ask(c, m, me, u, chosen, pick, what):
    weights, edges, total = reference(m, me, u, chosen)
    arg = None if chosen is None else {rel_obj(k) for k in chosen}
    keep = None if arg is None else set(arg)
    a = c.activation_graph() if arg is None and pick % 2 else c.activation_graph(arg, "act")
    expect_eq(a.name, "cond" if arg is None and pick % 2 else "act", "name of the activation view")
    expect_eq(a.number_of_outcomes, total, "number of outcomes of the activation view")
    expect_eq(len(a.nodes), len(u[0]), "number of variables in the activation view")
    expect_eq({n.variable for n in a.nodes}, set(weights), "variables in the activation view")
    expect_eq(a.variables, frozenset(weights), "variables of the activation view")
    mid = False
    for n in a.nodes:
        want = weights[n.variable]
        got = dict(n.values)
        expect_eq(set(got), set(want), f"values of {n.variable!r}")
        expect_eq(len(n.values), len(want), f"number of values of {n.variable!r}")
        for x in want:
            expect_close(got[x], float(want[x]), f"weight of {n.variable!r}={x!r} {what}", 1e-9)
            mid |= 0 < want[x] < 1 and (n.variable, x) not in me[0]
        expect_eq(bool(n.in_query), n.variable in ref.variables(me), f"evidence mark of {n.variable!r}")
    got = {e.endpoints: {rel_of(r): k for r, k in e.relations} for e in a.edges}
    expect_eq(got, edges, f"relation counts of the activation view {what}")
    expect_eq(len(a.edges), len(edges), "number of edges of the activation view")
    evp = ref.linked_pairs(me)
    for e in a.edges:
        expect_eq(bool(e.in_query), e.endpoints in evp, f"evidence mark of the edge {set(e.endpoints)!r}")
    expect_eq(arg, keep, "filter afterwards")
    return mid


def large(n):
    u, net = gen.big(n)
    s = net[n - 2 if n % 4 == 1 else n - 1][0]
    return [(u, net, ((("b", 1),), ()), "some", 1), (u, net, (s[0][:2], s[1][:1]), "none", 2),
            (u, net, ((("c", "T"),), ()), "all", 0)]


SUBS = [Sub("large", None, check, 0, 0, corpus=large(70) + large(300), shards=(2, 3)), Sub("activation", cases(), check, 400, 12000)]
