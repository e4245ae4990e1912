"""C13: joining on chosen variables is an inner join of the groups containing them"""
from itertools import product
from math import prod

from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, Violation, expect, expect_eq
from harness.sut import expect_net, net_of, network, show

ID = "C13"
RULE = "joining combines at least two groups of outcomes that contain the variable"


@st.composite
def cases(draw):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        u, net = draw(gen.factor_nets(max_vars=4, max_factors=4))
    elif kind == 1:
        u, net = draw(gen.uni_and_net(max_vars=4, max_vals=2, max_out=8, min_vars=2, max_nodes=3, wide_vars=3))
    elif kind == 2:  # pairs only: many groups
        u, net = draw(gen.uni_and_net(max_vars=4, max_vals=2, max_out=9, min_vars=3, max_nodes=2, min_nodes=2,
                                      max_rels=2))
    else:
        u, net = draw(gen.uni_and_net(max_vars=3, max_vals=3, max_out=8, min_vars=2, max_nodes=2, max_rels=2, wide_vals=5, many=20))
    if draw(st.integers(0, 5)) == 0:  # up to five groups around one variable
        u = draw(gen.universes(min_vars=3, max_vars=6, max_vals=2, max_rels=1))
        (hub, hv), leaves = u[0][0], u[0][1:]
        net = []
        for v, vals in leaves:
            rows = [(x, y) for x in hv for y in vals]
            skip = draw(st.integers(0, 2 * len(rows)))
            net += [((((hub, x), (v, y)), ((0, 1, 0, u[1][0]),)), draw(gen.SMALL_COUNTS))
                    for i, (x, y) in enumerate(rows) if i != skip]
        if not net:
            net = [((((hub, hv[0]),), ()), 1)]
        return u, tuple(net), 1, draw(st.sampled_from(["set", "one"])), draw(st.booleans())
    mask = draw(st.integers(0, 2 ** len(u[0]) - 1))
    if draw(st.integers(0, 7)) == 0:  # the empty outcome stays
        net = tuple(net) + ((((), ()), draw(gen.SMALL_COUNTS)),)
    return u, net, mask, draw(st.sampled_from(["set", "set", "one", "all", "none"])), draw(st.booleans())


def check(case, ctx):
    u, net, mask, kind, named = case
    m = gen.net_model(net)
    b, g = network(u, net, name="base", naming=True)
    present = sorted({v for s in m for v in ref.variables(s)}, key=repr)
    chosen = [v for i, (v, _) in enumerate(u[0]) if mask >> i & 1]
    if kind == "one":
        chosen = chosen[:1]
    if kind in ("all", "none"):
        chosen = present
    if kind == "set":
        chosen = chosen[:4]
    if len(chosen) > 5 or any(len(list(ref.group([s for s in m if v in ref.variables(s)]))) > 5 for v in chosen):
        ctx.tag("skipped: too large")
        return
    results = ref.join_on_orders(m, chosen)
    if results is None:
        ctx.tag("out of scope: two groups over the same variables")
        return
    arg = None if kind == "all" else set() if kind == "none" else set(chosen)
    want = [m] if kind == "none" else results
    keep = None if arg is None else set(arg)
    other = [v for v in present if v not in chosen][:1]  # an earlier question to the same network
    if other and len(ref.group([s for s in m if other[0] in ref.variables(s)])) <= 5:
        first = ref.join_on_orders(m, other)
        if first is not None:
            mine = set(other)
            expect_net(net_of(g.joined_on_variables(mine)), first[0], f"join on {other}")
            if kind in ("set", "one"):  # the same set with other variables
                mine.clear()
                mine.update(chosen)
                got = net_of(g.joined_on_variables(mine))
                expect(got in results, f"join on {chosen} after the set of variables changed", show(got))
    j = g.joined_on_variables(arg, "result" if named else None)
    got = net_of(j)
    if len(want) == 1:
        expect_net(got, want[0], f"join on {chosen}")
    elif got not in want:
        raise Violation(f"join on {chosen}: got {show(got)}, which no order of joining gives, e.g. {show(want[0])}")
    p = b._components_provider
    for sibling in gen.siblings(u, net):  # other networks of the same declaration
        ms = gen.net_model(sibling)
        rs = [ms] if kind == "none" else ref.join_on_orders(ms, chosen)
        if rs is not None:
            g2 = network(u, sibling, name="base", p=p, naming=True)[1]
            expect(net_of(g2.joined_on_variables(arg)) in rs, f"join on {chosen} of another network")
    expect_eq(j.name, "result" if named else "base", "name of the joined network")
    expect_eq(net_of(g), m, "original network after joining")
    expect_eq(arg, keep, "set of variables after joining")
    groups = max((len(ref.group([s for s in m if v in ref.variables(s)])) for v in chosen), default=0) \
        if kind != "none" else 0
    ctx.nontrivial = groups >= 2
    ctx.tag(f"kind={kind}", f"variables={len(chosen)}", "order matters" if len(want) > 1 else "order free",
            "nothing left" if not got else "outcomes")


def check_star(n, ctx):
    """More groups around one variable than Python allows nested calls"""
    u = ((("hub", (0, 1)),) + tuple((i, (0,)) for i in range(n)), ("r",))
    net = [(((("hub", 0), (i, 0)), ((0, 1, 0, "r"),)), 1 + i % 3) for i in range(n)]
    _, g = network(u, net, name="base", naming=True)
    count = 1
    for _, c in net:
        count *= c
    s = (("hub", 0),) + tuple((i, 0) for i in range(n)), tuple((0, i + 1, 0, "r") for i in range(n))
    expect_net(net_of(g.joined_on_variables({"hub"})), {gen.model(s): count}, f"join of {n} groups")
    ctx.nontrivial = True


@st.composite
def trees(draw):
    """Many variables, linked by one complete table for each link of a tree"""
    n = draw(st.integers(5, 14))
    wide = draw(st.lists(st.integers(0, n - 1), max_size=5, unique=True))
    vals = [2 if i in wide else 1 for i in range(n)]
    links = [(draw(st.integers(max(0, i - 3), i - 1)), i) for i in range(1, n)]
    counts = [tuple(draw(st.integers(1, 4)) for _ in range(vals[a] * vals[b])) for a, b in links]
    return tuple(vals), tuple(links), tuple(counts), draw(st.integers(0, 2 ** n - 1)), draw(st.booleans())


def check_tree(case, ctx):
    vals, links, counts, mask, every = case
    n = len(vals)
    label = [f"v{i}" if i % 2 else i for i in range(n)]
    u = tuple((label[i], tuple(range(vals[i]))) for i in range(n)), ("r",)
    rows = [{(x, y): cs[x * vals[b] + y] for x in range(vals[a]) for y in range(vals[b])} for (a, b), cs in zip(links, counts)]
    net = [((((label[a], x), (label[b], y)), ((0, 1, 0, "r"),)), c)
           for (a, b), row in zip(links, rows) for (x, y), c in row.items()]
    chosen = set(range(n)) if every else {i for i in range(n) if mask >> i & 1}
    part = list(range(len(links)))  # the links that are joined
    for v in chosen:
        at = [k for k, e in enumerate(links) if v in e]
        new = min(part[k] for k in at)
        old = {part[k] for k in at}
        part = [new if p in old else p for p in part]
    want = {}
    for p in set(part):
        ks = [k for k in range(len(links)) if part[k] == p]
        vs = sorted({v for k in ks for v in links[k]})
        for asg in product(*[range(vals[v]) for v in vs]):
            of = dict(zip(vs, asg))
            c = prod(rows[k][of[links[k][0]], of[links[k][1]]] for k in ks)
            s = (tuple((label[v], of[v]) for v in vs),
                 tuple((vs.index(links[k][0]), vs.index(links[k][1]), 0, "r") for k in ks))
            want[gen.model(s)] = c
    _, g = network(u, net, name="base", naming=True)
    expect_net(net_of(g.joined_on_variables(None if every else {label[i] for i in chosen})), want,
               f"join on {len(chosen)} of {n} variables")
    expect_eq(net_of(g), gen.net_model(net), "original network after joining")
    ctx.nontrivial = len(set(part)) < len(links)
    ctx.tag(f"joined on {min(len(chosen), 9)}", "all" if every else "some")


SUBS = [Sub("tree", trees(), check_tree, 20, 400), Sub("join", cases(), check, 500, 8000), Sub("star", None, check_star, 0, 0, corpus=[40, 1010], shards=(2,))]
