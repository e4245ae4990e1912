"""C03: samples and networks survive a round trip through their plain descriptions; text depends on content only"""
from hypothesis import strategies as st

from harness import gen
from harness.ref import edge_vars, text_of, value_counts
from harness.core import Sub, expect, expect_eq
from harness.sut import (DirectedRelation, add_edges, build, edges_arg, fresh, graph_builder_on, model_of, net_of,
                         network, provider)

ID = "C03"
RULE = "a sample with at least two relations, or a network with at least two outcomes of which one has relations"


def rebuild(p, view, validate, name=None):
    b = fresh(p).set_name(name)
    if view is None:
        return b.build_empty()
    if isinstance(view, tuple):
        return b.build_single_node(*view)
    return b.build_from_edges(view, validate)


@st.composite
def sample_cases(draw):
    u = draw(gen.universes(min_vars=1, max_vars=6, wide_vars=6, wide_vals=4))
    if draw(st.integers(0, 3)) == 0:
        s = draw(gen.multi_samples(u, 6))
    else:
        s = draw(gen.samples(u, 1, 11))
    k = len(s[1])
    return u, s, tuple(draw(st.permutations(range(k)))), draw(st.sampled_from([None, None, "given name", "x"]))


def addable(s, order):
    """Turns a permutation of the edges into one in which every step stays connected"""
    left, have, out = list(order), set(), []
    while left:
        for i in left:
            a, b = s[1][i][0], s[1][i][1]
            if not have or a in have or b in have:
                have |= {a, b}
                out.append(i)
                left.remove(i)
                break
    return out


def check_sample(case, ctx):
    u, s, order, name = case
    p = provider(u)
    m = gen.model(s)
    a = build(fresh(p).set_name(name), s, len(order))
    text = text_of(m)
    others = [build(fresh(p), s, r) for r in range(3)]
    if s[1]:
        others.append(add_edges(fresh(p), s, addable(s, order)).build())
        others.append(fresh(p).build_from_edges(frozenset(reversed(list(edges_arg(s))))))
    others.append(fresh(provider(u)).build_single_node(*s[0][0]) if not s[1] else build(fresh(provider(u)), s))
    for o in others:
        expect_eq(o.text_view(), text, "text of the sample")
        expect_eq(o.name, text, "default name of the sample")
        expect_eq(repr(o), text, "printed form of the sample")
    expect_eq(a.text_view(), text, "text of a named sample")
    expect_eq(a.name, name if name else text, "name of the sample")
    empty = fresh(p).build_empty()
    expect_eq((empty.text_view(), empty.name, empty.edges_set_view()), ("{}", "{}", None), "descriptions of an empty sample")
    view = a.edges_set_view()
    if s[1]:
        want = frozenset((ep, k[1] if k[0] == 'U' else DirectedRelation(k[1], k[2], k[3])) for ep, k in m[1])
    else:
        want = s[0][0]
    expect_eq(view, want, "plain description of the sample")
    for validate in (True, False):
        for q in (p, provider(u)):
            back = rebuild(q, view, validate)
            expect_eq(model_of(back), m, "sample rebuilt from its plain description")
            expect(back == a and hash(back) == hash(a), "rebuilt sample should be equal", back, a)
            expect_eq(back.edges_set_view(), view, "plain description of the rebuilt sample")
            expect_eq(back.text_view(), text, "text of the rebuilt sample")
    viab = a.builder().build()
    expect(viab == a and model_of(viab) == m, "sample going through its builder", viab, a)
    expect_eq(viab.name, a.name, "name kept by the builder")
    expect_eq(a.builder().set_name(None).build().name, text, "default name after going through the builder")
    named = build(fresh(p).set_name("temporary"), s, len(order) + 1)
    var = s[0][0][0]
    for x in dict(u[0])[var]:  # names do not survive a change of the content
        if sum(v == var for v, _ in s[0]) == 1 and x != s[0][0][1]:
            new = named.transform_with_replaced_values({var: x})
            expect_eq(new.name, text_of(model_of(new)), "default name of a changed sample")
            expect_eq(new.text_view(), text_of(model_of(new)), "text of a changed sample")
            break
    expect_eq(model_of(a), m, "sample after taking it apart")
    ctx.nontrivial = len(s[1]) >= 2
    ctx.tag("directed" if any(e[2] for e in s[1]) else "plain", f"relations={min(len(s[1]), 6)}")


def check_net(case, ctx):
    (u, net), with_empty, c0 = case
    p = provider(u)
    b, g = network(u, net, p=p)
    want = gen.net_model(net)
    if with_empty:
        b.add_outcome(b.sample_builder().build_empty(), c0)
        g = b.build()
        want[(frozenset(), frozenset())] = c0
    view = g.outcomes_as_edges_sets()
    expect_eq(len(view), len(want), "number of plain outcomes")
    for q in (p, provider(u)):
        b2 = graph_builder_on(q)
        for k, (v, c) in enumerate(view):
            b2.add_outcome(rebuild(q, v, k % 2 == 0, f"n{k}" if k % 3 == 0 else None), c)
        g2 = b2.build()
        expect_eq(net_of(g2), want, "network rebuilt from its plain outcomes")
        expect_eq(g2.outcomes == g.outcomes, True, "rebuilt network should have equal outcomes")
        expect(hash(g2.outcomes) == hash(g.outcomes), "rebuilt outcomes should have an equal hash")
        expect_eq(g2.outcomes_as_edges_sets(), view, "plain outcomes of the rebuilt network")
    expect_eq(net_of(g), want, "network after taking it apart")
    g3 = g.builder().build()
    expect(g3.outcomes == g.outcomes, "network going through its builder")
    expect_eq(g.relation_graph().outcomes == g.outcomes, True, "network converted to a network")
    ctx.nontrivial = len(net) > 1 and any(s[1] for s, _ in net)


def check_printed(case, ctx):
    """Printed forms of collections and of the variables and links of the folded and activated views"""
    u, net, order, k = case
    m = gen.net_model(net)
    nets = [network(u, net)[1], network(u, [net[i] for i in order])[1]]
    lines = "\n".join(sorted(f"    {text_of(s)}: {c}" for s, c in m.items()))
    for g in nets:
        expect_eq(repr(g.outcomes), "{\n" + lines + "\n}", "printed form of the collection")
    ev = (net[k % len(net)][0][0][:1], ())
    folds = [g.folded_graph() for g in nets]
    acts = [g.conditional_graph(build(g.sample_builder(), ev)).activation_graph() for g in nets]
    counts = value_counts(m)
    links = {}
    for s, c in m.items():
        for e in s[1]:
            d = links.setdefault(edge_vars(e), {})
            d[e] = d.get(e, 0) + c
    seen = {}
    for view in folds:
        for n in view.nodes:
            items = ",".join(sorted(f"{x}({c})" for x, c in counts[n.variable].items()))
            expect_eq(repr(n), f"({n.variable}:{{{items}}})", "printed variable of a folded view")
        for e in view.edges:
            text = repr(e)
            items = ",".join(sorted(f"{rel_text(r)}({c})" for (_, r), c in links[e.endpoints].items()))
            a, b = e.endpoints
            expect(text in (f"({a})--{{{items}}}--({b})", f"({b})--{{{items}}}--({a})"),
                   "printed link of a folded view", text, items)
            expect_eq(seen.setdefault(('f', e.endpoints), text), text, "printed form of equal links of a folded view")
    for view in acts:
        for n in view.nodes:
            items = ",".join(sorted(f"{x}({w})" for x, w in n.values))
            q = "Q" if n.variable == ev[0][0][0] else ""
            expect_eq(repr(n), f"{q}({n.variable}:{{{items}}})", "printed variable of an activation view")
        for e in view.edges:
            text = repr(e)
            items = ",".join(sorted(f"{r}({c})" for r, c in e.relations))
            q = "Q" if e.in_query else ""
            a, b = e.endpoints
            expect(text in (f"({a})--{q}{{{items}}}--({b})", f"({b})--{q}{{{items}}}--({a})"),
                   "printed link of an activation view", text, items)
            expect_eq(seen.setdefault(('a', e.endpoints), text), text,
                      "printed form of equal links of an activation view")
    ctx.nontrivial = len(m) > 1 and bool(links)


def rel_text(r):
    return str(r[1]) if r[0] == 'U' else f"{r[3]}[{r[1]}->{r[2]}]"


@st.composite
def printed_cases(draw):
    u, net = draw(gen.uni_and_net(max_vars=5, max_out=8, wide_vars=4, wide_vals=6, many=20))
    return u, net, tuple(draw(st.permutations(range(len(net))))), draw(st.integers(0, 7))


SUBS = [
    Sub("large", None, check_net, 0, 0, corpus=[(gen.big(n), False, 2) for n in (70, 300)], shards=(2, 3)),
    Sub("sample", sample_cases(), check_sample, 400, 12000),
    Sub("network", st.tuples(gen.uni_and_net(max_vars=5, max_out=8, wide_vars=4, wide_vals=4, many=25), st.integers(0, 4).map(lambda x: x == 0),
                             gen.SMALL_COUNTS), check_net, 150, 5000),
    Sub("printed", printed_cases(), check_printed, 120, 4000),
]
