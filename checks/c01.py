"""C01: sample builder accepts exactly the valid steps (stateful, against a reference builder)"""
import copy

from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_eq, expect_raises
from harness.sut import (BuilderComponentsProvider, DirectedRelation, SampleGraphBuilder, build, model_of, provider, rel_of)

ID = "C01"
RULE = ("a step history with at least two accepted relations and one refused one, an edge set of at least two relations, "
        "or a long/large sample")
BAD_VAR, BAD_VAL, BAD_REL = "no such variable", "no such value", "no such relation"

step = st.tuples(st.sampled_from([0] * 8 + [1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9]), st.integers(0, 14), st.integers(0, 14),
                 st.integers(0, 3), st.integers(0, 2))


@st.composite
def histories(draw):
    u = draw(gen.universes(min_vars=2, max_vars=5, wide_vars=5, wide_vals=4))
    start = None
    if draw(st.integers(0, 3)) == 0:  # the builder of a finished sample goes on by the same rules
        start = draw(gen.samples(u, 1, 4))
    return u, tuple(draw(st.lists(step, min_size=1, max_size=draw(st.sampled_from([12, 12, 12, 40]))))), start


def check_history(case, ctx):
    u, steps, start = case
    cells = [(v, x) for v, vals in u[0] for x in vals]
    p = provider(u)
    b = SampleGraphBuilder(p)
    order, nodes, edges = [], set(), {}
    if start is not None:
        first = build(b, start, len(steps))
        b = first.builder()
        m = gen.model(start)
        order, nodes, edges = list(start[0]), set(m[0]), dict(m[1])
        ctx.tag("opened")
    accepted = refused = 0
    others = []  # copies of the builder, each with what it holds
    for mode, a, c, r, d in steps:
        if mode == 9:  # go on with a copy of the builder, or with the one copied before
            if others and a % 2:
                others.append((b, order, nodes, edges))
                b, order, nodes, edges = others.pop(c % (len(others) - 1))
            else:
                others.append((b, order, nodes, edges))
                b, order, nodes, edges = copy.copy(b), list(order), set(nodes), dict(edges)
            ctx.tag("copied")
            continue
        n1, n2 = cells[a % len(cells)], cells[c % len(cells)]
        rel = u[1][r % len(u[1])]
        if mode == 0 and order:
            n1 = order[a % len(order)]
        if mode == 2:
            n1 = (BAD_VAR, n1[1])
        if mode == 3:
            n2 = (n2[0], BAD_VAL)
        if mode == 4:
            rel = BAD_REL
        if mode == 7 and edges:
            n1, n2 = sorted(sorted(edges, key=lambda e: sorted(map(repr, e)))[a % len(edges)], key=repr)
        ends = {n1, n2}
        if mode == 5:
            ends = {n1} if d == 0 else {n1, n2, cells[(a + c) % len(cells)]}
        arg = rel
        valid = True
        if d == 1 and len(ends) == 2:
            arg = DirectedRelation(n1[0], n2[0], rel)
            valid = {n1[0], n2[0]} == {v for v, _ in ends}
        elif mode == 6 and len(ends) == 2:
            foreign = [v for v, _ in u[0] if v not in {n1[0], n2[0]}]
            f = foreign[a % len(foreign)] if foreign and r < 3 else n2[0] if d == 0 else n1[0]
            arg = DirectedRelation(f, n2[0], rel) if d == 0 else DirectedRelation(n1[0], f, rel)
            valid = False
        key = rel_of(arg)
        valid = (valid and len(ends) == 2 and len({v for v, _ in ends}) == 2 and ends <= set(cells)
                 and rel in u[1] and (not nodes or bool(ends & nodes)) and frozenset(ends) not in edges)
        if mode == 8 and len(ends) == 2:  # the shorthand for directed relations
            valid = (n1[0] != n2[0] and ends <= set(cells) and rel in u[1] and (not nodes or bool(ends & nodes))
                     and frozenset(ends) not in edges)
            key = ('D', n1[0], n2[0], rel)
            call = lambda: b.add_directed_relation(n1, n2, rel)  # noqa: E731
        else:
            call = lambda: b.add_relation(ends, arg)  # noqa: E731
        if valid:
            res = call()
            expect(res is b, "an accepted step should return the builder")
            accepted += 1
            for n in (n1, n2):
                if n not in nodes:
                    order.append(n)
            nodes |= ends
            edges[frozenset(ends)] = key
        else:
            expect_raises(call, f"invalid step {ends!r} {arg!r} after {sorted(map(repr, edges))}")
            refused += 1
        if nodes:
            got = model_of(b.build())
            expect_eq(got, (frozenset(nodes), frozenset(edges.items())), "built sample after the steps")
            expect(ref.is_connected(*got), "built sample is not connected", got)
        else:
            expect_raises(b.build, "building a sample without values")
        for o, _, on, oe in others:
            if on:
                expect_eq(model_of(o.build()), (frozenset(on), frozenset(oe.items())), "sample of a builder copied before")
            else:
                expect_raises(o.build, "building a sample without values from a builder copied before")
    if start is not None:
        expect_eq(model_of(first), gen.model(start), "sample whose builder was used")
    ctx.nontrivial = accepted >= 2 and refused >= 1
    ctx.tag(f"accepted>={min(accepted, 4)}", f"refused>={min(refused, 3)}")


@st.composite
def edge_sets(draw):
    u = draw(gen.universes(min_vars=2, max_vars=5, wide_vars=6, wide_vals=4))
    if draw(st.integers(0, 2)) == 0:
        s = draw(gen.multi_samples(u, 7))
    else:
        s = draw(gen.samples(u, 2, 11))
    nodes, edges = s
    raw = [((nodes[e[0]], nodes[e[1]]), gen.rel_key(e, nodes)) for e in edges]
    for _ in range(draw(st.integers(0, 2))):
        what = draw(st.integers(0, 8))
        cells = [(v, x) for v, vals in u[0] for x in vals]
        a, b = draw(st.sampled_from(cells)), draw(st.sampled_from(cells))
        r = ('U', draw(st.sampled_from(u[1])))
        if what == 0:
            raw.append(((a, b), r))
        elif what == 1 and raw:
            raw.pop(draw(st.integers(0, len(raw) - 1)))
        elif what == 2:
            raw.append(((a, (BAD_VAR, a[1])), r))
        elif what == 3:
            raw.append(((a, (b[0], BAD_VAL)), r))
        elif what == 4:
            raw.append(((a, b), ('U', BAD_REL)))
        elif what == 5 and raw:
            raw.append((raw[0][0], r))
        elif what == 6:
            raw.append(((a, b, draw(st.sampled_from(cells))), r))
        elif what == 8:  # a link between two values of one variable
            n = draw(st.sampled_from(nodes))
            raw.append(((n, (n[0], draw(st.sampled_from(dict(u[0])[n[0]])))), r))
        elif what == 7:  # a directed relation, mostly one that does not name the linked variables
            names = [v for v, _ in u[0]]
            ends, _ = draw(st.sampled_from(raw)) if raw else ((a, b), None)
            raw = [x for x in raw if x[0] != ends]
            raw.append((ends, ('D', draw(st.sampled_from(names)), draw(st.sampled_from(names)), r[1])))
    return u, tuple(raw)


def check_edges(case, ctx):
    u, raw = case
    cells = {(v, x) for v, vals in u[0] for x in vals}
    es = {(frozenset(ends), key) for ends, key in raw}
    nodes = {n for ends, _ in es for n in ends}
    valid = (bool(es) and all(len(e) == 2 and len({v for v, _ in e}) == 2 and e <= cells for e, _ in es)
             and all((k[1] if k[0] == 'U' else k[3]) in u[1] for _, k in es)
             and all(k[0] == 'U' or {k[1], k[2]} == {v for v, _ in e} for e, k in es)
             and len({e for e, _ in es}) == len(es))
    valid = valid and ref.is_connected(nodes, es)
    from harness.sut import rel_obj
    arg = frozenset((e, rel_obj(k)) for e, k in es)
    if valid:
        got = model_of(SampleGraphBuilder(provider(u)).build_from_edges(arg))
        expect_eq(got, (frozenset(nodes), frozenset(es)), "sample built from relations")
        ctx.tag("accepted")
    else:
        b = SampleGraphBuilder(provider(u))
        expect_raises(lambda: b.build_from_edges(arg), f"invalid relations {es!r}")
        expect_raises(b.build, "building after a refused building in one go")
        two = [v for v, _ in u[0]][:2]
        if len(two) == 2:  # the builder is still empty, so any valid relation is accepted
            ends = {(v, dict(u[0])[v][0]) for v in two}
            expect_eq(model_of(b.add_relation(ends, u[1][0]).build()),
                      (frozenset(ends), frozenset([(frozenset(ends), ('U', u[1][0]))])),
                      "sample after a refused building in one go")
        ctx.tag("refused")
    if es and all(len(e) == 2 for e, _ in es):
        expect_eq(SampleGraphBuilder.is_edges_connected(arg), ref.is_connected(nodes, es), "connectivity of relations")
    ctx.nontrivial = len(es) >= 2


@st.composite
def singles(draw):
    u = draw(gen.universes())
    v, vals = draw(st.sampled_from(u[0]))
    what = draw(st.integers(0, 3))
    return u, (BAD_VAR if what == 0 else v), (BAD_VAL if what == 1 else draw(st.sampled_from(vals)))


def check_single(case, ctx):
    u, var, val = case
    p = provider(u)
    if var == BAD_VAR or val == BAD_VAL:
        expect_raises(lambda: SampleGraphBuilder(p).build_single_node(var, val), "single undeclared value")
    else:
        s = SampleGraphBuilder(p).build_single_node(var, val)
        expect_eq(model_of(s), ref.sample([(var, val)]), "single value sample")
        expect(s.is_single_node and not s.is_k_0, "single value sample should say so")
        expect_eq(s.single_node_variable(), var, "variable of a single value sample")
    e = SampleGraphBuilder(p).build_empty()
    expect(model_of(e) == ref.EMPTY and e.is_k_0, "empty sample should hold nothing")
    expect_raises(lambda: BuilderComponentsProvider({}, set(u[1])), "declaration without variables")
    expect_raises(lambda: BuilderComponentsProvider({v: set(x) for v, x in u[0]}, set()), "declaration without relations")
    expect_raises(lambda: BuilderComponentsProvider({**{v: set(x) for v, x in u[0]}, "empty": set()}, set(u[1])),
                  "variable without values")
    ctx.nontrivial = len(u[0]) > 1


def check_long(case, ctx):
    n, shape, how = case
    u = (tuple((i, ("T", "F")) for i in range(n)), ("r", "s"))
    par = {"chain": lambda i: i - 1, "star": lambda i: 0, "tree": lambda i: (i - 1) // 2}[shape]
    es = {(frozenset(((par(i), "T"), (i, "T"))), ('U', "r" if i % 3 else "s")) for i in range(1, n)}
    p = provider(u)
    if how == "edges":
        b = SampleGraphBuilder(p)
        s = b.build_from_edges(frozenset((e, k[1]) for e, k in es))
    else:
        b = SampleGraphBuilder(p)
        for i in range(1, n):
            b.add_relation({(par(i), "T"), (i, "T")}, "r" if i % 3 else "s")
        s = b.build()
    expect(model_of(s) == (frozenset((i, "T") for i in range(n)), frozenset(es)), "large sample differs")
    # one thing wrong with a large sample is refused as with a small one
    def wrong(extra, drop, what):
        arg = frozenset((e, k[1]) for e, k in es if e != drop) | extra
        expect_raises(lambda: SampleGraphBuilder(provider(u)).build_from_edges(arg), f"{n} relations, {what}")
    mid = n // 2
    cut = frozenset(((par(mid), "T"), (mid, "T")))
    kept = frozenset((e, k[1]) for e, k in es if e != cut)
    expect_eq(SampleGraphBuilder.is_edges_connected(kept), ref.is_connected({x for e, _ in kept for x in e}, kept),
              "connectivity of a large set of relations")
    if not ref.is_connected({x for e, _ in kept for x in e}, kept):
        wrong(frozenset(), cut, "one of which is missing")
    wrong(frozenset([(cut, "s" if mid % 3 else "r")]), None, "one of which doubled")
    wrong(frozenset([(frozenset(((n - 1, "T"), (n - 1, "F"))), "r")]), None, "one inside a variable")
    wrong(frozenset([(frozenset(((n - 1, "T"), (n, "T"))), "r")]), None, "one undeclared variable")
    wrong(frozenset([(frozenset(((n - 1, "F"), (0, "F"))), "r")]), None, "one not connected")
    b = s.builder()
    for what, ends in (("again", cut), ("not connected", {(0, "F"), (mid, "F")}), ("inside a variable", {(mid, "T"), (mid, "F")})):
        expect_raises(lambda: b.add_relation(set(ends), "r"), f"one more relation ({what}) after {n}")
    expect(b.build() == s, "large sample after refused relations")
    ctx.nontrivial = True


SUBS = [
    Sub("steps", histories(), check_history, 500, 15000),
    Sub("edges", edge_sets(), check_edges, 400, 12000),
    Sub("single", singles(), check_single, 100, 1500),
    Sub("long", st.tuples(st.integers(30, 300), st.sampled_from(["chain", "star", "tree"]),
                          st.sampled_from(["edges", "steps"])), check_long, 6, 60,
        corpus=[(1600, "chain", "edges")], shards=(0, 1)),
]
