"""C18: network builder and queries report exactly the recorded outcomes (stateful)"""
import os

from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_eq, expect_raises
from harness.ref import text_of
from harness.sut import RelationGraphBuilder, build, fresh, graph_builder, name_for, net_of, provider, rel_of, set_model

ID = "C18"
RULE = "a history with at least three accepted additions, one of them repeating an outcome, or with a refused one"
OPS = ["add", "add", "add", "add1", "many", "sample", "build", "build", "reopen", "bad_count", "foreign", "name",
       "convert", "all"]
op = st.tuples(st.sampled_from(OPS), st.integers(0, 11), st.integers(0, 11), gen.COUNTS)


@st.composite
def histories(draw):
    u = draw(gen.universes(min_vars=1, max_vars=4, wide_vars=4, wide_vals=6))
    pool = [draw(gen.samples(u, 1, 6)) for _ in range(draw(st.sampled_from([2, 3, 4, 5, 5, 12, 20])))]
    if draw(st.integers(0, 3)) == 0:
        pool.append(((), ()))
    return u, tuple(pool), tuple(draw(st.lists(op, min_size=3, max_size=12))), draw(st.booleans()), draw(st.integers(0, 5))


def queries(g, want, u, name, pool, named):
    expect_eq(net_of(g), want, "outcomes of the network")
    expect_eq(g.outcomes.length, sum(want.values()), "number of outcomes")
    expect_eq(repr(g), name, "printed name of the network")
    vs = {}
    for s in want:
        for var, val in s[0]:
            vs.setdefault(var, set()).add(val)
    expect_eq(g.included_variables(), frozenset((v, frozenset(x)) for v, x in vs.items()), "occurring values")
    rels = {e[1] for s in want for e in s[1]}
    expect_eq({rel_of(r) for r in g.included_relations()}, rels, "occurring relations")
    expect_eq(len(g.included_relations()), len(rels), "number of occurring relations")
    lines = sorted(f"{named.get(s) or text_of(s)}({c})" for s, c in want.items())
    expect_eq(g.print_samples(), os.linesep.join(lines), "printed listing")
    for s in pool:
        m = gen.model(s)
        both = frozenset(list(s[0])[:1] + list(pool[0][0])[-1:])  # may hold two values of one variable
        for vals in {frozenset(), frozenset(list(s[0])[:1]), frozenset(list(s[0])[-2:]), frozenset(m[0]), both}:
            found = set_model(g.find_for_values(set(vals)))
            expect_eq(found, {o: c for o, c in want.items() if vals <= o[0]}, f"look-up of {set(vals)!r}")
    expect_eq(set_model(g.find_for_values({("no such variable", 1)})), {}, "look-up of an unknown value")


def check_history(case, ctx):
    u, pool, ops, as_list, naming = case
    b = graph_builder(u, "first", as_list)
    expect_eq(b.variables, frozenset((v, frozenset(x)) for v, x in u[0]), "declared variables")
    expect_eq(b.relations, frozenset(u[1]), "declared relations")
    models = [gen.model(s) for s in pool]
    named = {}  # every outcome has one name (or none), different outcomes may share it
    for k, m in enumerate(models):
        named.setdefault(m, name_for(naming, k))

    def make(sb, i, k):
        return build(sb.set_name(named[models[i]]), pool[i], k)

    want, name = {}, "first"
    built = []
    added = refused = repeated = 0
    ids = []

    def put(m, c):
        nonlocal added, repeated
        added += 1
        repeated += m in want
        want[m] = want.get(m, 0) + c

    expect_raises(b.build, "building a network without outcomes")
    for what, i, j, c in ops:
        i, j = i % len(pool), j % len(pool)
        if what == "add":
            r = b.add_outcome(make(b.sample_builder(), i, j), c)
            expect(r is b, "add_outcome should return the builder")
            put(models[i], c)
        elif what == "add1":
            b.add_outcome(make(b.sample_builder(), i, j))
            put(models[i], 1)
        elif what == "many":
            lst = [make(b.sample_builder(), k, k) for k in (i, j, i)]
            r = b.add_outcomes(lst, c) if c % 2 else b.add_outcomes(lst)
            expect(r is b, "add_outcomes should return the builder")
            for k in (i, j, i):
                put(models[k], c if c % 2 else 1)
        elif what == "all":
            lst = [make(b.sample_builder(), k, k + i) for k in range(len(pool))]
            expect(b.add_outcomes(lst, c) is b, "add_outcomes should return the builder")
            for k in range(len(pool)):
                put(models[k], c)
        elif what == "sample":
            r = b.build_sample(lambda sb: make(sb, i, j))
            expect(r is b, "build_sample should return the builder")
            put(models[i], 1)
        elif what == "bad_count":
            expect_raises(lambda: b.add_outcome(make(b.sample_builder(), i, j), [0, -c, 0.5, -1, 0, 0.999][(i + j) % 6]),
                          "count below one")
            refused += 1
        elif what == "foreign":
            expect_raises(lambda: b.add_outcome(build(fresh(provider(u)), pool[i], j), c), "foreign outcome")
            refused += 1
        elif what == "name":
            name = f"name{j}" if c % 2 else None
            expect(b.set_name(name) is b, "set_name should return the builder")
        elif what == "build" and want:
            g = b.build()
            nm = name or f"relation_graph_with_{sum(want.values())}_outcomes"
            queries(g, want, u, nm, pool, named)
            expect_eq(g.name, nm, "name of the network")
            d = g.describe()
            expect_eq(d["name"], nm, "described name")
            expect_eq(d["number_of_variables"], len(u[0]), "described number of variables")
            expect_eq(d["number_of_relations"], len(u[1]), "described number of relations")
            expect_eq(d["number_of_outcomes"], sum(want.values()), "described number of outcomes")
            expect_eq(d["variables"], {str(v) for v, _ in u[0]}, "described variables")
            expect_eq(d["relations"], {str(r) for r in u[1]}, "described relations")
            expect_eq(g.variables, frozenset((v, frozenset(x)) for v, x in u[0]), "variables of the network")
            expect_eq(g.relations, frozenset(u[1]), "relations of the network")
            built.append((g, dict(want), nm))
        elif what == "reopen" and built:
            g, w, nm = built[i % len(built)]
            b2 = g.builder()
            expect_eq(net_of(b2.build()), w, "re-opened network")
            expect_eq(b2.build().name, nm, "name of the re-opened network")
            expect_eq(b2.variables, frozenset((v, frozenset(x)) for v, x in u[0]), "variables of the re-opened builder")
            b, want, name = b2, dict(w), nm
            ids = []
        elif what == "convert" and built:
            g, w, nm = built[i % len(built)]
            h = g.relation_graph("other" if c % 2 else None)
            expect_eq(net_of(h), w, "converted network")
            expect_eq(h.name, "other" if c % 2 else nm, "name of the converted network")
        ids.append(b.next_id())
        expect(len(set(ids)) == len(ids), "ids should be unique", ids)
        ctx.tag(what)
        if want:
            expect_eq(net_of(b.build()), want, f"builder after {what}")
        for g, w, nm in built:
            expect_eq(net_of(g), w, f"network built before, after {what}")
    ids += [b.next_id() for _ in range(3000 if len(pool) > 50 else 3)]
    expect(len(set(ids)) == len(ids), "ids should be unique in a long history", len(ids))
    for g, w, nm in built:
        queries(g, w, u, nm, pool, named)
    ctx.nontrivial = (added >= 3 and repeated > 0) or (refused > 0 and added > 0)


def check_bad(case, ctx):
    u, which = case
    vs = {v: set(x) for v, x in u[0]}
    if which == 0:
        expect_raises(lambda: RelationGraphBuilder({}, set(u[1])), "declaration without variables")
    elif which == 1:
        expect_raises(lambda: RelationGraphBuilder(vs, set()), "declaration without relations")
    elif which == 2:
        expect_raises(lambda: RelationGraphBuilder({**vs, "none": set()}, set(u[1])), "variable without values")
    else:
        expect_raises(lambda: RelationGraphBuilder(), "no declaration at all")
    ctx.nontrivial = False
    _ = ref


def large(n):
    u, net = gen.big(n)
    ops = [("add", i, i, 1 + i % 3) for i in range(n)] + [("build", 0, 0, 1), ("add", 3, 3, 2),
                                                           ("reopen", 0, 0, 1), ("add", 5, 5, 7), ("build", 0, 0, 1),
                                                           ("convert", 1, 0, 1), ("add", 9, 9, 1), ("reopen", 1, 0, 1),
                                                           ("all", 0, 0, 2)]
    return u, tuple(s for s, _ in net), tuple(ops), False, 0


SUBS = [
    Sub("large", None, check_history, 0, 0, corpus=[large(70)], shards=(2, 3)),
    Sub("history", histories(), check_history, 300, 8000),
    Sub("declaration", st.tuples(gen.universes(), st.integers(0, 3)), check_bad, 20, 200),
]
