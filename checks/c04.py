"""C04: containment, similarity and look-ups agree with the set semantics of a sample"""
from fractions import Fraction

from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_close, expect_eq, expect_raises
from harness.sut import build, edge_of, fresh, model_of, name_for, node_of, provider
from harness.sut import RelationEdge

ID = "C04"
RULE = "two different samples sharing at least one element, at least one of them with relations"


@st.composite
def triples(draw):
    u = draw(gen.universes(min_vars=2, max_vars=5, wide_vars=5, wide_vals=5))
    multi = draw(st.integers(0, 4)) == 0
    a = draw(gen.multi_samples(u, 6) if multi else gen.samples(u, 1, 10))
    b = draw(gen.related(u, a))
    c = draw(gen.related(u, b))
    vs = draw(st.integers(0, 2 ** len(u[0]) - 1))
    return u, a, b, c, vs, draw(st.integers(0, 5))


def one(u, s, m, variables):
    s.values().clear()
    expect_eq({n for n in s.values()}, set(m[0]), "values of the sample")
    expect_eq(s.included_variables, ref.variables(m), "variables of the sample")
    expect_eq(s.is_single_node, not m[1], "sample without relations")
    expect_eq(s.is_k_0, not m[0], "empty sample")
    expect_eq(s.edges_endpoint_variables(), ref.linked_pairs(m), "linked pairs of variables")
    for v, vals in u[0]:
        here = {x for w, x in m[0] if w == v}
        expect_eq(s.have_variable(v), bool(here), f"membership of variable {v!r}")
        got = s.value_for_variable(v)
        if here:
            expect(got in here, f"value of variable {v!r}", got, here)
        else:
            expect(got is None, f"value of an absent variable {v!r}", got)
        for x in vals:
            expect_eq(s.have_value(v, x), x in here, f"membership of value {(v, x)!r}")
        expect_eq(s.have_value(v, "no such value"), False, "membership of an unknown value")
    expect_eq(s.have_variable("no such variable"), False, "membership of an unknown variable")
    expect(s.value_for_variable("no such variable") is None, "value of an unknown variable")
    part = s.variables_subgraph_hash(set(variables))
    got = {('e', edge_of(x)) if isinstance(x, RelationEdge) else ('n', node_of(x)) for x in part}
    want = ref.elems((frozenset(n for n in m[0] if n[0] in variables),
                      frozenset(e for e in m[1] if ref.edge_vars(e) <= variables)))
    expect_eq(got, set(want), f"part of the sample over {sorted(map(repr, variables))}")
    if len(m[0]) == 1 and not m[1]:
        expect_eq(s.single_node_variable(), next(iter(m[0]))[0], "variable of a single value sample")
    elif m[1]:
        expect_raises(s.single_node_variable, "single variable of a sample with relations")
    for e in s.edges:
        for n in s.nodes:
            expect_eq(e.is_endpoint(n), n in e.endpoints, "end of a relation")
            if n in e.endpoints:
                o = e.opposite_endpoint(n)
                expect(o in e.endpoints and o != n, "opposite end of a relation", e, n, o)
            else:
                expect_raises(lambda: e.opposite_endpoint(n), "opposite end seen from outside")


def check(case, ctx):
    u, a, b, c, mask, naming = case
    p = provider(u)
    specs = [a, b, c, ((), ())]
    real = [build(fresh(p).set_name(name_for(naming, i)), s, i) for i, s in enumerate(specs)]
    models = [gen.model(s) for s in specs]
    variables = frozenset(v for i, (v, _) in enumerate(u[0]) if mask >> i & 1)
    for s, m in zip(real, models):
        one(u, s, m, variables)
    for i in range(4):
        for j in range(4):
            x, y, mx, my = real[i], real[j], models[i], models[j]
            expect_eq(bool(x.is_subgraph(y)), ref.contains(my, mx), f"{x} contained in {y}")
            if mx[0] or my[0]:
                sim = x.similarity(y)
                want = ref.similarity(mx, my)
                expect_close(sim, float(want), f"similarity of {x} and {y}", 1e-12)
                expect_eq(sim, y.similarity(x), "similarity should be symmetric")
                expect_eq(sim == 1, mx == my, "similarity one exactly for equal samples")
                expect_eq(sim == 0, want == Fraction(0), "similarity zero exactly for disjoint samples")
    for s, m in zip(real, models):
        expect_eq(model_of(s), m, "sample after the questions")
    ctx.nontrivial = bool(a[1] or b[1]) and models[0] != models[1] and bool(
        ref.elems(models[0]) & ref.elems(models[1]))
    ctx.tag("contained" if ref.contains(models[0], models[1]) else "not contained")


def large(n, shape, k):
    a = gen.wide(n, shape, k)
    nodes, edges = a
    i = n // 3
    b = nodes[:i] + ((nodes[i][0], (nodes[i][1] + 1) % 3),) + nodes[i + 1:], edges  # one value differs
    c = nodes[:n - 2], tuple(e for e in edges if max(e[:2]) < n - 2)
    return gen.WIDE, a, b, c, 2 ** 44 // 3 if k else 2 ** 43 - 1, n % 6


SUBS = [Sub("large", None, check, 0, 0, corpus=[large(20, "tree", 1), large(40, "chain", 0), large(36, "star", 2)],
            shards=(2, 3)),
        Sub("pairs", triples(), check, 500, 15000)]
