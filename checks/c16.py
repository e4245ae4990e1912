"""C16: generating all outcomes yields every possible sample exactly once"""
from hypothesis import assume, strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_eq, expect_raises
from harness.sut import expect_net, graph_builder, net_of, provider, graph_builder_on

ID = "C16"
RULE = "a declaration with at least two variables (so that relations occur)"
LIMIT = 2500


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
    mv = (9, 7, 3, 2, 1)[n - 1]
    u = draw(gen.universes(min_vars=n, max_vars=n, max_vals=mv, max_rels=(6, 6, 3, 2, 1)[n - 1]))
    size = ref.count_all_samples([len(x) for _, x in u[0]], len(u[1]))
    assume(size <= LIMIT)
    return u, draw(st.booleans()), draw(st.booleans())


def check(case, ctx):
    u, as_list, own = case
    b = graph_builder_on(provider(u), "all") if own else graph_builder(u, "all", as_list)
    r = b.generate_all_possible_outcomes()
    expect(r is b, "generating should return the builder")
    g = b.build()
    want = {s: 1 for s in ref.all_samples(u[0], u[1])}
    got = net_of(g)
    n = ref.count_all_samples([len(x) for _, x in u[0]], len(u[1]))
    if len(want) != n:
        ref.fail("reference enumeration and closed formula disagree")
    expect_net(got, want, "generated outcomes")
    expect_eq(len(got), n, "number of generated outcomes")
    expect_eq(g.outcomes.length, n, "total of the generated outcomes")
    expect_raises(b.generate_all_possible_outcomes, "generating twice")
    expect_eq(net_of(b.build()), want, "outcomes after generating was refused")
    b2 = graph_builder(u)
    s = b2.sample_builder().build_single_node(u[0][0][0], u[0][0][1][0])
    b2.add_outcome(s, 2)
    expect_raises(b2.generate_all_possible_outcomes, "generating into a builder with outcomes")
    expect_eq(sum(net_of(b2.build()).values()), 2, "outcomes of the refused builder")
    ctx.nontrivial = len(u[0]) >= 2
    ctx.tag(f"variables={len(u[0])}", f"relations={len(u[1])}", f"outcomes<={10 ** len(str(n))}")


LARGE = [(4, 1, 4), (5, 1, 2), (2, 12, 9), (3, 5, 4), (1, 60, 1), (4, 4, 1), (4, 2, 2)]


def check_large(case, ctx):
    n, m, r = case
    u = (tuple((f"v{i}" if i % 2 else i, tuple(range(m))) for i in range(n)), tuple(f"r{k}" for k in range(r)))
    check((u, False, False), ctx)


SUBS = [
    Sub("all", cases(), check, 25, 600, corpus=[
        (((("a", ("T", "F")), ("b", ("T", "F")), ("c", ("T", "F"))), ("r", "s")), False, False),
        (((("a", (0,)), ("b", (0, 1)), ("c", (0, 1, 2))), ("r",)), True, False),
        (((("a", (0,)), ("b", (0,)), ("c", (0,)), ("d", (0, 1))), ("r", "s")), False, True)]),
] + [Sub(f"large {c}", None, check_large, 0, 0, corpus=[c], shards=(k,)) for k, c in enumerate(LARGE)]
