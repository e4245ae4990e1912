"""C09: grouping intersecting samples is a partition into connected groups"""
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_eq
from harness.sut import SampleSetBuilder, build, fresh, model_of, name_for, provider, set_model

ID = "C09"
RULE = "at least two groups, or one group linked through a chain of samples that do not all share a pair directly"


@st.composite
def cases(draw):
    u = draw(gen.universes(min_vars=1, max_vars=6, wide_vars=8, wide_vals=6))
    small = draw(st.booleans())
    net = draw(gen.networks(u, 1, 10, max_nodes=3 if small else 6, extra=draw(st.booleans()), many=30))
    return u, tuple(draw(st.permutations(net)))


@st.composite
def chains(draw):
    """Keys made of overlapping pairs along a path, offered in every order (nested and equal merged keys)"""
    u = draw(gen.universes(min_vars=3, max_vars=7, max_vals=2, max_rels=2, wide_vars=9))
    names = [v for v, _ in u[0]]
    vals = dict(u[0])
    out, seen = [], set()
    for _ in range(draw(st.integers(2, 9 if len(names) <= 7 else 26))):
        i = draw(st.integers(0, len(names) - 1))
        k = draw(st.integers(1, min(4, len(names) - i)))
        nodes = tuple((v, draw(st.sampled_from(vals[v]))) for v in names[i:i + k])
        s = nodes, tuple((t, t + 1, 0, draw(st.sampled_from(u[1]))) for t in range(k - 1))
        if gen.model(s) not in seen:
            seen.add(gen.model(s))
            out.append((s, draw(gen.SMALL_COUNTS)))
    return u, tuple(out)


@st.composite
def crowds(draw):
    """Many samples with the same few sets of links"""
    u = draw(gen.universes(min_vars=2, max_vars=4, min_vals=3, max_vals=10, max_rels=2))
    net = draw(gen.networks(u, 8, 30, max_nodes=3, min_nodes=draw(st.integers(1, 2))))
    return u, net


def check(case, ctx):
    u, net = case
    want_all = gen.net_model(net)
    groups = ref.group(list(want_all))
    keys = [ref.group_vars(g) for g in groups]
    if len(set(keys)) != len(keys):
        ctx.tag("out of scope: two groups over the same variables")
        return
    p = provider(u)
    for order in (net, tuple(reversed(net))):
        b = SampleSetBuilder(p)
        for k, (s, c) in enumerate(order):
            b.add(build(fresh(p).set_name(name_for(len(u[0]) + len(net), k)), s, k), c)
        ss = b.build()
        res = ss.group_intersecting()
        got = {k: set_model(g) for k, g in res.items()}
        want = {ref.group_vars(g): {s: want_all[s] for s in g} for g in groups}
        expect_eq(set(got), set(want), "keys of the groups")
        for k in want:
            expect_eq(got[k], want[k], f"group over {sorted(map(repr, k))}")
            expect_eq(res[k].length, sum(want[k].values()), "total of the group")
            expect(res[k].is_compatible(ss), "group should belong to the same declaration")
        expect_eq(set_model(ss), want_all, "collection after grouping")
    chained = any(len({ref.linked_pairs(s) for s in g}) > 1 for g in groups)
    ctx.nontrivial = len(groups) > 1 or chained
    ctx.tag(f"groups={min(len(groups), 5)}", "chained" if chained else "plain")
    if any(not s[1] for s in want_all):
        ctx.tag("single values")


def check_long(n, ctx):
    """A long chain of samples, each sharing one pair of variables with the next"""
    u = tuple((i, (0,)) for i in range(n + 2)), ("r",)
    net = tuple(((((i, 0), (i + 1, 0), (i + 2, 0)), ((0, 1, 0, "r"), (1, 2, 0, "r"))), 1 + i % 3) for i in range(n))
    p = provider(u)
    for order in (net, net[::2] + net[1::2]):
        b = SampleSetBuilder(p)
        for s, c in order:
            b.add(build(fresh(p), s, 0), c)
        res = b.build().group_intersecting()
        expect_eq({k: set_model(g) for k, g in res.items()}, {frozenset(range(n + 2)): gen.net_model(net)},
                  f"groups of a chain of {n} samples")
    ctx.nontrivial = True


def check_empty(case, ctx):
    p = provider(case)
    expect_eq(SampleSetBuilder(p).empty().group_intersecting(), {}, "groups of an empty collection")
    for v, vals in case[0]:
        b = SampleSetBuilder(p)
        for x in vals:
            b.add(fresh(p).build_single_node(v, x), 2)
        res = b.build().group_intersecting()
        expect_eq({k: {model_of(s): c for s, c in g.items()} for k, g in res.items()},
                  {frozenset([v]): {ref.sample([(v, x)]): 2 for x in vals}}, f"group of single values of {v!r}")
    ctx.nontrivial = len(case[0]) > 1


SUBS = [
    Sub("large", None, check, 0, 0, corpus=[gen.big(70), gen.big(300), gen.big(1100)], shards=(2, 3)),
    Sub("long", None, check_long, 0, 0, corpus=[50, 1050], shards=(0,)),
    Sub("random", cases(), check, 300, 10000),
    Sub("chains", chains(), check, 300, 10000),
    Sub("crowds", crowds(), check, 100, 3000),
    Sub("single", gen.universes(), check_empty, 40, 400),
]
