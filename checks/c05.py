"""C05: neighbourhood searches return exactly the reachable values and leading relations"""
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_eq, expect_raises
from harness.sut import ValueNode, build, edge_of, fresh, model_of, node_of, provider, rel_obj

ID = "C05"
RULE = "the search finds at least one value and the sample has at least three values"


@st.composite
def cases(draw):
    u = draw(gen.universes(min_vars=2, max_vars=7, wide_vars=6, wide_vals=3))
    s = draw(st.one_of(gen.samples(u, 2, 12), gen.samples(u, 3, 13, extra=False), gen.multi_samples(u, 12)))
    start = tuple(draw(st.lists(st.integers(0, 12), min_size=1, max_size=4)))
    flt = draw(st.sampled_from(["none", "empty", "some", "some", "some", "all", "foreign"]))
    pick = draw(st.integers(0, 2 ** 10 - 1))
    foreign = draw(st.booleans())
    return u, s, start, flt, pick, foreign


def filter_of(m, flt, pick):
    keys = sorted({e[1] for e in m[1]}, key=repr)
    if flt in ("none", "empty"):
        return None if flt == "none" else set()
    if flt == "all":
        return set(keys)
    if flt == "foreign":
        return {('U', "no such relation")}
    some = {k for i, k in enumerate(keys) if pick >> i & 1}
    return some or None


def found(res):
    return {node_of(n): {edge_of(e) for e in es} for n, es in res.items()}


def spoil(res):
    """The caller does what it likes with an answer that it got"""
    for es in res.values():
        if hasattr(es, "clear"):
            es.clear()
    if hasattr(res, "clear"):
        res.clear()


def check(case, ctx):
    u, s, start, flt, pick, foreign = case
    p = provider(u)
    sample = build(fresh(p), s, pick)
    m = gen.model(s)
    keys = filter_of(m, flt, pick)
    real = None if keys is None else {rel_obj(k) for k in keys}
    before = None if real is None else set(real)
    nodes = s[0]
    begin = {nodes[i % len(nodes)] for i in start}
    if foreign:  # a start value that does not occur in the sample
        out = [(v, x) for v, vals in u[0] for x in vals if (v, x) not in nodes]
        begin |= set(out[:1])
    node = ValueNode if pick % 3 == 0 else p.get_node  # equal values, not necessarily the objects of this sample
    begin_real = {node(*n) for n in begin}
    begin_copy = set(begin_real)

    want = ref.belt(m, begin, keys)
    expect_eq(found(sample.belt_nodes(begin_real, real)), want, "one step neighbourhood")
    ext = ref.external(m, begin, keys)
    res = sample.external_nodes(begin_real, real)
    expect_eq(found(res), ext, "outward search")
    expect_eq(begin_real, begin_copy, "start set after the search")
    expect_eq(real, before, "filter after the search")
    if keys is None:
        expect_eq(found(sample.external_nodes(begin_real)), ext, "outward search without filter")
        expect_eq(found(sample.belt_nodes(begin_real)), want, "one step neighbourhood without filter")
    for _ in range(2):
        spoil(sample.belt_nodes(begin_real, real))
        spoil(sample.external_nodes(begin_real, real))
        expect_eq(found(sample.belt_nodes(begin_real, real)), want, "one step neighbourhood after an answer was changed")
        expect_eq(found(sample.external_nodes(begin_real, real)), ext, "outward search after an answer was changed")
    again = sample.external_nodes(frozenset(begin_real), None if real is None else frozenset(real))
    expect_eq(found(again), ext, "second outward search")
    mine, my_filter = set(begin_real), set(real or ())  # the same containers with other content
    expect_eq(found(sample.belt_nodes(mine, my_filter)), want, "one step neighbourhood (own containers)")
    expect_eq(found(sample.external_nodes(mine, my_filter)), ext, "outward search (own containers)")
    other_keys = filter_of(m, "some", pick >> 3) or set()
    my_filter.clear()
    my_filter.update(rel_obj(k) for k in other_keys)
    expect_eq(found(sample.belt_nodes(mine, my_filter)), ref.belt(m, begin, other_keys or None),
              "one step neighbourhood after the filter changed")
    expect_eq(found(sample.external_nodes(mine, my_filter)), ref.external(m, begin, other_keys or None),
              "outward search after the filter changed")
    begin2 = {nodes[(i + pick) % len(nodes)] for i in start}
    mine.clear()
    mine.update(node(*n) for n in begin2)
    expect_eq(found(sample.belt_nodes(mine, my_filter)), ref.belt(m, begin2, other_keys or None),
              "one step neighbourhood after the start changed")
    expect_eq(found(sample.external_nodes(mine, my_filter)), ref.external(m, begin2, other_keys or None),
              "outward search after the start changed")
    for v, val in nodes:
        n = node(v, val)
        sample.neighboring_values(n, real).clear()
        got = {node_of(k): edge_of(e) for k, e in sample.neighboring_values(n, real).items()}
        want1 = {}
        for e in m[1]:
            if (v, val) in e[0] and ref.allowed(e, keys):
                want1[next(x for x in e[0] if x != (v, val))] = e
        expect_eq(got, want1, f"neighbours of {(v, val)!r}")
        if keys is None:
            got = {node_of(k): edge_of(e) for k, e in sample.neighboring_values(n).items()}
            expect_eq(got, want1, f"neighbours of {(v, val)!r} without filter")
    expect_raises(lambda: sample.belt_nodes(set(), real), "one step neighbourhood of nothing")
    expect_eq(model_of(sample), m, "sample after the searches")
    expect_eq(real, before, "filter after the searches")
    ctx.nontrivial = bool(ext) and len(nodes) >= 3
    depth = max(ref.layers(m, begin, keys).values(), default=0)
    ctx.tag(f"filter={flt}", f"depth={min(depth, 5)}")


def check_deep(case, ctx):
    n, shape, at = case
    u = (tuple((i, ("T",)) for i in range(n)), ("r", "s"))
    par = {"chain": lambda i: i - 1, "tree": lambda i: (i - 1) // 2, "star": lambda i: 0,
           "comb": lambda i: i - 1 if i % 2 else max(i - 2, 0)}[shape]
    rel = lambda i: "s" if at and i == n // 2 else "r"  # noqa: E731
    p = provider(u)
    sample = fresh(p).build_from_edges(frozenset(
        (frozenset(((par(i), "T"), (i, "T"))), rel(i)) for i in range(1, n)))
    m = (frozenset((i, "T") for i in range(n)),
         frozenset((frozenset(((par(i), "T"), (i, "T"))), ('U', rel(i))) for i in range(1, n)))
    begin = {(0, "T")} if at != 2 else {(n - 1, "T")}
    flt = {('U', "r")} if at else None
    got = found(sample.external_nodes({p.get_node(*x) for x in begin}, {"r"} if at else None))
    expect(got == ref.external(m, begin, flt), "outward search of a deep sample differs")
    ctx.nontrivial = True
    ctx.tag(shape)


LARGE = [(gen.WIDE, gen.wide(n, shape, k), start, flt, 341, foreign) for n, shape, k, start, flt, foreign in (
    (18, "chain", 0, (3,), "none", False), (40, "tree", 1, (0,), "all", True), (40, "chain", 2, (2, 30), "some", False),
    (36, "star", 0, (5,), "none", False), (36, "star", 1, tuple(range(0, 30, 2)), "some", True),
    (44, "tree", 0, tuple(range(1, 30)), "none", False))]

SUBS = [
    Sub("large", None, check, 0, 0, corpus=LARGE, shards=(2, 3)),
    Sub("search", cases(), check, 500, 15000),
    Sub("deep", st.tuples(st.integers(20, 120), st.sampled_from(["chain", "tree", "star", "comb"]), st.integers(0, 2)),
        check_deep, 6, 60, corpus=[(1300, "chain", 0)], shards=(0, 1)),
]
