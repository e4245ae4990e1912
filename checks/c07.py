"""C07: joining samples gives their union or is refused without side effects"""
import copy

from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_eq, expect_raises
from harness.sut import SampleSetBuilder, build, fresh, model_of, provider

ID = "C07"
RULE = "at least two samples were joined, or a join was refused after at least one was accepted"


@st.composite
def histories(draw):
    u = draw(gen.universes(min_vars=2, max_vars=6, max_rels=2, wide_vars=5, wide_vals=3))
    base = {v: draw(st.sampled_from(vals)) for v, vals in u[0]}
    pool = []
    for _ in range(draw(st.integers(2, 7))):
        nodes, edges = draw(gen.samples(u, 1, 9, directed=draw(st.sampled_from([False, False, True]))))
        if draw(st.integers(0, 3)):  # mostly agreeing values
            nodes = tuple((v, base[v]) for v, _ in nodes)
        if draw(st.integers(0, 3)):  # mostly agreeing relations
            edges = tuple((i, j, 0, u[1][0]) for i, j, _, _ in edges)
        pool.append((nodes, edges))
    if draw(st.booleans()):
        pool.append(draw(gen.related(u, pool[0])))
    if draw(st.integers(0, 3)) == 0:  # a sample that itself has two values of a variable never fits
        pool.insert(draw(st.integers(1, len(pool))), draw(gen.multi_samples(u, 5)))
        if draw(st.booleans()):
            pool = pool[-2:]
    return u, tuple(pool), draw(st.integers(0, 2))


def rel_conflict(es, m):
    return any(ep in es and es[ep] != k for ep, k in m[1])


def check_history(case, ctx):
    u, pool, first = case
    p = provider(u)
    if first == 1 and ref.consistent([gen.model(pool[0])]):  # a builder taken from a finished sample
        s0 = build(fresh(p), pool[0], 1)
        b = s0.builder()
        cur = gen.model(pool[0])
        rest = pool[1:]
    else:
        b, cur, rest = fresh(p), ref.EMPTY, pool
    acc = ref_n = 0
    for s in rest:
        m = gen.model(s)
        real = build(fresh(p), s, len(s[1]))
        es = dict(cur[1])
        expect_eq(bool(b.can_sample_be_joined(real)), not rel_conflict(es, m), f"conflict of {real} with {cur}")
        ok = (not cur[0] or bool(cur[0] & m[0])) and ref.consistent([cur, m]) and not rel_conflict(es, m)
        if ok:
            before = copy.copy(b)
            r = b.join_sample(real)
            expect(r is b, "joining should return the builder")
            if cur[0]:
                expect_eq(model_of(before.build()), cur, "copied builder after joining into the original")
            cur = ref.union([cur, m])
            acc += 1
        else:
            expect_raises(lambda: b.join_sample(real), f"joining {real} into {cur}")
            ref_n += 1
            ctx.tag("refused: " + ("relation" if rel_conflict(es, m) else "value" if not ref.consistent([cur, m])
                                   else "disjoint"))
        if cur[0]:
            expect_eq(model_of(b.build()), cur, "builder after " + ("joining" if ok else "a refused join"))
        expect_eq(model_of(real), m, "joined sample afterwards")
        expect_eq(bool(b.can_sample_be_joined(real)), not rel_conflict(dict(cur[1]), m), "conflict afterwards")
    if cur[0]:
        expect_raises(lambda: b.join_sample(fresh(p).build_empty()), "joining an empty sample, which shares no value")
    foreign = build(fresh(provider(u)), pool[-1])
    expect_raises(lambda: b.join_sample(foreign), "joining a sample of a foreign declaration")
    expect_raises(lambda: b.can_sample_be_joined(foreign), "asking about a sample of a foreign declaration")
    if cur[0]:
        expect_eq(model_of(b.build()), cur, "builder after refusing a foreign sample")
    # the builder goes on working by the same rules afterwards
    if cur[0]:
        n0 = sorted(cur[0], key=repr)[0]
        for v, vals in u[0]:
            if v != n0[0]:
                ends = frozenset((n0, (v, vals[-1])))
                if ends in dict(cur[1]):
                    expect_raises(lambda: b.add_relation(set(ends), u[1][0]), "second relation after joining")
                else:
                    b.add_relation(set(ends), u[1][0])
                    cur = (cur[0] | ends, cur[1] | {(ends, ('U', u[1][0]))})
                expect_eq(model_of(b.build()), cur, "relation added after joining")
                break
    ctx.nontrivial = acc >= 2 or (acc >= 1 and ref_n >= 1)
    ctx.tag(f"accepted={min(acc, 5)}")


@st.composite
def collections(draw):
    u = draw(gen.universes(min_vars=2, max_vars=5, max_rels=2))
    base = {v: draw(st.sampled_from(vals)) for v, vals in u[0]}
    hub = draw(st.sampled_from([v for v, _ in u[0]]))
    mode = draw(st.sampled_from(["agree", "agree", "agree", "values", "relations"]))
    out = []
    for _ in range(draw(st.integers(1, 5))):
        others = [v for v, _ in u[0] if v != hub]
        mask = draw(st.integers(0, 2 ** len(others) - 1))
        names = [hub] + [v for i, v in enumerate(others) if mask >> i & 1]
        names = draw(st.permutations(names))
        nodes, edges = draw(gen.samples(u, len(names), len(names), names=list(names), directed=False))
        nodes = tuple((v, base[v] if mode != "values" or v == hub or draw(st.integers(0, 2)) else x) for v, x in nodes)
        if mode != "relations":
            edges = tuple((i, j, 0, rel_for(u, nodes[i][0], nodes[j][0])) for i, j, _, _ in edges)
        out.append(((nodes, edges), draw(gen.SMALL_COUNTS)))
    return u, tuple(out), draw(st.booleans())


def rel_for(u, a, b):
    """One fixed relation per pair of variables, so that samples do not conflict"""
    names = [v for v, _ in u[0]]
    return u[1][(names.index(a) + names.index(b)) % len(u[1])]


def check_collection(case, ctx):
    u, out, far = case
    p = provider(u)
    ms = gen.net_model(out)
    for order in (out, tuple(reversed(out))):
        b = SampleSetBuilder(p)
        for k, (s, c) in enumerate(order):
            b.add(build(fresh(p), s, k), c)
        ss = b.build()
        ok = ref.consistent(list(ms))
        expect_eq(bool(ss.is_all_values_match()), ok, "collection reported consistent")
        expect_eq(bool(ss.can_join_samples()), ok, "collection reported joinable")
        es, conflict = {}, False
        for m in ms:
            for ep, k in m[1]:
                conflict |= es.setdefault(ep, k) != k
        if ok and not conflict:
            s, counts = ss.make_joined_sample()
            expect_eq(model_of(s), ref.union(list(ms)), "joined collection")
            expect_eq(sorted(counts), sorted(ms.values()), "counts of the joined collection")
        else:
            expect_raises(ss.make_joined_sample, "joining a conflicting collection")
        expect_eq({model_of(s): c for s, c in ss.items()}, ms, "collection after joining")
    expect(SampleSetBuilder(p).empty().is_all_values_match(), "empty collection should be consistent")
    ctx.nontrivial = len(ms) >= 2
    ctx.tag("consistent" if ref.consistent(list(ms)) else "inconsistent")


@st.composite
def loose(draw):
    """Small collections of any samples, and larger ones in which at most a few values differ"""
    if draw(st.booleans()):
        return draw(gen.uni_and_net(max_vars=5, max_out=4, max_vals=2, min_vars=2))
    u, net = draw(gen.uni_and_net(max_vars=8, max_out=12, max_vals=2, min_vars=2, max_nodes=3))
    odd = draw(st.integers(-3, 40))
    out, k = [], 0
    for (nodes, edges), c in net:
        flat = []
        for v, x in nodes:
            flat.append((v, x if k == odd else dict(u[0])[v][0]))
            k += 1
        out.append(((tuple(flat), edges), c))
    seen = {}
    for s, c in out:
        seen.setdefault(gen.model(s), (s, c))
    return u, tuple(seen.values())


def check_any_collection(case, ctx):
    """Consistency of arbitrary collections (not sharing a value)"""
    u, net = case
    p = provider(u)
    b = SampleSetBuilder(p)
    for k, (s, c) in enumerate(net):
        b.add(build(fresh(p), s, k), c)
    ms = gen.net_model(net)
    ss = b.build()
    ok = ref.consistent(list(ms))
    expect_eq(bool(ss.is_all_values_match()), ok, "collection reported consistent")
    expect_eq(bool(ss.can_join_samples()), ok, "collection reported joinable")
    ctx.nontrivial = len(ms) >= 2
    ctx.tag("consistent" if ok else "inconsistent")


def spread(n, k):
    """n small samples sharing the value of one variable, in an unsorted order, with different counts"""
    out = []
    for j in range(1, n + 1):
        i = j * 11 % 43 + 1
        nodes = (("v0", 0), (f"v{i}", i % 3)) + (((f"v{(i + 1) % 44}", (i + 1) % 44 % 3),) if k and i < 43 else ())
        edges = ((0, 1, 0, "rs"[i % 2]),) + (((0, 2, 0, "rs"[(i + 1) % 2]),) if len(nodes) > 2 else ())
        out.append(((nodes, edges), j if n < 40 else 1 + j % 5))
    return gen.WIDE, tuple(out), False


def grown(n, k):
    """Overlapping parts of one wide sample, one after another, and a few which do not fit"""
    nodes, edges = gen.wide(n, "chain", k)
    pool = []
    for a in range(0, n - 5, 4):
        part = nodes[a:a + 6]
        pool.append((part, tuple((i - a, j - a, d, r) for i, j, d, r in edges if a <= i and j < a + 6)))
    i, j, d, r = pool[1][1][0]
    pool.insert(4, (pool[1][0], ((i, j, d, "r" if r == "s" else "s"),) + pool[1][1][1:]))  # another relation
    pool.append((((nodes[0][0], (nodes[0][1] + 1) % 3), nodes[-6]), ((0, 1, 0, "r"),)))  # another value
    return gen.WIDE, tuple(pool), k


SUBS = [
    Sub("large steps", None, check_history, 0, 0, corpus=[grown(30, 0), grown(44, 1), grown(43, 2)], shards=(1,)),
    Sub("large collection", None, check_collection, 0, 0, corpus=[spread(12, False), spread(30, True), spread(42, False)],
        shards=(2, 3)),
    Sub("steps", histories(), check_history, 500, 15000),
    Sub("collection", collections(), check_collection, 250, 6000),
    Sub("consistency", loose(), check_any_collection, 200, 4000),
]
