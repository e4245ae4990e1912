"""C11: the joined distribution is the product of the factors (natural join with multiplied counts)"""
import random

from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_eq
from harness.sut import build, expect_net, fresh, graph_builder_on, net_of, network, provider

ID = "C11"
RULE = "at least two factors sharing a variable, at least one outcome in some factor being dropped or combined twice"


def spec(*pairs):
    """((a, 'T'), (b, 'F')) -> sample with a chain of relations"""
    return tuple(pairs), tuple((i, i + 1, 0, "r") for i in range(len(pairs) - 1))


def rows(*texts, count=1):
    """'a0b1' -> outcome; 'a0b1*3' gives the count"""
    out = []
    for t in texts:
        t, _, c = t.partition("*")
        out.append((spec(*[(t[i], int(t[i + 1])) for i in range(0, len(t), 2)]), int(c or count)))
    return out


def uni(names, k=2):
    return tuple((n, tuple(range(k))) for n in names), ("r",)


CORPUS = [
    (uni("abc"), tuple(rows("a0b0", "a1b1", "b0c0", "b1c1", "c0a0", "c0a1", "c1a0")), 0),
    (uni("abcd"), tuple(rows(*[f"{x}{i}{y}{j}*{1 + i + 2 * j}" for x, y in ("ab", "ac", "ad", "bc", "bd", "cd")
                              for i in (0, 1) for j in (0, 1)])), 1),
    (uni("abcd"), tuple(rows("a0b0*2", "a1b1*3", "b0c1*5", "b1c0*7", "c0d0*11", "c1d1*13", "d0a0", "d1a1", "d0a1*4")), 2),
    # three tosses of one coin
    ((tuple((n, ("h", "t")) for n in ("1", "2", "3")), ("r",)),
     tuple(((((x, v), (y, v)), ((0, 1, 0, "r"),)), c) for (x, y), v, c in
           [(("1", "2"), "h", 1), (("1", "2"), "t", 1), (("2", "3"), "h", 2), (("2", "3"), "t", 1),
            (("1", "3"), "h", 3), (("1", "3"), "t", 1)]), 0),
    (uni("ab"), tuple(rows("a0*2", "a1*3", "b0*5", "b1*7", "a0b0*11", "a0b1*13", "a1b1*17", "a1b0*19")), 3),
    (uni("abc"), tuple(rows("a0b0c0*2", "a1b1c1*3", "a0*5", "a1*2", "a0c0", "a1c1", "a1c0")), 1),
    (uni("abc"), tuple(rows("a0b0", "a1b1", "b0c0", "b1c1", "c0a1", "c1a0")), 1),  # inconsistent: nothing is left
]


def in_scope(want):
    fs = ref.factors(want)
    return ref.is_factorized(want) and ref.factors_linked(fs) and ref.values_agree(fs)


def check(case, ctx):
    u, net, salt = case
    m = gen.net_model(net)
    if not in_scope(m):
        ctx.tag("out of scope")
        return
    fs = ref.factors(m)
    want = ref.natural_join(fs)
    rnd = random.Random(salt)
    p = provider(u)
    for k in range(3):
        order = list(net)
        if k:
            rnd.shuffle(order)
        q = p if k < 2 else provider(_relabelled(u, rnd))
        b = graph_builder_on(q, f"net {k}")
        for i, (s, c) in enumerate(order):
            b.add_outcome(build(fresh(q).set_name(f"o{rnd.randrange(99)}" if k == 1 else None), s, i + k), c)
        g = b.build()
        j = g.make_joined("joined" if k == 0 else None)
        expect_net(net_of(j), want, f"joined distribution (order {k})")
        expect_eq(j.name, "joined" if k == 0 else f"net {k}", "name of the joined network")
        expect_eq(net_of(g), m, "original network after joining")
        if want:
            expect(j.is_joined(), "joined network should be reported joined")
            again = j.make_joined()
            expect_net(net_of(again), want, "joining a joined network")
            total = sum(want.values())
            for o, pr in j.outcomes.probabilities():
                expect(abs(pr - j.outcomes.count_of(o) / total) < 1e-12, "probability of a joined outcome", o, pr)
        else:
            expect(not j.outcomes, "inconsistent network should give nothing")
    for other in gen.siblings(u, net):  # other networks of the same declaration
        mo = gen.net_model(other)
        if in_scope(mo):
            expect_net(net_of(network(u, other, p=p, naming=True)[1].make_joined()), ref.natural_join(ref.factors(mo)),
                       "joined distribution of another network")
    shared = len(fs) > 1
    n_out = sum(len(f) for f in fs)
    ctx.nontrivial = shared and n_out > len(fs)
    vs = {v for s in m for v in ref.variables(s)}
    pairs = {p for s in m for p in ref.linked_pairs(s)}
    ctx.tag(f"factors={min(len(fs), 6)}", "cyclic" if len(pairs) >= len(vs) > 2 else "acyclic",
            "empty result" if not want else "result")


def _relabelled(u, rnd):
    """The same declaration with another order of variables and values"""
    vs = [(v, tuple(rnd.sample(list(x), len(x)))) for v, x in u[0]]
    rnd.shuffle(vs)
    return tuple(vs), u[1]


def check_large(case, ctx):
    """One factor with many outcomes, or a long chain of small factors"""
    kind, n = case
    if kind == "wide":
        u = ((("a", tuple(range(n))), ("b", (0, 1))), ("r",))
        net = [(spec(("a", i), ("b", i % 2)), 1 + i % 3) for i in range(n)]
        net += [(spec(("a", i)), 2) for i in range(n)]
        want = {gen.model(s): 2 * c for s, c in net[:n]}
    elif kind == "star":  # more factors around one variable than Python allows nested calls
        u = (((2193, (0, 1)),) + tuple((i, (0,)) for i in range(n)), ("r",))
        net = [(spec((2193, c), (i, 0)), 1 + (i + c) % 3) for i in range(n) for c in (0, 1)]
        want = {}
        for c in (0, 1):
            count = 1
            for i in range(n):
                count *= 1 + (i + c) % 3
            s = ((2193, c),) + tuple((i, 0) for i in range(n)), tuple((0, i + 1, 0, "r") for i in range(n))
            want[gen.model(s)] = count
    else:
        u = (tuple((i, (0, 1)) for i in range(n)), ("r",))
        net = [(spec((i, x), (i + 1, x)), 1 + x) for i in range(n - 1) for x in (0, 1)]
        want = ref.natural_join(ref.factors(gen.net_model(net)))
    _, g = network(u, net, naming=True)
    expect_net(net_of(g.make_joined()), want, f"joined distribution ({kind} {n})")
    ctx.nontrivial = True
    ctx.tag(kind)


@st.composite
def random_cases(draw):
    u, net = draw(st.one_of(
        gen.factor_nets(),
        gen.factor_nets(max_vars=3, max_vals=3, max_factors=5),
        gen.factor_nets(max_vars=5, max_factors=8, max_factor_vars=2),
        gen.factor_nets(max_vars=4, max_factors=9, max_factor_vars=2, full=True, counts=gen.SMALL_COUNTS),
    ))
    return u, net, draw(st.integers(0, 1000))


@st.composite
def twins(draw):
    """Two factors over the same variables (four or more) with entirely different links, perhaps single ones besides"""
    u = draw(gen.universes(min_vars=4, max_vars=5, max_vals=2, max_rels=2))
    names = [v for v, _ in u[0]]
    used = {v: vals for v, vals in u[0]}
    k = len(names)
    order = draw(st.permutations(range(k)))
    first = [(order[i], order[i + 1]) for i in range(k - 1)]
    free = [(i, j) for j in range(k) for i in range(j) if (i, j) not in first and (j, i) not in first]
    seen, second = {order[0]}, []
    while len(seen) < k:  # a tree over the links that are left, if there is one
        cand = [(i, j) for i, j in free if (i in seen) != (j in seen)]
        if not cand:
            break
        e = draw(st.sampled_from(cand))
        second.append(e)
        seen |= set(e)
    extra = [e for e in free if e not in second]
    if extra and draw(st.booleans()):
        second.append(draw(st.sampled_from(extra)))
    out = []
    for links in (first, second):
        nodes = sorted({x for e in links for x in e})
        rel = [draw(st.sampled_from(u[1])) for _ in links]
        rows_ = [tuple(draw(st.sampled_from(used[names[x]])) for x in nodes) for _ in range(draw(st.integers(1, 4)))]
        rows_ += [tuple(used[names[x]][-1 - t % len(used[names[x]])] for x in nodes) for t in (0, 1)]
        for r in dict.fromkeys(rows_):
            out.append(((tuple((names[x], v) for x, v in zip(nodes, r)),
                         tuple((nodes.index(a), nodes.index(b), 0, q) for (a, b), q in zip(links, rel))),
                        draw(gen.SMALL_COUNTS)))
    for v in names:
        if draw(st.integers(0, 3)) == 0:
            out += [((((v, x),), ()), draw(gen.SMALL_COUNTS)) for x in used[v]]
    return u, tuple(out), draw(st.integers(0, 1000))


SUBS = [
    Sub("twins", twins(), check, 40, 1000),
    Sub("product", random_cases(), check, 250, 5000, corpus=CORPUS),
    Sub("large", st.tuples(st.sampled_from(["wide", "long"]), st.integers(3, 25)), check_large, 4, 40,
        corpus=[("wide", 1100), ("long", 60)], shards=(0, 1)),
    Sub("star", None, check_large, 0, 0, corpus=[("star", 1010)], shards=(2,)),
]
