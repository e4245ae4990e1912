"""C15: splitting into factors and the joined/factorised tests agree with each other"""
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_eq, expect_raises
from harness.sut import build, fresh, net_of, network, provider, set_model

ID = "C15"
RULE = "a network of at least two outcomes with relations"


@st.composite
def cases(draw):
    kind = draw(st.integers(0, 4))
    if kind == 0:
        u, net = draw(gen.factor_nets(max_vars=5, max_factors=6))
    elif kind == 1:
        u, net = draw(gen.uni_and_net(max_vars=4, max_out=6, max_nodes=3, wide_vars=5, many=20))
    elif kind == 2:  # several outcomes over the same variables, perhaps one over fewer
        u = draw(gen.universes(min_vars=2, max_vars=4, wide_vars=4))
        n = len(u[0])
        net = draw(gen.networks(u, 2, 5, n, min_nodes=n, extra=draw(st.booleans())))
        if draw(st.integers(0, 2)) == 0:
            net = net + ((draw(gen.samples(u, 1, n)), draw(gen.SMALL_COUNTS)),)
    else:  # a factorised network with one outcome changed or added
        u, net = draw(gen.factor_nets(max_vars=4, max_factors=4))
        s, c = draw(st.sampled_from(net))
        t = draw(st.one_of(gen.related(u, s), gen.samples(u, 1, 4)))
        net = net + ((t, draw(gen.SMALL_COUNTS)),)
    return u, tuple(draw(st.permutations(net))), draw(st.integers(0, 5)) == 0, draw(st.integers(0, 3))


def key(m):
    return frozenset(m.items())


def look(g, m):
    fact = ref.is_factorized(m)
    expect_eq(bool(g.is_factorized()), fact, "reported factorised")
    if fact:
        fs = g.factorized()
        got = [set_model(f) for f in fs]
        expect_eq({key(f) for f in got}, {key(f) for f in ref.factors(m)}, "factors")
        expect_eq(len(got), len(ref.factors(m)), "number of factors")
        for f in fs:
            expect_eq(f.length, sum(set_model(f).values()), "total of a factor")
            expect(f.is_compatible(g.outcomes), "a factor should belong to the same declaration")
    else:
        expect_raises(g.factorized, "splitting a network that is not factorised")
    joined = len({ref.variables(s) for s in m}) <= 1
    expect_eq(bool(g.is_joined()), joined, "reported joined")
    expect_eq(net_of(g), m, "network after asking")
    return fact, joined


def check(case, ctx):
    u, net, with_empty, at = case
    p = provider(u)
    b, g = network(u, net, p=p, naming=True)
    m = gen.net_model(net)
    if with_empty:
        b.add_outcome(b.sample_builder().build_empty(), 2)
        g = b.build()
        m[ref.EMPTY] = 2
    fact, joined = look(g, m)
    ev = (net[at % len(net)][0][0][:1], ())
    c = g.conditional_graph(build(fresh(p), ev))
    mc = ref.condition(m, gen.model(ev))
    look(c.relation_graph(), mc)
    if ref.is_factorized(mc):
        expect_eq({key(set_model(f)) for f in c.factorized()}, {key(f) for f in ref.factors(mc)},
                  "factors of the conditioned network")
    else:
        expect_raises(c.factorized, "splitting a conditioned network that is not factorised")
    v0 = ev[0][0][0]
    for x in dict(u[0])[v0]:  # other values of the same variable, perhaps leaving nothing
        e2 = (((v0, x),), ())
        look(g.conditional_graph(build(fresh(p), e2)).relation_graph(), ref.condition(m, gen.model(e2)))
    # every variable complete: a joined network
    only = ref.variables(next(iter(m)))
    same = [o for o in net if ref.variables(gen.model(o[0])) == only]
    if same:
        _, g2 = network(u, same)
        look(g2, gen.net_model(same))
    for other in gen.siblings(u, net):  # other networks of the same declaration
        look(network(u, other, p=p, naming=True)[1], gen.net_model(other))
    look(g, m)
    ctx.nontrivial = sum(bool(s[1]) for s in m) >= 2
    ctx.tag("factorised" if fact else "not factorised", "joined" if joined else "not joined")


def chain(n, last):
    """Many factors, the last one perhaps overlapping the first"""
    u = tuple((i, (0, 1)) for i in range(n)), ("r",)
    net = [((((i, x), (i + 1, x)), ((0, 1, 0, "r"),)), 1 + x) for i in range(n - 1) for x in (0, 1)]
    net += [((((n - 1, 0), (0, 0), (1, 1)), ((0, 1, 0, "r"), (1, 2, 0, "r"))), 1)] if last else []
    return u, tuple(net), False, 0


SUBS = [Sub("large", None, check, 0, 0, corpus=[(*gen.big(300), False, 1), chain(40, False), chain(40, True)], shards=(2, 3)),
        Sub("factors", cases(), check, 400, 12000)]
