"""C10: conditioning selects exactly the compatible outcomes with their counts"""
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_eq, expect_raises
from harness.sut import build, fresh, model_of, net_of, network, provider

ID = "C10"
RULE = "the evidence drops at least one outcome and keeps at least one"


@st.composite
def cases(draw):
    u, net = draw(gen.uni_and_net(max_vars=5, max_out=10, min_vars=2, wide_vars=4, wide_vals=4, many=25))
    evs = []
    for _ in range(draw(st.integers(1, 3))):
        what = draw(st.integers(0, 9))
        s, _ = draw(st.sampled_from(net))
        if what == 0:
            evs.append(((), ()))
        elif what <= 3:
            i = draw(st.integers(0, len(s[0]) - 1))
            evs.append(((s[0][i],), ()))
        elif what <= 6:
            evs.append(draw(gen.related(u, s)))
        else:
            evs.append(draw(gen.samples(u, 1, 3)))
    if draw(st.integers(0, 4)) == 0:  # the empty outcome
        net = net + ((((), ()), draw(gen.SMALL_COUNTS)),)
    return u, net, tuple(evs), draw(st.booleans())


def check(case, ctx):
    u, net, evs, joined = case
    p = provider(u)
    b, g = network(u, net, p=p, name="the net", naming=True)
    full = want = gen.net_model(net)
    cur = g
    ctx.nontrivial = False
    for k, ev in enumerate(evs):
        m = gen.model(ev)
        e = build(fresh(p).set_name((f"evidence {k}" if k % 2 else None, "evidence", None)[len(net) % 3]), ev, k)
        nxt = ref.condition(want, m)
        name = f"given {k}" if k % 2 else None
        c = cur.conditional_graph(e, name)
        expect_eq(net_of(c), nxt, f"outcomes conditioned on {e}")
        expect_eq(c.outcomes.length, sum(nxt.values()), "number of conditioned outcomes")
        expect(c.evidence == e and model_of(c.evidence) == m, "remembered evidence", c.evidence)
        expect_eq(c.name, name or f"conditional_of_{cur.name}", "name of the conditioned network")
        expect_eq(net_of(cur), want, "original network after conditioning")
        d = c.describe()
        expect_eq(d["query"], e.text_view(), "described evidence")
        expect_eq(d["number_outcomes"], sum(nxt.values()), "described number of outcomes")
        expect_eq(d["included_variables"], {str(v) for s in nxt for v in ref.variables(s)}, "described variables")
        again = c.relation_graph().conditional_graph(e)
        expect_eq(net_of(again), nxt, "conditioning again on the same evidence")
        expect_eq(model_of(e), m, "evidence after conditioning")
        if full and 0 < len(nxt) < len(want):
            ctx.nontrivial = True
        ctx.tag("all dropped" if not nxt else "all kept" if nxt == want else "some dropped",
                "empty evidence" if not m[0] else "single" if not m[1] else "with relations")
        cur, want = c.relation_graph(f"step {k}"), nxt
        expect_eq(net_of(cur), nxt, "conditioned network as a network")
        expect_eq(cur.name, f"step {k}", "name given on conversion")
        # each evidence by itself, on the same network object, whatever was asked before
        expect_eq(net_of(g.conditional_graph(e)), ref.condition(full, m), f"network conditioned on {e} alone")
    for other in gen.siblings(u, net) if len(net) <= 12 else ():  # other networks of the same declaration
        mo = gen.net_model(other)
        g2 = network(u, other, p=p, name="the net", naming=True)[1]
        for ev in evs:
            expect_eq(net_of(g2.conditional_graph(build(fresh(p), ev))), ref.condition(mo, gen.model(ev)),
                      "another network conditioned")
    # order does not matter
    cur = g
    for k, ev in reversed(list(enumerate(evs))):
        cur = cur.conditional_graph(build(fresh(p), ev, k + 1)).relation_graph()
    expect_eq(net_of(cur), want, "conditioning in the reverse order")
    expect_eq(net_of(g), full, "original network after all")
    foreign = build(fresh(provider(u)), evs[0])
    expect_raises(lambda: g.conditional_graph(foreign), "evidence of a foreign declaration")


def large(n):
    u, net = gen.big(n)
    s = net[n - 2 if n % 4 == 1 else n - 1][0]
    return [(u, net, ((((("b", 1),), ()),)), False), (u, net, ((((("a", n - 1),), ()),)), False),
            (u, net, (((("c", "T"),), ()), (s[0][:2], s[1][:1])), True)]


SUBS = [Sub("large", None, check, 0, 0, corpus=large(70) + large(300) + large(1100)[:2], shards=(2, 3)), Sub("condition", cases(), check, 400, 12000)]
