"""C12: inference agrees with (independently computed) Bayesian and Markov network inference"""
from fractions import Fraction
from itertools import product

from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_close, expect_eq
from harness.sut import build, graph_builder, model_of

ID = "C12"
SCALE = 1
RULE = "a network of at least three tables, conditioned on at least one value with probability strictly between 0 and 1"


@st.composite
def bayes(draw):
    """cards, parents, counts per table row; every row of a table sums to the same number"""
    n = draw(st.sampled_from([2, 3, 4, 5, 5, 6]))
    cards = tuple(draw(st.sampled_from([2, 2, 2, 3] if n > 4 else [2, 2, 3, 4, 1])) for _ in range(n))
    parents, tables = [()], []
    for i in range(1, n):
        k = draw(st.sampled_from([1, 1, 2, 3]))
        ps = draw(st.lists(st.integers(0, i - 1), min_size=1, max_size=min(k, i), unique=True))
        parents.append(tuple(sorted(ps)))
    for i in range(n):
        t = []
        size = 1
        for q in parents[i]:
            size *= cards[q]
        total = draw(st.sampled_from([10, 20, 100]))
        for _ in range(size):
            cuts = sorted(draw(st.lists(st.integers(1, total - 1), min_size=cards[i] - 1, max_size=cards[i] - 1,
                                        unique=True)))
            cuts = [0] + cuts + [total]
            t.append(tuple(cuts[k + 1] - cuts[k] for k in range(cards[i])))
        tables.append(tuple(t))
    ev = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 2)), min_size=1, max_size=3,
                       unique_by=lambda x: x[0]))
    return cards, tuple(parents), tuple(tables), tuple(ev), draw(st.booleans()), draw(st.integers(0, 11))


@st.composite
def markov(draw):
    n = draw(st.sampled_from([2, 3, 4, 5, 5, 6]))
    cards = tuple(draw(st.sampled_from([2, 2, 2, 3] if n > 4 else [2, 2, 3, 4, 1])) for _ in range(n))
    pairs = [(draw(st.integers(0, i - 1)), i) for i in range(1, n)]
    others = [(i, j) for j in range(n) for i in range(j) if (i, j) not in pairs]
    if others:
        mask = draw(st.integers(0, 2 ** len(others) - 1))
        pairs += [e for b, e in enumerate(others) if mask >> b & 1]
    tables = [tuple(draw(st.integers(1, 9)) for _ in range(cards[a] * cards[b])) for a, b in pairs]
    singles = tuple((i, tuple(draw(st.integers(1, 9)) for _ in range(cards[i])))
                    for i in range(n) if draw(st.integers(0, 2)) == 0)
    ev = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 2)), min_size=1, max_size=3,
                       unique_by=lambda x: x[0]))
    return cards, tuple(pairs), tuple(tables), singles, tuple(ev), draw(st.booleans()), draw(st.integers(0, 11))


class Names:
    """What the variables and values are called"""

    def __init__(self, kind):
        self.kind = kind

    def name(self, i):
        if self.kind < 3:
            return ("ABCDEFGHIJKL"[i], i, ("v", i))[self.kind]
        return ("ABCDEFGHIJKL"[i], i, ("v", i), "ABCDEFGHIJKL"[i], ("1", 1, "a", "a_1", 11, "11", "b")[i], f"VAR_{i}")[self.kind]

    def val(self, i, x):
        if self.kind < 3:
            return (f"{self.name(i)}({x})", x, (i, x))[self.kind]
        return (f"{self.name(i)}({x})", x, (i, x), (False, True, "", "T")[x], (1, "1", "1_1", "")[x], "TFMN"[x])[self.kind]

    def index(self, i, v):
        return next(x for x in range(4 if self.kind > 2 else 12) if self.val(i, x) == v and type(self.val(i, x)) is type(v))

    def rel(self, a, b):
        return ("r", "r", "r", ("r", "s", "t")[(a + b) % 3], ("r", 1, "1")[(a + b) % 3], "r")[self.kind]


def run(cards, outcomes, weight, ev, directed, ctx, kind):
    """outcomes: ((indices, values, pairs), count); weight(assignment) -> unnormalised Fraction"""
    nm = Names(kind)
    name, val = nm.name, nm.val
    u = tuple((name(i), tuple(val(i, x) for x in range(c))) for i, c in enumerate(cards)), ("r", "s", "t", 1, "1")
    b = graph_builder(u)

    def compare(graph, joint, cards, what):
        same(graph, joint, cards, what, nm)

    for idx, vals, pairs, c in outcomes:
        sb = b.sample_builder()
        if not pairs:
            s = sb.build_single_node(name(idx[0]), val(idx[0], vals[0]))
        else:
            d = dict(zip(idx, vals))
            for a, e in pairs:
                x, y = (name(a), val(a, d[a])), (name(e), val(e, d[e]))
                if directed:
                    sb.add_directed_relation(x, y, nm.rel(a, e))
                else:
                    sb.add_relation({x, y}, nm.rel(a, e))
            s = sb.build()
        b.add_outcome(s, c)
    g = b.build()
    ev = [(i, x % cards[i]) for i, x in ev]
    joint = {a: weight(a) for a in product(*[range(c) for c in cards])}
    compare(g.make_joined(), joint, cards, "prior")
    # evidence before joining, in both orders; and after joining
    for order in (ev, list(reversed(ev))):
        cur, post = g, joint
        for i, x in order:
            cur = cur.conditional_graph(cur.sample_builder().build_single_node(name(i), val(i, x))).relation_graph()
            post = {a: w for a, w in post.items() if a[i] == x}
            compare(cur.make_joined(), post, cards, f"posterior given {order} up to {(i, x)} (before joining)")
    cur, post = g.make_joined(), joint
    for i, x in ev:
        c = cur.conditional_graph(cur.sample_builder().build_single_node(name(i), val(i, x)))
        post = {a: w for a, w in post.items() if a[i] == x}
        compare(c, post, cards, f"posterior given {ev} up to {(i, x)} (after joining)")
        cur = c.relation_graph()
    # mixed: first evidence before, the others after joining
    if len(ev) > 1:
        i, x = ev[0]
        cur = g.conditional_graph(g.sample_builder().build_single_node(name(i), val(i, x))).relation_graph().make_joined()
        for i, x in ev[1:]:
            cur = cur.conditional_graph(cur.sample_builder().build_single_node(name(i), val(i, x))).relation_graph()
        compare(cur, {a: w for a, w in joint.items() if all(a[i] == x for i, x in ev)}, cards, f"mixed posterior {ev}")
    ctx.tag(f"evidence={len(ev)}", f"variables={len(cards)}")
    return len(ev)


def same(graph, joint, cards, what, nm):
    name, val = nm.name, nm.val
    z = sum(joint.values())
    got = {}
    for s, p in graph.outcomes.probabilities():
        asg = dict(model_of(s)[0])
        expect_eq(set(asg), {name(i) for i in range(len(cards))}, f"{what}: variables of a joined outcome")
        key = tuple(nm.index(i, asg[name(i)]) for i in range(len(cards)))
        got[key] = got.get(key, 0.0) + p
    expect_eq(set(got), {a for a, w in joint.items() if w}, f"{what}: possible joint values")
    for a, p in got.items():
        expect_close(p, float(joint[a] / z), f"{what}: probability of {a}", 1e-9)
    marg = graph.marginal_variables_probability()
    expect_eq(set(marg), {name(i) for i in range(len(cards))}, f"{what}: variables with a marginal")
    for i in range(len(cards)):
        for x in range(cards[i]):
            w = sum((w for a, w in joint.items() if a[i] == x), Fraction(0)) / z
            g = marg[name(i)].get(val(i, x), 0.0)
            expect_close(g, float(w), f"{what}: marginal of {val(i, x)}", 1e-9)
        expect_close(sum(marg[name(i)].values()), 1.0, f"{what}: sum of the marginal of {name(i)}")


def check_bayes(case, ctx):
    cards, parents, tables, ev, directed, rot = case
    outcomes = []
    for i, ps in enumerate(parents):
        for k, pa in enumerate(product(*[range(cards[q]) for q in ps])):
            for x in range(cards[i]):
                outcomes.append((ps + (i,), pa + (x,), tuple((q, i) for q in ps), tables[i][k][x]))
    if rot % 2:
        outcomes.reverse()

    def weight(a):
        w = Fraction(1)
        for i, ps in enumerate(parents):
            k = 0
            for q in ps:
                k = k * cards[q] + a[q]
            w *= Fraction(tables[i][k][a[i]], sum(tables[i][k]))
        return w

    n = run(cards, outcomes, weight, ev, directed, ctx, rot // 2)
    ctx.nontrivial = len(cards) >= 3 and n >= 1


def check_markov(case, ctx):
    cards, pairs, tables, singles, ev, directed, rot = case
    outcomes = []
    for (a, b), t in zip(pairs, tables):
        for k, (x, y) in enumerate(product(range(cards[a]), range(cards[b]))):
            outcomes.append(((a, b), (x, y), ((a, b),), t[k]))
    for i, t in singles:
        for x in range(cards[i]):
            outcomes.append(((i,), (x,), (), t[x]))
    if rot % 2:
        outcomes.reverse()

    def weight(asg):
        w = Fraction(1)
        for (a, b), t in zip(pairs, tables):
            w *= t[asg[a] * cards[b] + asg[b]]
        for i, t in singles:
            w *= t[asg[i]]
        return w

    n = run(cards, outcomes, weight, ev, directed, ctx, rot // 2)
    ctx.nontrivial = len(pairs) + len(singles) >= 3 and n >= 1
    ctx.tag("cyclic" if len(pairs) >= len(cards) > 2 else "acyclic")


# the student network of the documentation: D, I -> G; I -> S; G -> L
STUDENT = ((2, 2, 3, 2, 2), ((), (), (0, 1), (1,), (2,)),
           (((6, 4),), ((7, 3),), ((30, 40, 30), (90, 8, 2), (5, 25, 70), (50, 30, 20)), ((95, 5), (20, 80)),
            ((10, 90), (40, 60), (99, 1))), ((2, 1), (0, 0)), True, 0)

def wide_bayes(cards, parents, ev, kind, base=7):
    """Some larger network with tables made up from a formula"""
    tables = []
    for i, ps in enumerate(parents):
        size = 1
        for q in ps:
            size *= cards[q]
        rows = []
        for k in range(size):
            row = [1 + (i * base + k * 5 + x * 3 + k * x) % 11 for x in range(cards[i])]
            row[0] += 12 * cards[i] - sum(row)
            rows.append(tuple(row))
        tables.append(tuple(rows))
    return tuple(cards), tuple(parents), tuple(tables), tuple(ev), True, kind * 2 + len(cards) % 2


def wide_markov(cards, pairs, singles, ev, kind):
    tables = tuple(tuple(1 + (a * 3 + b * 5 + k * 7 + k * k) % 9 for k in range(cards[a] * cards[b])) for a, b in pairs)
    ones = tuple((i, tuple(1 + (i + x * 4) % 7 for x in range(cards[i]))) for i in singles)
    return tuple(cards), tuple(pairs), tables, ones, tuple(ev), False, kind * 2 + len(cards) % 2


LARGE_BAYES = [
    wide_bayes([2] * 9, [()] + [(i - 1,) for i in range(1, 9)], [(8, 1), (4, 0)], 0),  # a chain
    wide_bayes([3] + [2] * 7, [()] + [(0,)] * 7, [(1, 1), (7, 0), (3, 1)], 1),  # one cause
    wide_bayes([2] * 6 + [2], [()] * 1 + [(0,)] * 5 + [(1, 2, 3, 4, 5)], [(6, 1)], 2),  # many causes
    wide_bayes([7, 8, 3], [(), (0,), (0, 1)], [(1, 7)], 0),  # many values
    wide_bayes([2] * 8, [(), (0,), (0,), (1, 2), (3,), (3,), (4, 5), (6, 0)], [(7, 1), (0, 1)], 1),
]
LARGE_MARKOV = [
    wide_markov([2] * 8, [(i, i + 1) for i in range(7) if i != 3] + [(i, i + 4) for i in range(4)], [0, 5], [(7, 1), (0, 0)], 0),
    wide_markov([2] * 5, [(i, j) for j in range(5) for i in range(j)], range(5), [(2, 1)], 1),
    wide_markov([6, 7, 2], [(0, 1), (1, 2), (0, 2)], [1], [(0, 5), (1, 6)], 2),
    wide_markov([2] * 9, [(0, i) for i in range(1, 9)] + [(7, 8)], [0], [(0, 1), (8, 1)], 0),
]

SUBS = [
    Sub("large bayes", None, check_bayes, 0, 0, corpus=LARGE_BAYES, shards=(2,)),
    Sub("large markov", None, check_markov, 0, 0, corpus=LARGE_MARKOV, shards=(3,)),
    Sub("bayes", bayes(), check_bayes, 80, 1500, corpus=[STUDENT]),
    Sub("markov", markov(), check_markov, 80, 1500),
]
_ = (gen, ref, build, expect)
