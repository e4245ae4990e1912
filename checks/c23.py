"""C23: containers, counters and sampling behave as their abstract data types (stateful / differential)"""
import random
from collections import Counter as Multiset
from fractions import Fraction

from hypothesis import strategies as st

from harness.core import Sub, expect, expect_close, expect_eq, expect_raises
from harness.pac import util

ID = "C23"
RULE = "a history with a pop (or update) while at least two items are held, or a counter or distribution of two entries"
ITEMS = ["a", "b", "c", "d", 1, 2, 3.5, ("a", 1), ("b", 0), (0, 0), (1, 2), "", None, True]

# ---- containers -----------------------------------------------------------------------------------------------------

ops = st.lists(st.tuples(st.sampled_from(["push", "push", "push", "pop", "pop", "update", "update", "drain", "empty", "many",
                                            "again"]),
                         st.integers(0, len(ITEMS) + 1), st.one_of(st.integers(-3, 4), st.integers(-100, 100))),
               min_size=1, max_size=40).map(tuple)
cases = st.tuples(st.sampled_from(["stack", "queue", "priority", "priority", "function"]), ops)


def item(k):
    return ITEMS[k] if k < len(ITEMS) else [k]  # the last ones cannot be hashed


def prio(x):
    return len(repr(x)) % 4 - 1


def check_container(case, ctx):
    kind, history = case
    q = {"stack": util.Stack, "queue": util.Queue, "priority": util.PriorityQueue,
         "function": lambda: util.PriorityQueueWithFunction(prio)}[kind]()
    held = []  # (priority, number, item)
    n = 0

    def take():
        if kind == "stack":
            return held.pop()[2]
        if kind == "queue":
            return held.pop(0)[2]
        k = min(range(len(held)), key=lambda j: held[j][:2])
        return held.pop(k)[2]

    def pop(what):
        if not held:
            expect_raises(q.pop, f"{kind}: {what} from an empty container")
            return
        want = take()
        got = q.pop()
        expect(got == want and type(got) is type(want), f"{kind}: {what}", got, want)

    for what, k, p in history:
        x = item(k)
        if what in ("push", "many", "again"):
            # many: a run of different items; again: the item put in last, put in once more
            run = [x] if what == "push" else [item((k + j) % (len(ITEMS) + 2)) for j in range(abs(p) % 30)] \
                if what == "many" else [max(held, key=lambda h: h[1])[2]] if held else []
            for y in run:
                if kind == "priority":
                    q.push(y, p)
                else:
                    q.push(y)
                held.append((p if kind == "priority" else prio(y) if kind == "function" else 0, n, y))
                n += 1
        elif what == "pop":
            ctx.nontrivial |= len(held) > 1
            pop("item taken out")
        elif what == "update" and kind in ("priority", "function"):
            same = [j for j, h in enumerate(held) if h[2] == x]
            if len(same) > 1 or (same and type(held[same[0]][2]) is not type(x)):
                continue  # which of several equal items is meant is not stated
            ctx.nontrivial |= len(held) > 1
            q.update(x, p)
            if not same:
                held.append((p, n, x))
                n += 1
            elif p < held[same[0]][0]:
                held[same[0]] = (p, held[same[0]][1], x)
        elif what == "drain" and p > 60:
            while held:
                pop("item taken out while draining")
        expect_eq(bool(q.isEmpty()), not held, f"{kind}: reported empty with {len(held)} items")
    while held:
        pop("item taken out at the end")
    expect(q.isEmpty(), f"{kind}: should be empty at the end")
    expect_raises(q.pop, f"{kind}: taking from an empty container")
    ctx.tag(kind)


# ---- counters -------------------------------------------------------------------------------------------------------

KEYS = ["a", "b", "c", "d", "e", "long key"]
nums = st.one_of(st.integers(-4, 9), st.sampled_from([0, 0.5, -0.25, 2.75, 100, 10 ** 6, 2.0 ** -30, 2.0 ** -22]))
entries = st.dictionaries(st.sampled_from(KEYS), nums, max_size=6)
cops = st.lists(st.tuples(st.sampled_from(["set", "inc", "incall", "add", "iadd", "radd", "sub", "div", "copy", "norm", "look",
                                           "dot"]), st.integers(0, 5), st.integers(0, 63), nums),
                min_size=0, max_size=10).map(tuple)


def counter(d):
    c = util.Counter()
    for k, v in d.items():
        c[k] = v
    return c


def near(got, want, what, size):
    """size: the largest number that took part in the calculation, to which rounding is relative"""
    slack = 1e-12 * float(size) + 1e-9 * abs(float(want))
    expect(abs(got - float(want)) <= slack, f"{what}: got {got!r}, expected {float(want)!r}")


def close(c, d, what, size):
    """The counter c holds the values d (missing keys count as zero)"""
    for k in KEYS:
        near(dict.get(c, k, 0), d.get(k, 0), f"{what}: value of {k!r}", size)
    expect(set(c.keys()) <= set(KEYS), f"{what}: unknown keys", c)


def queries(c, d, size):
    near(c.totalCount(), sum(d.values()), "total", size)
    vals = {k: dict.get(c, k, 0) for k in c}
    if not d:
        expect(c.argMax() is None, "best key of an empty counter")
    else:
        best = c.argMax()
        expect(best in d, "best key should be one of the keys", best)
        expect_eq(vals[best], max(vals.values()), f"value of the best key {best!r} of {vals}")
    keys = c.sortedKeys()
    expect_eq(sorted(keys), sorted(d), "sorted keys")
    for x, y in zip(keys, keys[1:]):
        expect(vals[x] >= vals[y], f"sorted keys {keys} of {vals}")
    c2 = c.copy()
    expect_eq(c2["not there"], 0, "missing key")
    c2["not there either"] += 3
    expect_eq(c2["not there either"], 3, "missing key incremented")
    expect("not there" not in c and "not there either" not in c, "keys of the original of a changed copy")
    expect(isinstance(c2, util.Counter), "copy should be a counter")


def check_counter(case, ctx):
    start, second, history = case
    d = {k: Fraction(v) for k, v in start.items()}
    e = {k: Fraction(v) for k, v in second.items()}
    c, o = counter(start), counter(second)
    big_e = max([1] + [abs(x) for x in e.values()])
    size = max([1] + [abs(x) for x in d.values()])
    close(c, d, "counter", size)
    exact = True  # so far all values are sums of halves and quarters
    for what, k, mask, v in history:
        key = KEYS[k]
        if what == "set":
            c[key] = v
            d[key] = Fraction(v)
        elif what == "inc":
            c[key] += v
            d[key] = d.get(key, 0) + Fraction(v)
        elif what == "incall":
            ks = [x for j, x in enumerate(KEYS) if mask >> j & 1]
            c.incrementAll(ks, v)
            for x in ks:
                d[x] = d.get(x, 0) + Fraction(v)
        elif what in ("add", "iadd", "radd", "sub"):
            before = dict(c)
            sgn = -1 if what == "sub" else 1
            if what == "add":
                r = c + o
            elif what == "sub":
                r = c - o
            elif what == "radd":  # adds to the counter itself
                r = c
                c.__radd__(o)
            else:
                r = c
                r += o
            if what not in ("iadd", "radd"):
                expect_eq(dict(c), before, f"first operand after {what}")
            expect_eq(dict(o), {k: second[k] for k in second}, f"second operand after {what}")
            expect(isinstance(r, util.Counter), f"result of {what} should be a counter")
            d = {x: d.get(x, 0) + sgn * e.get(x, 0) for x in list(d) + [y for y in e if y not in d]}
            expect_eq(set(r), set(d), f"keys after {what}")
            c = r
        elif what == "dot":
            want = sum(d[x] * e[x] for x in d if x in e)
            before = dict(c)
            near(c * o, want, "inner product", size * big_e)
            near(o * c, want, "inner product the other way round", size * big_e)
            expect_eq(dict(o), second, "second operand of the inner product")
            expect_eq(dict(c), before, "first operand of the inner product")
        elif what == "div" and v:
            c.divideAll(v)
            exact = False
            d = {x: y / Fraction(v) for x, y in d.items()}
            size /= abs(Fraction(v))
        elif what == "copy":
            old = c
            was = dict(old)
            c = c.copy()
            expect_eq(dict(c), was, "copy")
            if c:
                x = next(iter(c))
                old[x] = was[x] + 1
                expect_eq(c[x], was[x], "copy after its original was changed")
            old["d"] = 77
            expect_eq(dict(c), was, "copy after its original was changed")
        elif what == "norm":
            total = sum(d.values())
            if not exact and abs(total) <= size / 1000:
                return  # rounding decides the result
            exact = False
            n = util.normalize(c)
            expect(isinstance(n, util.Counter), "normalised form should be a counter")
            close(c, d, "counter after asking for its normalised form", size)
            c.normalize()
            if total != 0:
                d = {x: y / total for x, y in d.items()}
                size /= abs(total)
                near(c.totalCount(), 1, "total after normalising", size)
                close(n, d, "normalised form", size)
                ctx.tag("normalised")
        size = max([size, Fraction(abs(v))] + [abs(y) for y in d.values()])
        if size > 10 ** 9:
            return
        close(c, d, f"counter after {what}", size)
        expect_eq(set(c), set(d), f"keys after {what}")
        if what == "look":
            queries(c, d, size)
    queries(c, d, size)
    if len(d) > 1:  # the same keys and the same sum, but other values
        a, b = list(d)[0], list(d)[-1]
        c[a], c[b] = dict.get(c, b, 0), dict.get(c, a, 0)
        d[a], d[b] = d[b], d[a]
        close(c, d, "counter with two values exchanged", size)
        queries(c, d, size)
    ctx.nontrivial = len(d) > 1
    ctx.tag("ties" if len(set(d.values())) < len(d) else "no ties")


# ---- sampling -------------------------------------------------------------------------------------------------------

dists = st.lists(st.tuples(st.sampled_from(["a", "b", "c", "d", "e", "f", "g"]),
                           st.one_of(st.integers(0, 9), st.integers(0, 2), st.sampled_from([0.5, 0.125, 50]))),
                 min_size=1, max_size=7, unique_by=lambda t: t[0]).filter(lambda l: sum(w for _, w in l) > 0).map(tuple)


def where(pairs, r):
    """The value whose cumulative share contains r, or None if r is too close to a boundary"""
    total = sum(Fraction(w) for _, w in pairs)
    acc, r = Fraction(0), Fraction(r)
    for k, w in pairs:
        if abs(acc / total - r) < Fraction(1, 10 ** 9):
            return None
        acc += Fraction(w)
        if r < acc / total:
            return None if acc / total - r < Fraction(1, 10 ** 9) else k
    return None


def check_sampling(case, ctx):
    pairs, seed, n, p = case
    total = sum(w for _, w in pairs)
    r = random.Random(seed).random()
    keys, weights = [k for k, _ in pairs], [w for _, w in pairs]
    want, want_sorted = where(pairs, r), where(sorted(pairs), r)
    c = util.Counter()
    for k, w in pairs:
        c[k] = w
    before = dict(c)

    def ask(fn, expected, what):
        random.seed(seed)
        got = fn()
        if expected is not None:
            expect_eq(got, expected, f"{what} from {pairs} with draw {r}")

    ask(lambda: util.sample(list(weights), list(keys)), want, "sample")
    ask(lambda: util.sample([w / total for w in weights], list(keys)), want, "sample of a distribution")
    ask(lambda: util.sample(c), want_sorted, "sample of a counter")
    ask(lambda: util.sampleFromCounter(c), want_sorted, "sample from a counter")
    ask(lambda: util.chooseFromDistribution(c), want_sorted, "choice from a counter")
    ask(lambda: util.chooseFromDistribution([(w / total, k) for k, w in pairs]), want, "choice from a list")
    expect_eq(dict(c), before, "counter after sampling")
    a, b = keys[0], keys[-1]
    c[a], c[b] = c[b], c[a]
    turned = where(sorted((k, c[k]) for k in keys), r)
    ask(lambda: util.sample(c), turned, "sample of a counter with two values exchanged")
    ask(lambda: util.sampleFromCounter(c), turned, "sample from a counter with two values exchanged")
    ask(lambda: util.chooseFromDistribution(c), turned, "choice from a counter with two values exchanged")
    rnd = random.Random(seed)
    draws = [rnd.random() for _ in range(n)]
    exp = [where(pairs, x) for x in draws]
    random.seed(seed)
    got = util.nSample(list(weights), list(keys), n)
    expect_eq(len(got), n, "number of samples")
    if None not in exp:
        expect_eq(Multiset(got), Multiset(exp), f"{n} samples from {pairs}")
    random.seed(seed)
    expect_eq(bool(util.flipCoin(p)), r < p, f"coin with {p} and draw {r}")
    v = util.normalize(list(weights))
    expect_eq(len(v), len(weights), "length of the normalised vector")
    for x, w in zip(v, weights):
        expect_close(x, w / total, "normalised vector")
    expect_close(util.getProbability(keys[seed % len(keys)], v, keys), weights[seed % len(keys)] / total, "probability")
    expect_close(util.getProbability("x", [0.25, 0.5, 0.25], ["x", "y", "x"]), 0.5, "probability of a repeated value")
    expect_eq(util.getProbability("z", v, keys), 0, "probability of an unknown value")
    ctx.nontrivial = sum(w > 0 for w in weights) > 1
    ctx.tag("zero shares" if 0 in weights else "positive")


# ---- small helpers --------------------------------------------------------------------------------------------------

coords = st.tuples(st.integers(0, 400), st.integers(0, 400))
matrices = st.tuples(st.integers(1, 6), st.integers(1, 6), st.integers(0, 2 ** 36 - 1))


def check_helpers(case, ctx):
    (a, b), (e, f), (rows, cols, bits), x = case
    p, q = (a / 8, b / 8), (e / 8, f / 8)
    expect_eq(util.manhattanDistance(p, q), abs(p[0] - q[0]) + abs(p[1] - q[1]), f"distance of {p} and {q}")
    near = util.nearestPoint(p)
    expect(all(isinstance(v, int) for v in near), "nearest point should be whole", near)
    expect_eq(tuple(near), ((2 * a + 8) // 16, (2 * b + 8) // 16), f"cell nearest to {p}")
    expect_eq(util.sign(x), 1 if x >= 0 else -1, f"sign of {x}")
    m = [[bool(bits >> (r * 6 + c) & 1) for c in range(cols)] for r in range(rows)]
    for v in (True, False):
        expect_eq([tuple(t) for t in (util.matrixAsList(m, v) if not v else util.matrixAsList(m))],
                  [(r, c) for r in range(rows) for c in range(cols) if m[r][c] is v], "cells of a matrix")
    k = min(rows, cols)
    sq = [[(r, c, m[r][c]) for c in range(k)] for r in range(k)]
    expect_eq(util.arrayInvert(sq), [[sq[r][c] for r in range(k)] for c in range(k)], "turned square matrix")
    ctx.nontrivial = False


SUBS = [
    Sub("containers", cases, check_container, 400, 12000),
    Sub("counters", st.tuples(entries, entries, cops), check_counter, 400, 12000),
    Sub("sampling", st.tuples(dists, st.integers(0, 10 ** 6), st.integers(1, 12),
                              st.sampled_from([0, 0.1, 0.25, 0.5, 0.9, 1])), check_sampling, 300, 8000),
    Sub("helpers", st.tuples(coords, coords, matrices, st.sampled_from([-3, -1, -0.5, 0, 0.5, 1, 7])), check_helpers,
        100, 2000),
]
