"""C08: sample collections behave as multisets under every sequence of operations (stateful, against a dict)"""
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_close, expect_eq, expect_raises
from harness.sut import SampleSet, SampleSetBuilder, build, fresh, model_of, provider, set_model

ID = "C08"
RULE = "a history of at least three effective operations on at least two different samples"

OPS = ["add", "add", "add", "add", "remove", "remove", "add_all", "add_all_b", "remove_all", "union", "filter", "copy",
       "build", "swap", "rebuild", "join", "foreign", "copy_use", "itself", "exchange"]
op = st.tuples(st.sampled_from(OPS), st.integers(0, 7), st.integers(0, 7), st.integers(0, 255), gen.COUNTS)


@st.composite
def histories(draw):
    u = draw(gen.universes(min_vars=1, max_vars=4, wide_vars=3, wide_vals=6))
    pool = [draw(gen.samples(u, 1, 4)) for _ in range(draw(st.integers(2, 6)))]
    if draw(st.booleans()):
        pool.append(((), ()))
    return u, tuple(pool), tuple(draw(st.lists(op, min_size=5, max_size=draw(st.sampled_from([16, 16, 16, 40])))))


def verify_set(ss, want, pool, models, p):
    expect_eq(set_model(ss), want, "content of the collection")
    total = sum(want.values())
    expect_eq(ss.length, total, "total of the collection")
    if total < 2 ** 63:  # the language itself limits len()
        expect_eq(len(ss), total, "length of the collection")
    expect_eq(bool(ss), bool(want), "truth of the collection")
    expect_eq({model_of(s) for s in ss.samples()}, set(want), "samples of the collection")
    for s, m in zip(pool, models):
        if m in want:
            expect_eq(ss.count_of(s), want[m], f"count of {s}")
            expect_close(ss.probability_of(s), want[m] / total, f"probability of {s}", 1e-12)
        else:
            expect_raises(lambda: ss.count_of(s), f"count of absent {s}")
            expect_raises(lambda: ss.probability_of(s), f"probability of absent {s}")
        for var, val in m[0]:
            expect_eq(bool(ss.have_value(var, val)), any((var, val) in k[0] for k in want), f"value {(var, val)!r} occurs")
            expect_eq(bool(ss.have_variable(var)), any(var in ref.variables(k) for k in want), f"{var!r} occurs")
    expect_eq(bool(ss.have_variable("no such variable")), False, "unknown variable occurs")
    if want:
        pr = ss.probabilities()
        expect_eq(len(pr), len(want), "number of probabilities")
        for s, x in pr:
            expect_close(x, want[model_of(s)] / total, f"probability of {s}", 1e-12)
        expect_close(sum(x for _, x in pr), 1.0, "sum of probabilities")
    inside = [s for s, m in zip(pool, models) if m in want]
    for s in inside[:2]:  # one sample, or one count, makes it another collection
        n = ss.count_of(s)
        for t in [t for t, m in zip(pool, models) if m not in want][:3] + [s]:
            b = ss.builder()
            b.remove(s)
            d = b.add(t, n if t is not s else n + 1).build()
            expect(ss != d and not ss == d and d != ss, "collections with different content are equal", ss, d)


def check_history(case, ctx):
    u, pool, ops = case
    p, q = provider(u), provider(u)
    names = {}

    def real(i, k=0):
        names[i] = names.get(i, 0) + 1
        return build(fresh(p).set_name((None, f"n{names[i]}", "same name")[names[i] % 3]), pool[i], k + names[i])

    models = [gen.model(s) for s in pool]
    reals = [real(i) for i in range(len(pool))]
    cur, want = SampleSetBuilder(p), {}
    other, owant = SampleSetBuilder(p).build(), {}
    frozen = []
    effective = 0
    for what, i, j, mask, c in ops:
        i %= len(pool)
        j %= len(pool)
        if what == "add":
            r = cur.add(real(i, j), c)
            expect(r is cur, "add should return the builder")
            want[models[i]] = want.get(models[i], 0) + c
            effective += 1
        elif what == "remove":
            if models[i] in want:
                s, n = cur.remove(real(i))
                expect_eq((model_of(s), n), (models[i], want.pop(models[i])), "removed sample and count")
                effective += 1
            else:
                expect_raises(lambda: cur.remove(reals[i]), "removing an absent sample")
        elif what in ("add_all", "add_all_b"):
            r = cur.add_all(other if what == "add_all" else other.builder())
            expect(r is cur, "add_all should return the builder")
            for m, n in owant.items():
                want[m] = want.get(m, 0) + n
            effective += bool(owant)
        elif what == "itself":
            d = cur.copy()
            if j % 3 == 0:
                d.add_all(d if mask % 2 else d.build())
                expect_eq(set_model(d.build()), {m: 2 * n for m, n in want.items()}, "a collection added to itself")
            elif j % 3 == 1:
                d.remove_all(d if mask % 2 else d.build())
                expect(not d and d.length() == 0, "a collection removed from itself", d)
            else:
                a = d.build()
                expect_eq(set_model(a.union(a)), {m: 2 * n for m, n in want.items()}, "union of a collection with itself")
                expect_eq(set_model(a), want, "collection after its union with itself")
        elif what == "remove_all":
            part = cur.build().filter_samples(lambda s: mask >> (len(s.nodes) % 8) & 1)
            pw = {m: n for m, n in want.items() if mask >> (len(m[0]) % 8) & 1}
            expect_eq(set_model(part), pw, "filtered collection")
            if i % 2:  # what is removed does not depend on the counts of the given collection
                part = SampleSet(p, {x: c + k for k, x in enumerate(part.samples())})
            r = cur.remove_all(part if j % 2 else part.builder())
            expect(r is cur, "remove_all should return the builder")
            for m in pw:
                del want[m]
        elif what == "union":
            a = cur.build()
            x, y = a.union(other), other.union(a)
            w = dict(want)
            for m, n in owant.items():
                w[m] = w.get(m, 0) + n
            verify_set(x, w, reals, models, p)
            expect_eq(set_model(y), w, "union the other way round")
            expect(x == y and hash(x) == hash(y), "union should be commutative", x, y)
            e = SampleSetBuilder(p).empty()
            expect(a.union(e) == a and e.union(a) == a, "empty collection should be the unit of union")
            frozen += [(x, w)]
            effective += bool(want and owant)
        elif what == "filter":
            a = cur.build()
            var = u[0][i % len(u[0])][0]
            f = a.filter_samples(lambda s: s.have_variable(var))
            verify_set(f, {m: n for m, n in want.items() if var in ref.variables(m)}, reals, models, p)
            expect(a.filter_samples(lambda s: True) == a, "filter keeping everything")
            expect(not a.filter_samples(lambda s: False), "filter keeping nothing")
        elif what == "copy":
            old = cur
            cur = cur.copy()
            old.add(real(j), c)
            if want:
                old.remove(next(s for s, m in zip(reals, models) if m in want))
        elif what == "copy_use":
            d = cur.copy()
            d.add(real(j), c)
            expect_eq(d.length(), sum(want.values()) + c, "total of the copied builder")
            expect_eq(d.count_of(reals[j]), want.get(models[j], 0) + c, "count in the copied builder")
        elif what == "build":
            frozen.append((cur.build(), dict(want)))
        elif what == "swap":
            a = cur.build()
            cur, want, other, owant = other.builder(), owant, a, want
            owant = dict(owant)
            want = dict(want)
        elif what == "rebuild":
            a = cur.build()
            cur = SampleSetBuilder(p, {s: n for s, n in a.items()}) if j % 2 else a.builder()
        elif what == "join":
            a = cur.build()
            sets, w = [], {}
            for k in range(j + 1):
                src, sw = ((a, want), (other, owant), (SampleSetBuilder(p).empty(), {}))[(mask >> k) % 3]
                sets.append(src)
                for m, n in sw.items():
                    w[m] = w.get(m, 0) + n
            expect_eq(set_model(SampleSetBuilder.join_sample_set(sets)), w, f"join of {len(sets)} collections")
            expect_eq(len(sets), j + 1, "list of collections after joining")
        elif what == "exchange":  # the same samples with the counts exchanged
            held = [k for k in range(len(pool)) if models[k] in want and models.index(models[k]) == k]
            if len(held) >= 2:
                cs = [want[models[k]] for k in held]
                for k in held:
                    cur.remove(reals[k])
                for k, n in zip(held, cs[-1:] + cs[:-1]):
                    cur.add(reals[k], n)
                    want[models[k]] = n
        elif what == "foreign":
            f = build(fresh(q), pool[i])
            expect_raises(lambda: cur.add(f, 1), "adding a sample of a foreign declaration")
            fs = SampleSetBuilder(q).add(f, 2).build()
            expect_raises(lambda: cur.build().union(fs), "union with a foreign collection")
            expect_raises(lambda: cur.add_all(fs), "adding a foreign collection")
            expect_eq(bool(cur.build().is_compatible(fs)), False, "compatibility with a foreign collection")
            expect_eq(bool(cur.build().is_compatible(other)), True, "compatibility within a declaration")
        # the builder itself after each step
        expect_eq(set_model(cur), want, f"builder after {what}")
        expect_eq(cur.length(), sum(want.values()), f"total of the builder after {what}")
        expect_eq(bool(cur), bool(want), f"truth of the builder after {what}")
        for s, m in zip(reals, models):
            if m in want:
                expect_eq(cur.count_of(s), want[m], f"count of {s} in the builder after {what}")
            else:
                expect_raises(lambda: cur.count_of(s), f"count of absent {s} in the builder")
        verify_set(cur.build(), want, reals, models, p)
        expect_eq(set_model(other), owant, f"other collection after {what}")
        ctx.tag(what)
    for ss, w in frozen:
        verify_set(ss, w, reals, models, p)
    expect_raises(lambda: SampleSetBuilder.join_sample_set([]), "joining no collections")
    ctx.nontrivial = effective >= 3 and len(set(models)) >= 2


def check_assoc(case, ctx):
    u, pool, parts = case
    p = provider(u)
    models = [gen.model(s) for s in pool]
    sets, total = [], {}
    for part in parts:
        b = SampleSetBuilder(p)
        for i, c in part:
            b.add(build(fresh(p), pool[i % len(pool)], c), c)
            m = models[i % len(pool)]
            total[m] = total.get(m, 0) + c
        sets.append(b.build())
    a, b, c = (sets + [SampleSetBuilder(p).empty()] * 3)[:3]
    expect(a.union(b).union(c) == a.union(b.union(c)), "union should be associative")
    expect_eq(set_model(SampleSetBuilder.join_sample_set(list(sets))), total, "join of all collections")
    expect_eq(set_model(SampleSetBuilder.join_sample_set(list(reversed(sets)))), total, "join in reverse order")
    rep = sets[0]
    for s in sets[1:]:
        rep = rep.union(s)
    expect(rep == SampleSetBuilder.join_sample_set(list(sets)), "join should equal repeated union")
    dict_set = SampleSet(p, {s: n for s, n in rep.items()})
    expect(dict_set == rep and hash(dict_set) == hash(rep), "collection made from a dictionary")
    ctx.nontrivial = len(sets) >= 2 and len(total) >= 2


@st.composite
def assoc_cases(draw):
    u = draw(gen.universes(min_vars=1, max_vars=4))
    pool = tuple(draw(gen.samples(u, 1, 4)) for _ in range(draw(st.integers(1, 5))))
    parts = draw(st.lists(st.lists(st.tuples(st.integers(0, 4), gen.COUNTS), max_size=4).map(tuple), min_size=1,
                          max_size=5))
    return u, pool, tuple(parts)


def check_many(case, ctx):
    n, c = case
    u = ((("a", ("T", "F")), ("b", ("T",))), ("r",))
    p = provider(u)
    sets = [SampleSetBuilder(p).add(fresh(p).build_single_node("a", "TF"[i % 2]), c).build() for i in range(n)]
    got = set_model(SampleSetBuilder.join_sample_set(sets))
    want = {ref.sample([("a", "T")]): c * ((n + 1) // 2)}
    if n > 1:
        want[ref.sample([("a", "F")])] = c * (n // 2)
    expect_eq(got, want, f"join of {n} collections")
    ctx.nontrivial = n > 100


SUBS = [
    Sub("history", histories(), check_history, 300, 8000),
    Sub("union", assoc_cases(), check_assoc, 200, 5000),
    Sub("many", st.tuples(st.integers(1, 200), st.integers(1, 5)), check_many, 5, 50, corpus=[(1500, 2)],
        shards=(0, 1)),
]
