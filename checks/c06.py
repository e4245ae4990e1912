"""C06: replacing values changes exactly the named values and nothing else"""
from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_eq, expect_raises
from harness.sut import build, fresh, model_of, provider

ID = "C06"
RULE = "the replacement changes at least one value of a sample with at least two values"


@st.composite
def cases(draw):
    u = draw(gen.universes(min_vars=1, max_vars=6, min_vals=draw(st.sampled_from([1, 2, 2, 2])), wide_vars=5, wide_vals=5))
    s = draw(gen.samples(u, 1, 10))
    rep = []
    for i, (v, vals) in enumerate(u[0]):
        if draw(st.booleans()):
            rep.append((v, draw(st.sampled_from(vals))))
    rep = draw(st.permutations(rep))
    extra = draw(st.integers(0, 5))
    return u, s, tuple(rep), extra, draw(st.integers(0, 2)), draw(st.sampled_from([None, "new name"]))


def replaced(m, rep):
    new = {n: (n[0], rep.get(n[0], n[1])) for n in m[0]}
    return (frozenset(new.values()), frozenset((frozenset(new[n] for n in ep), k) for ep, k in m[1]))


def check(case, ctx):
    u, s, rep, extra, route, name = case
    p = provider(u)
    a = build(fresh(p).set_name("original"), s, route)
    m = gen.model(s)
    d = dict(rep)
    if extra == 1:
        d["no such variable"] = "T"
    if extra == 2:  # an absent variable with an undeclared value has no effect
        absent = [v for v, _ in u[0] if v not in ref.variables(m)]
        if absent:
            d[absent[0]] = "no such value"
    copy = dict(d)
    want = replaced(m, d)
    b = a.transform_with_replaced_values(d, name)
    expect_eq(model_of(b), want, "sample with replaced values")
    expect_eq(d, copy, "replacement after use")
    expect_eq(model_of(a), m, "original sample after the replacement")
    expect_eq(a.name, "original", "name of the original sample")
    if want == m:
        expect(b is a, "nothing was replaced, so the very same sample should be returned", b)
    else:
        expect(b != a, "replaced sample should differ from the original")
        if name:
            expect_eq(b.name, name, "name of the new sample")
        else:
            expect_eq(b.name, b.text_view(), "default name of the new sample")
        direct = build(fresh(p), tuple_of(s, d), route + 1)
        expect(b == direct and hash(b) == hash(direct), "replaced sample should equal one built directly", b, direct)
        expect_eq(b.name if not name else direct.name, direct.name, "default name of the replaced sample")
    expect(b.is_compatible(p), "replaced sample should belong to the same declaration")
    back = b.transform_with_replaced_values({v: x for v, x in m[0]})
    expect_eq(model_of(back), m, "sample replaced back")
    expect(back == a, "sample replaced back should be equal to the original")
    # one after another equals all at once
    one = a
    for v, x in d.items():
        one = one.transform_with_replaced_values({v: x})
    expect_eq(model_of(one), want, "values replaced one after another")
    for v, _ in s[0][:2]:
        expect_raises(lambda: a.transform_with_replaced_values({**d, v: "no such value"}), "undeclared new value")
        expect_eq(model_of(a), m, "original sample after a refused replacement")
    expect(a.transform_with_replaced_values({}) is a, "empty replacement should return the very same sample")
    ctx.nontrivial = want != m and len(s[0]) >= 2
    ctx.tag("changed" if want != m else "unchanged", f"edges={min(len(s[1]), 5)}")


def tuple_of(s, d):
    return tuple((v, d.get(v, x)) for v, x in s[0]), s[1]


def large(n, shape, k, name):
    s = gen.wide(n, shape, k)
    rep = tuple((f"v{i}", i % (3 - k % 2)) for i in range(43, -1, -1) if i % (k + 2) < 2)
    return gen.WIDE, s, rep, k, k, name


SUBS = [Sub("large", None, check, 0, 0, corpus=[large(20, "chain", 0, None), large(40, "tree", 1, None),
                                                large(40, "star", 2, "new name")], shards=(2, 3)),
        Sub("replace", cases(), check, 500, 15000)]
