"""C30: the experiments translate every network exactly and agree exactly when the results agree"""
from contextlib import contextmanager
from fractions import Fraction
from itertools import product
from math import comb

from hypothesis import strategies as st

from harness.core import Sub, expect, expect_close, expect_eq
from harness.pac import silent
from harness.sut import model_of
from scripts.relnet.relation_graph import RelationGraphBuilder
from scripts.experiments import comparing_with_bayes_network as bayes_exp
from scripts.experiments import comparing_with_markov_network as markov_exp
from scripts.experiments import outcomes_space_power as power_exp
from scripts.experiments import random_variables_distribution_for_all_outcomes as distr_exp

ID = "C30"
SCALE = 1
RULE = "a network with tables of its own in which at least one comparison is made"

VARS = ("D", "I", "G", "S", "L")
PARENTS = {"D": (), "I": (), "G": ("I", "D"), "S": ("I",), "L": ("G",)}


@contextmanager
def patched(module, **values):
    old = {k: getattr(module, k) for k in values}
    for k, v in values.items():
        setattr(module, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(module, k, v)


def judged(fn, fails, what):
    """fn must raise an AssertionError exactly if fails says so"""
    try:
        with silent():
            fn()
    except AssertionError as e:
        expect(fails, f"{what}: refused although the results agree", str(e)[:300])
    else:
        expect(not fails, f"{what}: accepted although the results differ")


# ---- the Bayesian network -------------------------------------------------------------------------------------------

@st.composite
def column(draw, card, total, low=1):
    cuts = sorted(draw(st.lists(st.integers(low, total - 1), min_size=card - 1, max_size=card - 1, unique=True)))
    cuts = [0] + cuts + [total]
    return tuple(cuts[i + 1] - cuts[i] for i in range(card))


@st.composite
def config(draw, total, cards=None):
    cards = cards or {v: draw(st.sampled_from((2, 2, 2, 3))) for v in VARS}
    out = []
    for v in VARS:
        n = 1
        for p in PARENTS[v]:
            n *= cards[p]
        if draw(st.integers(0, 5)) == 0:
            out.append((v, cards[v], (draw(column(cards[v], total)),) * n))  # does not depend on its parents
        else:
            out.append((v, cards[v], tuple(draw(column(cards[v], total)) for _ in range(n))))
    return tuple(out)


def relabelled(cfg, var):
    """The first two values of a variable exchanged"""
    cards = {v: c for v, c, _ in cfg}
    flip = {0: 1, 1: 0}
    out = []
    for v, c, cols in cfg:
        if var in PARENTS[v]:
            at = {pv: k for k, pv in enumerate(product(*[range(cards[p]) for p in PARENTS[v]]))}
            cols = tuple(cols[at[tuple(flip.get(i, i) if p == var else i for p, i in zip(PARENTS[v], pv))]] for pv in at)
        if v == var:
            cols = tuple(col[1::-1] + col[2:] for col in cols)
        out.append((v, c, cols))
    return tuple(out)


@st.composite
def bayes_case(draw):
    total = draw(st.sampled_from((10, 20, 100, 128)))
    a = draw(config(total))
    kind = draw(st.integers(0, 8))
    b = draw(config(total)) if kind < 3 else a
    cards = {v: c for v, c, _ in a}
    if kind == 6:  # other joint probabilities, but the same marginals without the grade
        cols = [draw(column(cards["G"], total, 2 if cards["G"] == 2 else 1)) for _ in range(cards["I"])]
        cols = [c if min(c[:2]) > 1 else (2, 2) + c[2:-1] + (c[-1] - 4 + sum(c[:2]),) if len(c) > 2 else c for c in cols]
        if all(min(c) >= 1 and min(c[:2]) > 1 for c in cols):
            def grades(shift):
                return tuple((c[0] + k, c[1] - k) + c[2:] for c in cols for k in (shift, -shift))
            a, b = (tuple((v, 2, ((total // 2, total // 2),)) if v == "D" else (v, c, grades(k)) if v == "G" else (v, c, x)
                          for v, c, x in a) for k in (0, draw(st.sampled_from((1, -1)))))
    elif kind == 7:  # they differ only for another grade than the one observed
        b = tuple((v, c, (x[0],) + tuple(draw(column(c, total)) for _ in x[1:])) if v == "L" else (v, c, x) for v, c, x in a)
    elif kind == 8:  # the observed grade says nothing about I and D together
        total = 100
        a = draw(config(total, {"D": 2, "I": 2, "G": 3, "S": 2, "L": 2}))
        xs, ys = (draw(st.tuples(st.integers(1, 8), st.integers(1, 9))) for _ in "ab")
        a = b = tuple((v, 3, tuple((x * y, k, 100 - x * y - k) for x, k in zip(xs, (5, 1)) for y in ys)) if v == "G" else
                      (v, c, tuple(draw(column(c, total)) for _ in range(3))) if v == "L" else (v, c, cs) for v, c, cs in a)
    if kind == 4:  # two values of one variable exchanged: the same probabilities, for other outcomes
        b = relabelled(a, draw(st.sampled_from(VARS)))
    elif kind == 5:  # the networks differ only once the grade is known as well
        half = total // 2
        a = tuple((v, 2, ((half, total - half),)) if v == "D" else (v, c, cols[:2 * len(cols) // dict(map(lambda t: t[:2], a))["D"]])
                  if v == "G" else (v, c, cols) for v, c, cols in a)
        b = tuple((v, c, cols[1::-1] + cols[2:]) if v == "G" else (v, c, cols) for v, c, cols in a)
    return total, a, b, tuple(draw(st.lists(st.sampled_from(VARS), min_size=1, max_size=2, unique=True))), \
        draw(st.sampled_from(("", "", "", "none", "part")))


def net_config(cfg, total):
    """As the experiment wants it: rows per value, columns per choice of the parents' values"""
    cards = {v: c for v, c, _ in cfg}
    out = {}
    for v, c, cols in cfg:
        rows = [[col[i] / total for col in cols] for i in range(c)]
        ps = list(PARENTS[v]) or None
        out[v] = (c, rows, ps, [cards[p] for p in ps] if ps else None)
    return out


def name(v, i):
    return f"{v}({i})"


def tables(cfg):
    """[(variable, [((values by variable), count)])]"""
    cards = {v: c for v, c, _ in cfg}
    out = []
    for v, c, cols in cfg:
        for k, pv in enumerate(product(*[range(cards[p]) for p in PARENTS[v]])):
            for i in range(c):
                out.append((v, dict(zip(PARENTS[v], pv)) | {v: i}, cols[k][i]))
    return out


def bayes_outcomes(cfg):
    out = {}
    for v, asg, c in tables(cfg):
        vals = frozenset((x, name(x, i)) for x, i in asg.items())
        edges = frozenset((frozenset(((p, name(p, asg[p])), (v, name(v, asg[v])))), ("D", p, v, "r"))
                          for p in PARENTS[v])
        out[vals, edges] = c
    return out


def bayes_joint(cfg, total, given=()):
    cards = {v: c for v, c, _ in cfg}
    look = {}
    for v, asg, c in tables(cfg):
        look[v, tuple(sorted(asg.items()))] = c
    joint = {}
    for vs in product(*[range(cards[v]) for v in VARS]):
        asg = dict(zip(VARS, vs))
        if any(asg[g] for g in given):
            continue
        w = Fraction(1)
        for v in VARS:
            w *= look[v, tuple(sorted((x, asg[x]) for x in PARENTS[v] + (v,)))]
        joint[vs] = w
    z = sum(joint.values())
    return {k: w / z for k, w in joint.items()}


def marginals(joint):
    out = {v: {} for v in VARS}
    for vs, w in joint.items():
        for v, i in zip(VARS, vs):
            out[v][name(v, i)] = out[v].get(name(v, i), 0) + w
    return out


def differ(a, b):
    """None: too close to tell"""
    if {k: set(x) for k, x in a.items()} != {k: set(x) for k, x in b.items()}:
        return True
    d = max(abs(float(a[v][x] - b[v][x])) for v in a for x in a[v])
    return False if d == 0 else True if d > 1e-9 else None


def close_maps(got, want, what):
    expect_eq(set(got), set(want), f"{what}: variables")
    for v in want:
        expect_eq(set(got[v]), set(want[v]), f"{what}: values of {v}")
        for x in want[v]:
            expect_close(got[v][x], float(want[v][x]), f"{what}: share of {x}", 1e-9)


def model(graph):
    return {model_of(o): c for o, c in graph.outcomes.items()}


def check_bayes(case, ctx):
    total, a, b, given, broken = case
    if broken:
        return check_broken(case, ctx)
    with patched(bayes_exp, net_config=net_config(b, total), prop_factor=total), silent():
        whole = all(int(p * total) == p * total for v in bayes_exp.net_config.values() for r in v[1] for p in r)
        try:
            rg = bayes_exp.make_relation_graph()
        except AssertionError as e:
            expect(not whole, "a table of whole numbers is refused", e)
            ctx.tag("not whole")
            return
        expect(whole, "a table entry that is not a whole number of outcomes is accepted")
    expect_eq(model(rg), bayes_outcomes(b), "outcomes of the relation graph")
    with patched(bayes_exp, net_config=net_config(a, total)), silent():
        bn = bayes_exp.make_bayes_network()
        expect(bn.check_model(), "the Bayesian network is not consistent")
        for v, c, cols in a:
            cpd = bn.get_cpds(v)
            expect_eq((cpd.variable, cpd.variable_card), (v, c), "table of the Bayesian network")
            expect_eq([list(r) for r in cpd.get_values()], [[col[i] / total for col in cols] for i in range(c)],
                      f"entries of the table of {v}")
        expect_eq(sorted(bn.edges()), sorted((p, v) for v in VARS for p in PARENTS[v]), "links of the Bayesian network")
        ja, jb = bayes_joint(a, total), bayes_joint(b, total)
        ma, mb = marginals(ja), marginals(jb)
        # the comparisons fail when the results differ
        n = 0
        d = differ({"joint": ja}, {"joint": jb})
        if d:
            judged(lambda: bayes_exp.comparing_joint_probability(bn, rg), True, "joint probabilities")
            n += 1
        for g in (("I",), ("I", "G")):
            if differ(rest(marginals(bayes_joint(a, total, g)), g), rest(marginals(bayes_joint(b, total, g)), g)):
                judged(lambda: bayes_exp.comparing_inference(bn, rg), True, "inference")
                n += 1
                break
        # d-separation is judged by exact ratios
        pick = {g: marginals(bayes_joint(b, total, g)) for g in ((), ("I",), ("G",), ("G", "I"), ("L",), ("L", "I"))}

        def floats(g, v):
            return {x: float(w) for x, w in pick[g][v].items()}
        fails = floats((), "S") == floats(("I",), "S") or floats(("G",), "D") == floats(("G", "I"), "D") \
            or floats(("L",), "D") == floats(("L", "I"), "D")
        judged(lambda: bayes_exp.comparing_d_separation(rg), fails, "d-separation")
        # the parts of the comparisons
        run = getattr(bayes_exp, "_run_inference_on", None)
        if run:
            with silent():
                f, g = run(list(given), bn, rg)
            close_maps(f, rest(marginals(bayes_joint(a, total, given)), given), f"Bayesian inference on {given}")
            close_maps(rest(g, given), rest(marginals(bayes_joint(b, total, given)), given), f"inference on {given}")
        values = getattr(bayes_exp, "_value_map_from_graph", None)
        norm = getattr(bayes_exp, "_normalize", None)
        if values and norm:
            with silent():
                m = norm(values(rg.make_joined()))
            close_maps({"joint": m}, {"joint": {frozenset(map(name, VARS, k)): w for k, w in jb.items()}},
                       "joint probabilities of the relation graph")
            expect_close(sum(m.values()), 1.0, "sum of the joint probabilities")
        for cmp, good in ((getattr(bayes_exp, "_compare_margin_map", None), {v: {x: float(w) for x, w in m.items()}
                                                                            for v, m in mb.items()}),
                          (getattr(bayes_exp, "_compare_values_map", None),
                           {frozenset(map(name, VARS, k)): float(w) for k, w in jb.items()})):
            if not cmp:
                continue
            judged(lambda: cmp(good, {k: dict(v) if isinstance(v, dict) else v for k, v in reversed(good.items())}), False,
                   "the same results")
            k = list(good)[total % len(good)]
            if isinstance(good[k], dict):
                xs = sorted(good[k], key=good[k].get)
                turned = {**good, k: {**good[k], xs[0]: good[k][xs[-1]], xs[-1]: good[k][xs[0]]}}
                far = good[k][xs[-1]] - good[k][xs[0]]
            else:
                xs = sorted(good, key=good.get)
                turned = {**good, xs[0]: good[xs[-1]], xs[-1]: good[xs[0]]}
                far = good[xs[-1]] - good[xs[0]]
            if far > 1e-9:
                judged(lambda: cmp(good, turned), True, "two values exchanged")
            less = {x: v for x, v in good.items() if x != k}
            judged(lambda: cmp(good, less), True, "a result that is missing")
            judged(lambda: cmp(less, good), True, "a result too many")
            if isinstance(good[k], dict):
                x = sorted(good[k])[-1]
                judged(lambda: cmp(good, {**good, k: {**good[k], x: good[k][x] + 1e-6}}), True, "another value")
                judged(lambda: cmp(good, {**good, k: {x: 1.0}}), True, "values that are missing")
            else:
                judged(lambda: cmp(good, {**good, k: good[k] + 1e-6}), True, "another value")
    ctx.nontrivial = n > 0 or a == b
    ctx.tag("same" if a == b else "other tables", "d-separated" if fails else "d-connected")


def check_dependent(case, ctx):
    """A network in which the difficulty depends on the intelligence is not separated"""
    total, a, dcols, same = case
    look = {(v, tuple(sorted(asg.items()))): c for v, asg, c in tables(a) if v != "D"}
    cards = {v: c for v, c, _ in a}
    dcols = [c[:cards["D"] - 1] + (sum(c[cards["D"] - 1:]),) for c in dcols][:cards["I"]]
    if same:
        dcols = dcols[:1] * len(dcols)
    rgb = RelationGraphBuilder({v: {name(v, i) for i in range(c)} for v, c in cards.items()}, {"r"})
    for i, col in enumerate(dcols):
        for d, c in enumerate(col):
            rgb.add_outcome(rgb.sample_builder().add_directed_relation(("I", name("I", i)), ("D", name("D", d)), "r").build(), c)
    for v, asg, c in tables(a):
        sb = rgb.sample_builder()
        for p in PARENTS[v]:
            sb.add_directed_relation((p, name(p, asg[p])), (v, name(v, asg[v])), "r")
        if v != "D":
            rgb.add_outcome(sb.build() if PARENTS[v] else sb.build_single_node(v, name(v, asg[v])), c)
    rg = rgb.build()

    def share(given, of):
        out = {}
        for vs in product(*[range(cards[v]) for v in VARS]):
            asg = dict(zip(VARS, vs))
            if not any(asg[g] for g in given):
                w = dcols[asg["I"]][asg["D"]]
                for v in VARS[1:]:
                    w *= look[v, tuple(sorted((x, asg[x]) for x in PARENTS[v] + (v,)))]
                out[asg[of]] = out.get(asg[of], 0) + w
        return {k: Fraction(w, sum(out.values())) for k, w in out.items()}

    def equal(g1, g2, of):
        return {k: float(w) for k, w in share(g1, of).items()} == {k: float(w) for k, w in share(g2, of).items()}
    fails = not equal((), "I", "D") or equal((), "I", "S") or equal("G", "GI", "D") or equal("L", "LI", "D")
    judged(lambda: bayes_exp.comparing_d_separation(rg), fails, "d-separation of a network with a dependency")
    ctx.nontrivial = not equal((), "I", "D")
    ctx.tag("dependent" if ctx.nontrivial else "separated")


@st.composite
def dependent_case(draw):
    total = draw(st.sampled_from((10, 20, 100, 128)))
    return total, draw(config(total)), tuple(draw(column(3, total)) for _ in range(3)), draw(st.integers(0, 3)) == 0


def rest(m, given):
    return {v: x for v, x in m.items() if v not in given}


def check_broken(case, ctx):
    """Tables the relation graph cannot hold are refused"""
    total, a, _, _, broken = case
    cfg = net_config(a, total)
    v = VARS[(a[0][1] + a[2][1]) % 5]
    rows = [list(r) for r in cfg[v][1]]
    if broken == "none":
        rows[1][0], rows[0][0] = rows[0][0] + rows[1][0], 0.0  # no outcome at all
    else:
        rows[0][0] += 0.4 / total  # not a whole number of outcomes
        rows[1][0] -= 0.4 / total
    cfg[v] = (cfg[v][0], rows) + cfg[v][2:]
    with patched(bayes_exp, net_config=cfg, prop_factor=total), silent():
        try:
            bayes_exp.make_relation_graph()
        except Exception:
            ctx.tag("refused")
            return
    expect(False, f"a table with {'an impossible entry' if broken == 'none' else 'a broken entry'} is accepted", cfg[v])


# ---- the Markov network ---------------------------------------------------------------------------------------------

M_EDGES = (("A", "B"), ("B", "C"), ("C", "D"), ("D", "A"))
table = st.tuples(*[st.one_of(st.integers(1, 9), st.integers(1, 1000))] * 4)
link = st.one_of(table, st.tuples(st.integers(1, 20000), st.sampled_from((-1, 0, 1))).map(
    lambda t: (t[0] + max(t[1], 0), t[0], t[0], t[0] - min(t[1], 0))))  # next to independent
markov_case = st.tuples(st.tuples(table, table, table, table), st.tuples(table, table, table, table), st.booleans(),
                        st.integers(0, 3), link)


def markov_joint(ts, given=()):
    out = {}
    for asg in product((0, 1), repeat=4):
        if any(asg["ABCD".index(g)] for g in given):
            continue
        v = dict(zip("ABCD", asg))
        w = Fraction(1)
        for (s, t), tab in zip(M_EDGES, ts):
            w *= tab[2 * v[s] + v[t]]
        out[asg] = w
    z = sum(out.values())
    return {k: float(w / z) for k, w in out.items()}


def check_markov(case, ctx):
    ta, tb, same, only, bd = case
    if same:
        tb = ta
    elif only:
        tb = ta[:only - 1] + (tb[only - 1],) + ta[only:]

    def edges(ts):
        return [(list(e), list(t)) for e, t in zip(M_EDGES, ts)]
    with patched(markov_exp, edges=edges(ta)), silent():
        mn = markov_exp.make_markov_network()
    expect_eq(sorted(map(sorted, mn.edges())), sorted(map(sorted, M_EDGES)), "links of the Markov network")
    expect_eq([(list(f.scope()), [int(x) for x in f.values.flatten()]) for f in mn.get_factors()],
              [(list(e), list(t)) for e, t in zip(M_EDGES, ta)], "factors of the Markov network")
    with patched(markov_exp, edges=edges(tb)), silent():
        rg = markov_exp.make_relation_graph()
    got = model(rg)
    want = {}
    for (s, t), tab in zip(M_EDGES, tb):
        for i, j in product((0, 1), repeat=2):
            vs = frozenset(((s, name(s, i)), (t, name(t, j))))
            want[vs, frozenset({(vs, ("U", "r"))})] = tab[2 * i + j]
    expect_eq(got, want, "outcomes of the relation graph")
    f = mn.factors[0] * mn.factors[1] * mn.factors[2] * mn.factors[3]
    f.normalize()
    differ = markov_joint(ta) != markov_joint(tb)
    if differ or f.values.sum() == 1.0:  # the experiment normalises twice and compares to the last digit
        judged(lambda: markov_exp.comparing_variable_joint_probability(mn, rg), differ, "joint probabilities")
    parts = getattr(markov_exp, "_get_markov_prop", None), getattr(markov_exp, "_get_relation_graph_prop", None)
    if all(parts):
        with silent():
            shares = parts[0](f), parts[1](rg.make_joined())
        for what, got, ts in (("Markov network", shares[0], ta), ("relation graph", shares[1], tb)):
            close_maps({"joint": got}, {"joint": markov_joint(ts)}, f"joint probabilities of the {what}")
    judged(lambda: markov_exp.comparing_inference(mn, rg), markov_joint(ta, "A") != markov_joint(tb, "A"), "inference")
    judged(lambda: markov_exp.markov_separation(mn), False, "separation in the Markov network")
    judged(lambda: markov_exp.relation_graph_separation(rg), False, "separation in the relation graph")
    expect_eq(model(rg), want, "the relation graph after the comparisons")
    expect_eq([(list(f.scope()), [int(x) for x in f.values.flatten()]) for f in mn.get_factors()],
              [(list(e), list(t)) for e, t in zip(M_EDGES, ta)], "factors of the Markov network after the comparisons")
    # one more relation, between B and D, so that they are not separated
    more = rg.builder()
    for i, j in product((0, 1), repeat=2):
        more.add_outcome(more.sample_builder().add_relation({("B", name("B", i)), ("D", name("D", j))}, "r").build(),
                         bd[2 * i + j])
    w = {(b, d): tb[0][b] * tb[1][2 * b] * tb[2][d] * tb[3][2 * d] * bd[2 * b + d] for b, d in product((0, 1), repeat=2)}
    x = Fraction(w[0, 0] + w[0, 1], sum(w.values())) - Fraction(w[0, 0], w[0, 0] + w[1, 0])
    if x == 0 or abs(x) > 1e-12:
        judged(lambda: markov_exp.relation_graph_separation(more.build()), x != 0, "separation of linked variables")
        ctx.tag("linked" if x else "linked but independent")
    ctx.nontrivial = True
    ctx.tag("same tables" if ta == tb else "other tables")


# ---- sizes and distributions ----------------------------------------------------------------------------------------

def connected(k, r):
    """Number of connected graphs over k nodes whose links have one of r colours"""
    memo = {1: 1}
    for n in range(2, k + 1):
        memo[n] = (r + 1) ** comb(n, 2) - sum(comb(n - 1, i - 1) * memo[i] * (r + 1) ** comb(n - i, 2)
                                              for i in range(1, n))
    return memo[k]


def check_power(case, ctx):
    """The experiment with a stand-in for generating: its formula has to give the known numbers"""
    wrong, by = case
    asked = []

    class Outcomes:
        length = 0

    class Stub:
        def __init__(self, variables, relations, *a, **k):
            self.size = len(variables), {len(set(v)) for v in variables.values()}, len(relations)

        def generate_all_possible_outcomes(self):
            return self

        def build(self):
            n, vs, r = self.size
            expect_eq(len(vs), 1, "values per variable")
            asked.append((n, *vs, r))
            m = next(iter(vs))
            self.outcomes = Outcomes()
            self.outcomes.length = sum(comb(n, k) * connected(k, r) * m ** k for k in range(1, n + 1))
            if len(asked) == wrong:
                self.outcomes.length += by
            return self
    with patched(power_exp, RelationGraphBuilder=Stub):
        judged(power_exp.outcomes_space_power, 0 < wrong <= 64 and by != 0, "number of outcomes")
    if not (0 < wrong <= 64 and by):
        expect_eq(sorted(asked), sorted(product(range(1, 5), repeat=3)), "sizes compared")
    ctx.nontrivial = True


def check_distribution(case, ctx):
    with silent() as (out, _):
        distr_exp.random_variables_distribution_for_all_outcomes()
    expect_eq(out.getvalue().count("distribution = "), (1 + 2 + 3) * 9, "distributions shown")


def check_given(case, ctx):
    """The experiments with the networks they come with"""
    with silent():
        bn, rg = bayes_exp.make_bayes_network(), bayes_exp.make_relation_graph()
        mn, mg = markov_exp.make_markov_network(), markov_exp.make_relation_graph()
    before = model(rg), model(mg)
    for k, fn in enumerate((lambda: bayes_exp.comparing_joint_probability(bn, rg), lambda: bayes_exp.comparing_inference(bn, rg),
                            lambda: bayes_exp.comparing_d_separation(rg),
                            lambda: markov_exp.comparing_variable_joint_probability(mn, mg),
                            lambda: markov_exp.comparing_inference(mn, mg), lambda: markov_exp.markov_separation(mn),
                            lambda: markov_exp.relation_graph_separation(mg))):
        judged(fn, False, f"comparison {k} of the given networks")
    expect_eq((model(rg), model(mg)), before, "networks after the comparisons")
    ctx.nontrivial = True


SUBS = [
    Sub("bayes", bayes_case(), check_bayes, 60, 1200),
    Sub("dependent", dependent_case(), check_dependent, 12, 300),
    Sub("markov", markov_case, check_markov, 60, 1500),
    Sub("power", st.tuples(st.one_of(st.integers(1, 64), st.just(0)), st.sampled_from((1, -1, 1000))), check_power, 12, 200,
        corpus=[(0, 1), (64, 1), (1, -1)]),
    Sub("given", st.just(0), check_given, 1, 1),
    Sub("distribution", st.just(0), check_distribution, 1, 1, shards=[0]),
]
