"""C02: equality and hash follow content; finished objects never change"""
import copy

from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_eq
from harness.sut import (BuilderComponentsProvider, DirectedRelation, RelationEdge, SampleGraphBuilder, SampleSet, SampleSetBuilder, ValueNode,
                         build, edges_arg, fresh, graph_builder, model_of, net_of, network, provider, rel_obj, set_model,
                         show)

from scripts.relnet.activation_graph import ActiveEdge, ActiveNode
from scripts.relnet.folded_graph import FoldedEdge, FoldedNode
from scripts.relnet.variables_graph import VariableEdge, VariableNode

ID = "C02"
RULE = ("two objects with content built along different routes (or differing in one element), or a history in which a "
        "finished object was followed by later use of its builder or results")


@st.composite
def pairs(draw):
    u = draw(gen.universes(min_vars=2, max_vars=5, wide_vars=4, wide_vals=4))
    a = draw(gen.samples(u, 1, 8))
    b = draw(gen.related(u, a))
    return u, a, b, draw(st.integers(0, 5)), draw(st.integers(0, 5)), draw(st.booleans())


def both(a, b, same, what):
    expect_eq(a == b, same, f"{what}: equality of {a!r} and {b!r}")
    expect_eq(b == a, same, f"{what}: equality of {b!r} and {a!r}")
    expect_eq(a != b, not same, f"{what}: inequality of {a!r} and {b!r}")
    if same:
        expect(hash(a) == hash(b), f"{what}: equal objects with different hashes", a, b)
        expect(len({a, b}) == 1 and {a: 1}[b] == 1, f"{what}: equal objects are different keys", a, b)
    else:
        expect(len({a, b}) == 2, f"{what}: different objects are the same key", a, b)
    expect(not (a == "x") and not (a == None) and a == a, f"{what}: comparison with other things")  # noqa: E711


def check_pairs(case, ctx):
    u, a, b, ra, rb, foreign = case
    p = provider(u)
    q = provider(u) if foreign else p
    sa = build(fresh(p).set_name("first" if ra % 2 else None), a, ra)
    nodes, edges = b
    sb = build(fresh(q).set_name("second" if rb % 2 else None), b, rb)
    ma, mb = gen.model(a), gen.model(b)
    both(sa, sb, ma == mb, "samples")
    both(sa, build(fresh(p).set_name("other"), a, ra + 1), True, "same sample, other route")
    # one node / edge object per declaration
    for n in sa.nodes:
        expect(p.get_node(n.variable, n.value) is n, "declaration hands out another object for a value", n)
    for e in sa.edges:
        expect(p.get_edge(e.endpoints, e.relation) is e, "declaration hands out another object for a relation", e)
        expect({e.a, e.b} == set(e.endpoints), "ends of a relation", e)
    # components
    na, nb = list(sa.nodes), list(sb.nodes)
    for x in na:
        for y in nb:
            both(x, y, x.var_val() == y.var_val(), "values")
        both(x, ValueNode(x.variable, x.value), True, "values")
    for x in sa.edges:
        for y in sb.edges:
            both(x, y, _edge_key(x) == _edge_key(y), "relations")
        both(x, RelationEdge(frozenset(x.endpoints), x.relation), True, "relations")
    for x in sa.edges:  # the same two values linked in every declared way
        key = _edge_key(x)
        i, j = (n.variable for n in sorted(x.endpoints, key=repr))
        for r in u[1]:
            for rel in (r, DirectedRelation(i, j, r), DirectedRelation(j, i, r)):
                y = RelationEdge(frozenset(x.endpoints), rel)
                both(x, y, key == _edge_key(y), "relations between the same values")
                two = fresh(p).build_from_edges(frozenset({(frozenset(n.var_val() for n in x.endpoints), rel)}))
                one = fresh(p).build_from_edges(frozenset({(frozenset(n.var_val() for n in x.endpoints), x.relation)}))
                both(one, two, key == _edge_key(y), "samples of one relation")
        break
    for x in sa.edges:
        if isinstance(x.relation, DirectedRelation):
            r = x.relation
            both(r, DirectedRelation(r.source_variable, r.target_variable, r.relation), True, "directed relations")
            both(r, DirectedRelation(r.target_variable, r.source_variable, r.relation), False, "directed relations")
            both(r, DirectedRelation(r.source_variable, r.target_variable, "another"), False, "directed relations")
    expect_eq(sa.is_compatible(q), q is p, "compatibility is about the declaration")
    ctx.nontrivial = len(a[0]) > 1
    ctx.tag("equal" if ma == mb else "different")


def _edge_key(e):
    r = e.relation
    if isinstance(r, DirectedRelation):
        r = ('D', r.source_variable, r.target_variable, r.relation)
    return frozenset(n.var_val() for n in e.endpoints), r


@st.composite
def set_pairs(draw):
    u, net = draw(gen.uni_and_net(max_vars=4, max_out=6, wide_vars=3, wide_vals=4, many=20))
    other = list(net)
    for _ in range(draw(st.integers(0, 2))):
        what = draw(st.integers(0, 3))
        i = draw(st.integers(0, len(other) - 1)) if other else 0
        if what == 0 and len(other) > 1:
            other.pop(i)
        elif what == 1 and other:
            other[i] = (other[i][0], other[i][1] + draw(st.integers(1, 3)))
        elif what == 2 and other:
            other[i] = (draw(gen.related(u, other[i][0])), other[i][1])
        elif len(other) > 1:
            j = draw(st.integers(0, len(other) - 1))
            (s, c), (t, d) = other[i], other[j]
            other[i], other[j] = (s, d), (t, c)
    other = draw(st.permutations(other))
    return u, net, tuple(other)


@st.composite
def twin_pairs(draw):
    """Collections which differ only by values or relations that have the same hash"""
    u = draw(gen.universes(min_vars=1, max_vars=3, min_vals=2, max_vals=4, min_rels=2, val_kinds=["twin"],
                           rel_kinds=["twin", "twin", "rst"]))
    net = draw(gen.networks(u, 1, 4, 3))
    values = {v: {hash(x): x for x in vals} for v, vals in u[0]}
    rels = {hash(r): r for r in u[1]}
    other = []
    for (nodes, edges), c in net:
        if draw(st.integers(0, 3)):
            nodes = tuple((v, values[v][hash(x)]) for v, x in nodes)
        if draw(st.booleans()):
            edges = tuple(e[:3] + (rels[hash(e[3])],) for e in edges)
        other.append(((nodes, edges), c))
    seen = {}
    for s, c in other:
        seen.setdefault(gen.model(s), (s, c))
    return u, net, tuple(seen.values())


def check_sets(case, ctx):
    u, na, nb = case
    p = provider(u)
    ba, bb = SampleSetBuilder(p), SampleSetBuilder(p)
    for k, (s, c) in enumerate(na):
        ba.add(build(fresh(p), s, k), c)
    for k, (s, c) in enumerate(nb):
        bb.add(build(fresh(p).set_name(f"n{k}"), s, k + 1), c)
    a, b = ba.build(), bb.build()
    same = gen.net_model(na) == gen.net_model(nb)
    both(a, b, same, "collections")
    half = SampleSetBuilder(p)
    for k, (s, c) in enumerate(nb[::2]):
        half.add(build(fresh(p), s), c)
    rest = SampleSetBuilder(p)
    for k, (s, c) in enumerate(nb[1::2]):
        rest.add(build(fresh(p), s), c)
    both(a, half.build().union(rest.build()), same, "collections by union")
    # folded views of networks with this content
    ga, gb = graph_builder(u), None
    for k, (s, c) in enumerate(na):
        ga.add_outcome(build(ga.sample_builder(), s, k), c)
    gb = graph_builder(u)
    for k, (s, c) in enumerate(nb):
        gb.add_outcome(build(gb.sample_builder(), s, k + 1), c)
    fa, fb = ga.build().folded_graph(), gb.build().folded_graph()
    ma, mb = gen.net_model(na), gen.net_model(nb)
    va, vb = ref.value_counts(ma), ref.value_counts(mb)
    expect_eq(fa == fb, va == vb and _edge_counts(ma) == _edge_counts(mb), "equality of folded views")
    for x in fa.nodes:
        for y in fb.nodes:
            both(x, y, x.variable == y.variable and va[x.variable] == vb[y.variable], "folded nodes")
    ea, eb = _edge_counts(ma), _edge_counts(mb)
    for x in fa.edges:
        for y in fb.edges:
            both2(x, y, x.endpoints == y.endpoints and ea[x.endpoints] == eb[y.endpoints], "folded edges")
    ctx.nontrivial = len(na) > 1
    ctx.tag("equal" if same else "different")


def both2(a, b, same, what):
    expect_eq(a == b, same, f"{what}: equality")
    expect_eq(a != b, not same, f"{what}: inequality")
    if same:
        expect(hash(a) == hash(b), f"{what}: equal objects with different hashes")


def _edge_counts(m):
    acc = {}
    for s, c in m.items():
        for e in s[1]:
            d = acc.setdefault(ref.edge_vars(e), {})
            d[e] = d.get(e, 0) + c
    return acc


@st.composite
def active_pairs(draw):
    u, net = draw(gen.uni_and_net(max_vars=4, max_out=5, min_vars=2))
    s = draw(st.sampled_from([s for s, _ in net]))
    ev = (s[0][:1], ())
    other = draw(st.permutations(net))
    if draw(st.booleans()):
        i = draw(st.integers(0, len(other) - 1))
        other[i] = (other[i][0], other[i][1] + 1)
    return u, net, tuple(other), ev


def check_active(case, ctx):
    u, na, nb, ev = case
    _, ga = network(u, na, naming=True)
    _, gb = network(u, nb)
    va = ga.conditional_graph(build(ga.sample_builder(), ev)).activation_graph()
    vb = gb.conditional_graph(build(gb.sample_builder(), ev)).activation_graph()
    da, db = _active(va), _active(vb)
    close = _close(da, db)
    if gen.net_model(na) == gen.net_model(nb):
        expect(close, "activation of the same network built in another order differs", da, db)
        expect(va == va, "activation view equals itself")
        for x in va.edges:
            both2(x, next(y for y in vb.edges if y.endpoints == x.endpoints), True, "active edges")
    elif not close:
        expect(not (va == vb), "different activation views are equal", da, db)
    for view in (va, vb):
        for x in view.nodes:
            for y in view.nodes:
                both2(x, y, x is y or x.variable == y.variable, "active nodes of one view")
    ctx.nontrivial = len(na) > 1


def _active(v):
    return ({n.variable: (dict(n.values), n.in_query) for n in v.nodes},
            {e.endpoints: (dict(e.relations), e.in_query) for e in v.edges})


def _close(a, b):
    if a[1] != b[1] or a[0].keys() != b[0].keys():
        return False
    return all(a[0][k][1] == b[0][k][1] and a[0][k][0].keys() == b[0][k][0].keys()
               and all(abs(a[0][k][0][x] - b[0][k][0][x]) < 1e-9 for x in a[0][k][0]) for k in a[0])


@st.composite
def part_cases(draw):
    """Two descriptions of the parts of a folded or activated view, mostly differing in one thing"""
    u = draw(gen.universes(min_vars=2, max_vars=4, min_vals=2, min_rels=1))
    v = draw(st.integers(0, len(u[0]) - 1))
    vals = dict(u[0])[u[0][v][0]]
    counts = tuple(draw(st.integers(1, 3)) for _ in vals)
    keep = draw(st.integers(1, 2 ** len(vals) - 1))
    a = (v, keep, counts, draw(st.booleans()), 0, 0)
    b = list(a)
    for _ in range(draw(st.integers(0, 2))):
        what = draw(st.integers(0, 5))
        b[what] = (draw(st.integers(0, len(u[0]) - 1)), draw(st.integers(1, 2 ** len(vals) - 1)),
                   tuple(draw(st.integers(1, 3)) for _ in vals), draw(st.booleans()), draw(st.integers(0, 2)),
                   draw(st.integers(0, len(u[1]) - 1)))[what]
    return u, a, tuple(b)


def check_parts(case, ctx):
    u, a, b = case
    names = [v for v, _ in u[0]]
    made = []
    for v, keep, counts, flag, kind, r in (a, b):
        var = names[v]
        other = names[(v + 1) % len(names)]
        vals = {x: c for i, (x, c) in enumerate(zip(dict(u[0])[names[a[0]]], counts)) if keep >> i & 1}
        rel = u[1][r] if kind == 0 else DirectedRelation(var, other, u[1][r]) if kind == 1 \
            else DirectedRelation(other, var, u[1][r])
        rk = ('U', u[1][r]) if kind == 0 else ('D', var, other, u[1][r]) if kind == 1 else ('D', other, var, u[1][r])
        ends = frozenset((var, other))
        first = dict(u[0])[other][0]
        edges = {RelationEdge(frozenset((ValueNode(var, x), ValueNode(other, first))), rel): c for x, c in vals.items()}
        ek = frozenset((frozenset(((var, x), (other, first))), rk, c) for x, c in vals.items())
        vk = frozenset(vals.items())
        made.append([
            (VariableNode(var), var), (VariableEdge({var, other}), ends),
            (FoldedNode(var, set(vals), {ValueNode(var, x): c for x, c in vals.items()}, 100), (var, vk)),
            (FoldedEdge({var, other}, edges), (ends, ek)),
            (ActiveNode(var, {x: c / 4 for x, c in vals.items()}, flag), (var, vk, flag)),
            (ActiveEdge({var, other}, {rel: counts[0]}, flag), (ends, rk, counts[0], flag)),
        ])
    for (x, kx), (y, ky) in zip(*made):
        both2(x, y, kx == ky, type(x).__name__)
        both2(x, x, True, type(x).__name__)
        expect(not (x == "x") and not (x == None), "comparison of a part with other things")  # noqa: E711
    ctx.nontrivial = a != b
    ctx.tag("same" if a == b else "different")


# ---- finished objects never change ---------------------------------------------------------------------------------

@st.composite
def frozen_cases(draw):
    u, net = draw(gen.uni_and_net(max_vars=4, max_out=5, min_vars=2))
    extra = draw(gen.samples(u, 1, 4))
    return u, net, extra, tuple(draw(st.lists(st.integers(0, 17), min_size=2, max_size=8)))


def check_frozen(case, ctx):
    u, net, extra, ops = case
    decl = {v: set(x) for v, x in u[0]}, set(u[1])
    p = BuilderComponentsProvider(*decl)
    gb, g = network(u, net, p=p)
    want = gen.net_model(net)
    declared = frozenset((v, frozenset(x)) for v, x in u[0]), frozenset(u[1])
    p_samples = sorted(g.outcomes.samples(), key=repr)
    s = p_samples[len(ops) % len(p_samples)]
    ms = model_of(s)
    raw = {x: c for x, c in g.outcomes.items()}
    first = SampleSet(p, raw)
    sb = SampleSetBuilder(p, raw)
    derived = sb.build()
    xs = build(gb.sample_builder(), extra)
    keep_builder = gb.sample_builder()
    keep_sample = build(keep_builder, extra)
    mk = model_of(keep_sample)
    cond = g.conditional_graph(xs)
    cond_want = ref.condition(want, gen.model(extra))
    fold = g.folded_graph()
    fold_before = _fold(fold)
    for op in ops:
        if op == 0:
            _ignore(lambda: s.builder().join_sample(xs))
        elif op == 1:
            sbd = s.builder()
            for (i, j, kd, r) in extra[1]:
                _ignore(lambda: sbd.add_relation({extra[0][i], extra[0][j]}, r))
        elif op == 2:
            raw.clear()
        elif op == 3:
            sb.add(xs, 5)
        elif op == 4:
            _ignore(lambda: sb.remove(s))
        elif op == 5:
            x = g.outcomes.items()
            x.clear()
            g.outcomes.samples().clear()
        elif op == 6:
            g.outcomes.builder().add(xs, 3)
            _ignore(lambda: g.outcomes.builder().remove(s))
        elif op == 7:
            gb.add_outcome(xs, 2)
        elif op == 8:
            g.builder().add_outcome(xs, 7)
        elif op == 9:
            s.values().clear()
            for n in s.nodes:
                s.neighboring_values(n).clear()
                b = s.belt_nodes({n})
                for v in b.values():
                    v.clear()
                for v in s.external_nodes({n}).values():
                    v.clear()
        elif op == 10:
            m = g.marginal_variables_probability()
            for v in m.values():
                v.clear()
        elif op == 11:
            _ignore(lambda: keep_builder.add_relation({extra[0][0], _other(u, extra)}, u[1][0]))
            _ignore(lambda: keep_builder.join_sample(s))
        elif op == 12:
            for v in g.outcomes.group_intersecting().values():
                v.builder().add(xs, 1)
        elif op == 13:
            cond.builder().add_outcome(xs, 3)
            cond.relation_graph().builder().add_outcome(xs, 3)
        elif op == 14:
            for n in fold.nodes:
                n.marginal_distribution().clear()
        elif op == 16:
            for x in decl[0].values():
                x.clear()
            decl[0].clear()
            decl[1].clear()
        elif op == 17:  # empty whatever container the finished objects hand out
            act = (cond if cond_want else g.conditional_graph(s)).activation_graph()
            v0 = next(iter(s.nodes)).variable
            new = s.transform_with_replaced_values({v0: y for y in dict(u[0])[v0]})
            for x in (g, cond, g.outcomes, s, new, keep_sample, xs, fold, act, *s.nodes, *s.edges, *fold.nodes, *fold.edges, *act.nodes,
                      *act.edges):
                for name in ("nodes", "edges", "variables", "relations", "values", "value_nodes", "relation_edges",
                             "endpoints", "included_variables", "hash"):
                    part = getattr(x, name, None)
                    if hasattr(part, "clear"):
                        part.clear()
                        expect(len(getattr(x, name)) > 0, f"{name} of a finished object was emptied", x)
            for x in (g, cond) if cond_want else (g,):
                for part in (x.included_variables(), x.included_relations(), x.outcomes_as_edges_sets(),
                             x.outcomes.probabilities(), x.describe(), x.outcomes.items()):
                    _ignore(lambda: part.clear())
            expect_eq(len(act.nodes), len(u[0]), "variables of the activation view")
        elif op == 15:
            c = copy.copy(keep_builder)
            _ignore(lambda: c.join_sample(s))
            cp = sb.copy()
            cp.add(xs, 11)
        expect_eq(net_of(g), want, f"network after operation {op}")
        expect_eq(model_of(s), ms, f"sample after operation {op}")
        expect_eq(set_model(first), want, f"collection after operation {op}")
        expect_eq(set_model(derived), want, f"collection built from builder after operation {op}")
        expect_eq(model_of(keep_sample), mk, f"built sample after operation {op} on its builder")
        expect_eq(net_of(cond), cond_want, f"conditioned network after operation {op}")
        expect_eq(_fold(fold), fold_before, f"folded view after operation {op}")
        expect_eq(_fold(g.folded_graph()), fold_before, f"new folded view after operation {op}")
        expect_eq((p.variables(), p.relations()), declared, f"declaration after operation {op}")
        expect_eq((g.variables, g.relations), declared, f"declaration of the network after operation {op}")
    ctx.nontrivial = len(net) > 1
    for op in ops:
        ctx.tag(f"op{op}")


def _fold(f):
    return ({n.variable: (frozenset((v.var_val(), c) for v, c in n.value_nodes), tuple(sorted(
        map(repr, n.marginal_distribution().items())))) for n in f.nodes},
            {e.endpoints: frozenset((_edge_key(x), c) for x, c in e.relation_edges) for e in f.edges})


def _other(u, s):
    names = {v for v, _ in s[0]}
    for v, vals in u[0]:
        if v not in names:
            return v, vals[0]
    return s[0][0]


def _ignore(fn):
    try:
        fn()
    except Exception:
        pass


SUBS = [
    Sub("samples", pairs(), check_pairs, 300, 8000),
    Sub("collections", set_pairs(), check_sets, 150, 4000),
    Sub("twins", twin_pairs(), check_sets, 60, 1500),
    Sub("parts", part_cases(), check_parts, 150, 3000),
    Sub("activation", active_pairs(), check_active, 80, 2000),
    Sub("frozen", frozen_cases(), check_frozen, 150, 4000),
]
