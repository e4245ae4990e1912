"""C19: drawings show exactly the content of the drawn object"""
import json
import os
import re
import shutil
import tempfile
import webbrowser
from collections import Counter

from hypothesis import strategies as st

from harness import gen, ref
from harness.core import Sub, expect, expect_eq
from harness.sut import SampleGraphBuilder, build, fresh, model_of, net_of, network, provider, rel_of
from checks.c17 import reference

ID = "C19"
RULE = "a drawing with at least one drawn edge and three drawn nodes"
webbrowser.open = lambda *a, **k: True

# the page only knows texts and whole numbers as names of variables, and lists values separated by commas
gen.VAR_KINDS["drawn"] = ["1", 1, "a", "a_1", 11, "b", "11", "b_", 0, "0", "a_b", "_", "None", "-1", -1, "c"]
KINDS = ["wordy", "abc", "long", "int", "drawn", "glue"]
VALS = ["wordy", "TF", "int", "long", "glue", "num"]
NAMES = st.text("aZ9_-() ./{}:,é数", min_size=0, max_size=10)


def universe():
    return gen.universes(max_vars=4, wide_vars=16, kinds=KINDS, val_kinds=VALS, rel_kinds=["rst", "int", "wordy"])


def page(draw_it, what):
    """Runs the drawing in an empty folder; returns (file name, nodes, edges) of the page it wrote"""
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="draw", dir=here)
    os.chdir(d)
    try:
        draw_it()
        expect_eq(os.getcwd(), d, f"current folder after drawing {what}")
        files = os.listdir(d)
        expect_eq(len(files), 1, f"number of files written by drawing {what} ({files})")
        with open(files[0]) as f:
            html = f.read()
    finally:
        os.chdir(here)
        shutil.rmtree(d)
    found = re.findall(r"(nodes|edges)\s*=\s*new vis\.DataSet\((\[.*\])\);?", html)
    got = {k: json.loads(v) for k, v in found}
    if set(got) != {"nodes", "edges"}:
        ref.fail("the page of pyvis has an unknown form")
    return files[0], got["nodes"], got["edges"]


def parts(label, open_at):
    """'x:{b(1),a(2), u(3)}' -> ('x:', ('a(2)', 'b(1)', 'u(3)')); the text before open_at is kept whole"""
    head, rest = label[:open_at], label[open_at:]
    expect(rest.startswith("{") and rest.endswith("}"), "label should list its content in braces", label)
    return head, tuple(sorted(p.strip() for p in rest[1:-1].split(",")))


def compare(nodes, edges, want_nodes, want_edges, what, norm=lambda x: x, edge_norm=lambda x: x):
    """want_nodes: Counter of (label, colour or None), want_edges: Counter of (sorted labels, label, colour)"""
    ids = {}
    for n in nodes:
        expect((type(n["id"]), n["id"]) not in ids, f"{what}: drawn id used twice", n)
        ids[(type(n["id"]), n["id"])] = (norm(n["label"]), n["id"])
    plain = None
    got = Counter()
    for n in nodes:
        got[(norm(n["label"]), n.get("color") if n.get("color") in ("red", "green", "gray") or
             str(n.get("color")).endswith("0000") else plain)] += 1
    expect_eq(sorted(map(repr, got.elements())), sorted(map(repr, want_nodes.elements())), f"{what}: drawn nodes")
    gote = Counter()
    for e in edges:
        ends = [ids[(type(x), x)][0] for x in (e["from"], e["to"])]
        gote[(tuple(sorted(map(repr, ends))), edge_norm(e["label"]), e.get("color"))] += 1
    expect_eq(sorted(map(repr, gote.elements())), sorted(map(repr, want_edges.elements())), f"{what}: drawn edges")
    seen = Counter(frozenset((e["from"], e["to"])) if type(e["from"]) is type(e["to"])
                   else frozenset((repr(e["from"]), repr(e["to"]))) for e in edges)
    expect(not seen or max(seen.values()) == 1, f"{what}: two edges drawn between the same nodes")


def sid(n):
    return f"{n[0]}_{n[1]}"


def clean(name, keep="_"):
    return "".join(c for c in name if c.isalnum() or c in keep) + ".html"


def rel_objs(s):
    return {rel_of(e.relation): e.relation for e in s.edges}


# ---- one sample -----------------------------------------------------------------------------------------------------

@st.composite
def one(draw):
    u = draw(universe())
    s = draw(st.one_of(gen.samples(u, 1, 4), gen.samples(u, 2, 4), gen.multi_samples(u, 5)))
    return u, s, draw(st.one_of(st.none(), NAMES)), draw(st.integers(0, 2))


def check_one(case, ctx):
    u, s, name, route = case
    p = provider(u)
    b = SampleGraphBuilder(p, name) if name else SampleGraphBuilder(p)
    g = build(b, s, route)
    m = gen.model(s)
    own = g.name
    if name:
        expect_eq(own, name, "name of the sample")
    if len(clean(own, "_-()")) > 240:
        return  # no file system takes this name
    f, nodes, edges = page(lambda: g.visualize(), "a sample")
    expect_eq(f, clean(own, "_-()"), "file name of the drawn sample")
    objs = rel_objs(g)
    compare(nodes, edges, Counter((sid(n), None) for n in m[0]),
            Counter((tuple(sorted(repr(sid(n)) for n in e[0])), str(objs[e[1]]), None) for e in m[1]), "sample")
    expect_eq(model_of(g), m, "sample after drawing")
    expect_eq(g.name, own, "name after drawing")
    ctx.nontrivial = len(m[0]) >= 3
    ctx.tag("directed" if any(e[1][0] == "D" for e in m[1]) else "plain")


# ---- outcomes -------------------------------------------------------------------------------------------------------

@st.composite
def many(draw):
    u = draw(universe())
    net = draw(gen.networks(u, min_out=1, max_out=draw(st.sampled_from([4, 4, 14])), max_nodes=3, many=44))
    s, _ = draw(st.sampled_from(net))
    k = draw(st.integers(1, len(s[0])))
    ev = (s[0][:k], tuple(e for e in s[1] if e[0] < k and e[1] < k))
    if ev[1] and draw(st.integers(0, 2)) == 0:  # the last relation is another one, perhaps found in no outcome
        ev = ev[0], ev[1][:-1] + (ev[1][-1][:3] + (draw(st.sampled_from(u[1])),),)
    return u, net, ev, draw(st.one_of(st.none(), NAMES)), draw(st.sampled_from(["g", "my net 1", "n_(2)-x"]))


def expected_outcomes(g, evidence, what, nodes, edges):
    """Every outcome is drawn on its own; one of its nodes carries name and count"""
    ids = {n["id"]: n for n in nodes}
    expect_eq(len(ids), len(nodes), f"{what}: number of different drawn ids")
    # connected pieces of the drawing
    comp = {i: i for i in ids}

    def root(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for e in edges:
        expect(e["from"] in ids and e["to"] in ids, f"{what}: edge between unknown nodes", e)
        comp[root(e["from"])] = root(e["to"])
    pieces = {}
    for i in ids:
        pieces.setdefault(root(i), []).append(i)
    got = Counter()
    for k, members in pieces.items():
        es = [e for e in edges if root(e["from"]) == k]
        red = {ids[i].get("color") == "red" for i in members} | {e.get("color") == "red" for e in es}
        expect_eq(len(red), 1, f"{what}: piece of the drawing partly marked as evidence")
        red = red.pop()
        heads = [i for i in members if not red and "@" in str(ids[i]["label"])]
        plain, mark = {}, None
        expect_eq(len(heads), 0 if red else 1, f"{what}: outcome labels in one drawn outcome")
        for i in members:
            lab = ids[i]["label"]
            if i in heads:
                lab, mark = lab.split("@", 1)
            plain[i] = lab
        got[(tuple(sorted(plain.values())),
             tuple(sorted((tuple(sorted((plain[e["from"]], plain[e["to"]]))), e["label"]) for e in es)), mark, red)] += 1
    want = Counter()

    def add(s, mark, red):
        objs = rel_objs(s)
        m = model_of(s)
        want[(tuple(sorted(sid(n) for n in m[0])),
              tuple(sorted((tuple(sorted(sid(n) for n in e[0])), str(objs[e[1]])) for e in m[1])), mark, red)] += 1
    for o, c in g.outcomes.items():
        add(o, f"{o.name}({c})", False)
    if evidence is not None:
        add(evidence, None, True)
    expect_eq(sorted(map(repr, got.elements())), sorted(map(repr, want.elements())), f"{what}: drawn outcomes")


def check_many(case, ctx):
    u, net, ev, name, own = case
    p = provider(u)
    _, g = network(u, net, name=own, p=p, naming=True)
    m = gen.net_model(net)
    f, nodes, edges = page(lambda: g.visualize_outcomes(name), "outcomes")
    expect_eq(f, clean(name or own), "file name of drawn outcomes")
    expected_outcomes(g, None, "outcomes", nodes, edges)
    expect_eq(net_of(g), m, "network after drawing")
    ctx.nontrivial = len(edges) > 0 and len(nodes) > 2
    me = gen.model(ev)
    sev = build(fresh(p), ev)
    c = g.conditional_graph(sev, "cond 1")
    f, nodes, edges = page(lambda: c.visualize_outcomes(name) if name else c.visualize_outcomes(), "conditioned outcomes")
    expect_eq(f, clean(name or "cond 1"), "file name of drawn conditioned outcomes")
    expected_outcomes(c, sev, "conditioned outcomes", nodes, edges)
    expect_eq(net_of(c), ref.condition(m, me), "conditioned network after drawing")
    ctx.tag(f"outcomes={min(len(net), 10)}")


# ---- folded view ----------------------------------------------------------------------------------------------------

def check_folded(case, ctx):
    u, net, ev, name, own = case
    p = provider(u)
    _, g = network(u, net, name=own, p=p)
    m = gen.net_model(net)
    fg = g.folded_graph(own)
    before = (fg.nodes, fg.edges, fg.name)
    f, nodes, edges = page(lambda: fg.visualize(name), "a folded view")
    expect_eq(f, clean(name or own), "file name of a drawn folded view")
    total = sum(m.values())
    seen, pairs, objs = {}, {}, {}
    for s, c in m.items():
        for v, x in s[0]:
            seen.setdefault(v, Counter())[x] += c
        for e in s[1]:
            pairs.setdefault(ref.edge_vars(e), Counter())[e] += c
    for o in g.outcomes.samples():
        objs.update(rel_objs(o))
    labels, want_nodes = {}, Counter()
    for v, vals in u[0]:
        if v in seen:
            ps = [f"{x}({c})" for x, c in seen[v].items()] + [f"u({total - sum(seen[v].values())})"]
        else:
            ps = [f"{x}(0)" for x in vals] + [f"u({total})"]
        labels[v] = (f"{v}:", tuple(sorted(ps)))
        want_nodes[(labels[v], None if v in seen else "gray")] += 1
    want_edges = Counter()
    for vs, es in pairs.items():
        want_edges[(tuple(sorted(repr(labels[v]) for v in vs)),
                    ("", tuple(sorted(f"{objs[e[1]]}({c})" for e, c in es.items()))), None)] += 1
    compare(nodes, edges, want_nodes, want_edges, "folded view", lambda x: parts(x, x.index("{")),
            lambda x: parts(x, 0))
    expect_eq((fg.nodes, fg.edges, fg.name), before, "folded view after drawing")
    expect_eq(net_of(g), m, "network after drawing its folded view")
    ctx.nontrivial = bool(pairs) and len(u[0]) > 2
    ctx.tag("unobserved variable" if len(seen) < len(u[0]) else "all observed")


# ---- activation view ------------------------------------------------------------------------------------------------

def check_activation(case, ctx):
    u, net, ev, name, own = case
    p = provider(u)
    _, g = network(u, net, name=own, p=p)
    m, me = gen.net_model(net), gen.model(ev)
    sev = build(fresh(p), ev)
    c = g.conditional_graph(sev, "cond 1")
    a = c.activation_graph(None, own)
    before = (a.nodes, a.edges, a.name)
    f, nodes, edges = page(lambda: a.visualize(name), "an activation view")
    expect_eq(f, clean(name or own), "file name of a drawn activation view")
    weights, rels, _ = reference(m, me, u, None)
    objs = rel_objs(sev)
    for o in g.outcomes.samples():
        objs.update(rel_objs(o))
    labels, want_nodes = {}, Counter()
    for n in a.nodes:  # the printed digits are those of the object, its weights are compared with the reference
        d = dict(n.values)
        for x, w in weights[n.variable].items():
            expect(abs(d[x] - w) < 1e-9, "weight in the drawn view", n)
        labels[n.variable] = (f"{n.variable}:", tuple(sorted(f"{x}={w}" for x, w in d.items())))
        top = max(d.values())
        want_nodes[(labels[n.variable], "green" if n.variable in ref.variables(me)
                    else "#" + format(int(top * 255), "02X") + "0000")] += 1
    evp = ref.linked_pairs(me)
    want_edges = Counter()
    for vs, d in rels.items():
        want_edges[(tuple(sorted(repr(labels[v]) for v in vs)),
                    ("", tuple(sorted(f"{objs[k]}({n})" for k, n in d.items()))), "green" if vs in evp else "red")] += 1
    compare(nodes, edges, want_nodes, want_edges, "activation view", lambda x: parts(x, x.index("{")),
            lambda x: parts(x, 0))
    expect_eq((a.nodes, a.edges, a.name), before, "activation view after drawing")
    ctx.nontrivial = bool(rels) and len(u[0]) > 2
    ctx.tag(f"evidence={len(me[0])}")


def large(n):
    u, net = gen.big(n)
    net = tuple((s, c) for s, c in net)
    return u, net, ((("c", "T"),), ()), None, "g"


# relations that look alike on paper: 1 -> "1" and "1" -> 1
ALIKE = (((("1", ("x", "y")), (1, ("x", "y"))), ("r", "s")), (
    (((("1", "x"), (1, "y")), ((0, 1, 1, "s"),)), 4), ((((1, "y"), ("1", "x")), ((0, 1, 1, "s"),)), 4)),
    (((1, "y"),), ()), None, "g")
SUBS = [
    Sub("many outcomes", None, check_many, 0, 0, corpus=[large(70), large(300)], shards=(2, 3)),
    Sub("many values", None, check_folded, 0, 0, corpus=[large(70), large(300)], shards=(2, 3)),
    Sub("many weights", None, check_activation, 0, 0, corpus=[large(70), large(300)], shards=(2, 3)),
    Sub("sample", one(), check_one, 80, 2500),
    Sub("outcomes", many(), check_many, 80, 2500),
    Sub("folded", many(), check_folded, 80, 2500),
    Sub("activation", many(), check_activation, 80, 2500, corpus=[ALIKE]),
]
