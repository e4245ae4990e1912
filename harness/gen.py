"""Generators (Hypothesis) of declarations, samples and networks as plain literals, and their translation to the real
objects and to the reference model.

universe = (variables, relations): variables = ((name, (value, ...)), ...), relations = (r, ...)
sample   = (nodes, edges): nodes = ((variable, value), ...), edges = ((i, j, kind, r), ...), i and j index nodes,
           kind 0: plain relation, 1: directed i -> j, 2: directed j -> i. Edge k < len(nodes)-1 is the tree edge that
           attaches node k+1, so that adding the edges in order keeps the sample connected.
network  = ((sample, count), ...)
"""
from hypothesis import strategies as st

from . import ref

BIG = 2 ** 61 - 1
TWINS = [-1, -2] + [x for k in range(7) for x in (k, k + BIG)]  # different numbers, in pairs of the same hash
VAR_KINDS = {
    "twin": TWINS,
    "abc": list("abcdefghijklmnop"),
    "long": ["VAR_1", "VAR_2", "VAR_3", "VAR_12", "ARV_1", "X", "VAR", "long name", "var_1", "VAR_1 ", "VAR__1", "x",
             "V", "VAR_21", "X_", "1_VAR"],
    "int": [0, 1, 2, 3, 10, 11, -1, 7, 100, -2, 2 ** 61 - 1, 5, 12, 20, 21, -10],
    "tuple": [("a", 0), ("a", 1), ("b", 0), (), (1, 2), ("c",), (0,), ("b", ("c",)), ("a", 2), ("a", "0"), (2, 1), ("",),
              ("ab",), ("b", 1), ((),), ("c", "c")],
    "odd": ["ab", "ba", "a", "b", "", "a_1", "u", "unobserved", "O_1", "r", " ", "aa", "A", "{a}", "a->b", "_"],
    # names which look alike as text although they differ
    "mix": ["1", 1, "a", "a_1", 11, "b", "11", "b_", (1,), "(1,)", "a_b", 0, "0", "('a', 1)", ("a", 1), "None"],
    "glue": ["a", "a_b", "a_b_c", "b", "b_a", "_", "c", "a_", "b_c", "_b", "c_", "a__b", "_a", "a_c", "b_", "_c"],
    # long names, of which only the end or the start differs
    "wordy": [f"variable of the network with quite a long name which goes on {k}" for k in "abcdefgh"] + [
        f"{k}" + " and on" * 20 for k in "ijklmnop"],
    # anything that can be a key of a dictionary
    "any": [None, frozenset({1, 2}), 1, 2, frozenset({1}), "None", 0.5, b"a", (None,), frozenset(), -0.5, "1", 3,
            frozenset({2, 3}), b"", 1.5],
}
TEXT_KINDS = ["abc", "long"]
VAL_KINDS = {
    "twin": TWINS[:10],
    "TF": ["T", "F", "M", "N", "O", "P", "Q", "R", "S", "U"],
    "int": [0, 1, 2, 3, 4, -1, -2, 10, 11, 2 ** 61 - 1],
    "bool": [False, True, "x", "y", "z", "True", "False", "", 2, "T"],
    "long": ["VAL_1", "VAL_2", "VAL_3", "VAL_21", "value 5", "VAL", "val_1", "VAL_1 ", "VAL_12", "1"],
    "odd": ["", "1", "_", "a", "r", "b", "a_1", "None", "{", "O_1"],
    "tuple": [(), (0,), ("a", 1), (1, 0), ("a",), ("a", "1"), (0, 1), ((),), ("b", 1), ("",)],
    "mix": [1, "1", "b", "b_c", "_c", 0, "0", (1,), "(1,)", "_1"],
    "glue": ["b", "b_c", 1, "1", "_c", "c", "_b", "", "a", "_"],
    "wordy": [f"value of the variable with quite a long name which goes on for {k} days" for k in range(5)] + [
        f"{k}" + "_longer" * 20 for k in range(5)],
    "num": [1, 11, 111, 0, 10, 101, 110, 100, 1111, 1011],
    "any": [None, "None", frozenset(), 0.5, b"a", frozenset({1, 2}), (None,), -0.5, "b'a'", frozenset({1})],
}
REL_KINDS = {
    "twin": TWINS[:6],
    "rst": ["r", "s", "t", "q", "p", "o"],
    "int": [0, 1, 2, 3, -1, 10],
    "odd": ["", "rel one", "a", "a->b", "A", "{r}"],
    "tuple": [("r", 1), ("r", 2), (), ("s",), ("a", "b", "r"), ("b", "a", "r")],
    "mix": ["r", "r[a->b]", 1, "1", "r[b->a]", "1[a->b]"],
    "wordy": [f"relation with quite a long name which goes on to {k}" for k in "xyz"] + [k + "_to" * 30 for k in "uvw"],
    "any": [None, "None", frozenset({1}), 0.5, (None,), b"r"],
}
USUAL_VARS = ["abc", "abc", "long", "int", "tuple", "odd", "mix", "glue", "wordy", "any", "twin"]
USUAL_VALS = ["TF", "TF", "int", "bool", "long", "odd", "tuple", "mix", "glue", "wordy", "any", "twin"]
USUAL_RELS = ["rst", "rst", "int", "odd", "tuple", "mix", "wordy", "any", "twin"]
COUNTS = st.one_of(st.integers(1, 9), st.integers(1, 9),
                   st.sampled_from([1, 1, 2, 10, 97, 100, 1000, 10 ** 6, 10 ** 9, 2 ** 53 + 1, 2 ** 61 - 1, 2 ** 61]))
SMALL_COUNTS = st.integers(1, 9)


def turn(xs, k):
    return xs[k:] + xs[:k]


@st.composite
def universes(draw, min_vars=1, max_vars=5, max_vals=3, max_rels=3, min_vals=1, min_rels=1, kinds=None, text=False,
              val_kinds=None, rel_kinds=None, wide_vars=0, wide_vals=0):
    """wide_vars / wide_vals: in about one case out of twelve this many more variables / values are allowed"""
    if text:
        vk = draw(st.sampled_from(TEXT_KINDS))
        lk, rk = "TF", "rst"
    else:
        vk = draw(st.sampled_from(kinds or USUAL_VARS))
        lk = draw(st.sampled_from(val_kinds or USUAL_VALS))
        rk = draw(st.sampled_from(rel_kinds or USUAL_RELS))
    if wide_vars or wide_vals:
        w = draw(st.integers(0, 11))
        max_vars += wide_vars if w in (10, 11) else 0
        max_vals += wide_vals if w in (9, 11) else 0
    n = draw(st.integers(min_vars, max_vars))
    off = draw(st.integers(0, max(0, len(VAR_KINDS[vk]) - n)))
    names = VAR_KINDS[vk][off:off + n]
    own = draw(st.booleans()) and lk in ("TF", "long")  # values that name their variable, as in the examples
    rot = draw(st.integers(0, 19))  # mostly from the start of the list of values / relations
    vs = []
    for nm in names:
        k = draw(st.integers(min_vals, max_vals))
        vals = turn(VAL_KINDS[lk], rot - 10 if rot >= 10 else 0)
        while len(vals) < k:
            vals = vals + [f"more {len(vals)}"]
        vals = vals[:k]
        vs.append((nm, tuple(f"{nm}({v})" for v in vals) if own else tuple(vals)))
    rels = tuple(turn(REL_KINDS[rk], rot % 6 if rot >= 10 else 0)[:draw(st.integers(min_rels, max_rels))])
    return tuple(vs), rels


@st.composite
def samples(draw, u, min_nodes=1, max_nodes=5, names=None, directed=None, extra=True):
    vs = dict(u[0])
    pool = list(names) if names is not None else list(vs)
    k = draw(st.integers(min(min_nodes, len(pool)), min(max_nodes, len(pool))))
    if names is not None and k == len(pool):
        chosen = pool
    else:
        chosen = draw(st.lists(st.sampled_from(range(len(pool))), min_size=k, max_size=k, unique=True))
        chosen = [pool[i] for i in chosen]
    nodes = tuple((v, draw(st.sampled_from(vs[v]))) for v in chosen)
    if directed is None:
        directed = draw(st.booleans())
    edges = []
    for t in range(1, k):
        p = draw(st.integers(0, t - 1))
        edges.append((p, t))
    if extra and k > 2:
        others = [(i, j) for j in range(k) for i in range(j) if (i, j) not in edges]
        mask = draw(st.integers(0, 2 ** len(others) - 1))
        edges += [e for b, e in enumerate(others) if mask >> b & 1]
    full = []
    for i, j in edges:
        kind = draw(st.integers(0, 2)) if directed else 0
        full.append((i, j, kind, draw(st.sampled_from(u[1]))))
    return nodes, tuple(full)


@st.composite
def multi_samples(draw, u, max_nodes=6):
    """Connected samples in which a variable may occur with several values (the builder allows it)"""
    cells = [(v, x) for v, vals in u[0] for x in vals]
    idx = draw(st.lists(st.integers(0, len(cells) - 1), min_size=1, max_size=min(max_nodes, len(cells)), unique=True))
    nodes, edges = [cells[idx[0]]], []
    for i in idx[1:]:
        cand = [k for k, n in enumerate(nodes) if n[0] != cells[i][0]]
        if cand:
            edges.append((draw(st.sampled_from(cand)), len(nodes)))
            nodes.append(cells[i])
    others = [(i, j) for j in range(len(nodes)) for i in range(j) if (i, j) not in edges and nodes[i][0] != nodes[j][0]]
    if others:
        mask = draw(st.integers(0, 2 ** len(others) - 1))
        edges += [e for b, e in enumerate(others) if mask >> b & 1]
    directed = draw(st.booleans())
    return tuple(nodes), tuple((i, j, draw(st.integers(0, 2)) if directed else 0, draw(st.sampled_from(u[1])))
                               for i, j in edges)


@st.composite
def related(draw, u, s):
    """A sample obtained from s by a small change (or an unrelated one)"""
    nodes, edges = s
    what = draw(st.integers(0, 6))
    if what == 6:  # everything with the same hash, but something else
        values = {v: {hash(x): x for x in vals} for v, vals in u[0]}
        rels = {hash(r): r for r in u[1]}
        changed = tuple((v, values[v][hash(x)]) for v, x in nodes)
        return (changed if len(set(changed)) == len(changed) else nodes), tuple(
            e[:3] + (rels[hash(e[3])],) for e in edges)
    if what == 0 or not edges:
        return draw(samples(u))
    if what == 1:  # prefix
        k = draw(st.integers(1, len(nodes)))
        return nodes[:k], tuple(e for e in edges if e[0] < k and e[1] < k)
    if what == 2:  # one value changed
        i = draw(st.integers(0, len(nodes) - 1))
        v = nodes[i][0]
        changed = nodes[:i] + ((v, draw(st.sampled_from(dict(u[0])[v]))),) + nodes[i + 1:]
        return (changed if len(set(changed)) == len(changed) else nodes), edges
    if what == 3:  # one relation changed
        i = draw(st.integers(0, len(edges) - 1))
        a, b, k, _ = edges[i]
        return nodes, edges[:i] + ((a, b, draw(st.integers(0, 2)), draw(st.sampled_from(u[1]))),) + edges[i + 1:]
    if what == 4:  # only the tree
        return nodes, edges[:len(nodes) - 1]
    return nodes, edges


@st.composite
def networks(draw, u, min_out=1, max_out=8, max_nodes=4, counts=COUNTS, directed=None, extra=True, min_nodes=1,
             many=0):
    """many: in about one case out of twelve up to this many outcomes"""
    if many and draw(st.integers(0, 11)) == 11:
        min_out, max_out = max_out, many
    if directed is None:
        directed = draw(st.booleans())
    n = draw(st.integers(min_out, max_out))
    out, seen = [], set()
    again = draw(st.sampled_from([0, 1, 1, 3]))
    for _ in range(n):
        if out and draw(st.integers(0, 3)) < again:  # other values on the links of an earlier outcome
            (nodes, edges), _c = out[draw(st.integers(0, len(out) - 1))]
            s = tuple((v, draw(st.sampled_from(dict(u[0])[v]))) for v, _ in nodes), edges
        else:
            s = draw(samples(u, min_nodes, max_nodes, directed=directed, extra=extra))
        m = model(s)
        if m not in seen:
            seen.add(m)
            out.append((s, draw(counts)))
    return tuple(out)


@st.composite
def uni_and_net(draw, max_vars=5, max_vals=3, **kw):
    ukw = {k: kw.pop(k) for k in list(kw) if k in ("min_vars", "text", "kinds", "max_rels", "val_kinds", "rel_kinds",
                                                   "min_vals", "wide_vars", "wide_vals")}
    u = draw(universes(max_vars=max_vars, max_vals=max_vals, **ukw))
    return u, draw(networks(u, **kw))


# ---- factorised networks ------------------------------------------------------------------------------------------

@st.composite
def factor_structures(draw, max_vars, max_factors, max_factor_vars=3):
    """A linked list of factors over variable indices: (variables, ((pair), ...)) with disjoint linked pairs"""
    n = draw(st.integers(1, max_vars))
    used_pairs, single, fs = set(), set(), []
    covered = [0]
    for t in range(1, n):  # spanning structure first, so that the factors are linked
        if fs and draw(st.integers(0, 3)) == 0 and len(fs[-1][0]) < max_factor_vars:
            p = draw(st.sampled_from(fs[-1][0]))
            fs[-1] = (fs[-1][0] + (t,), fs[-1][1] + ((p, t),))
        else:
            p = draw(st.sampled_from(covered))
            fs.append(((p, t), ((p, t),)))
        used_pairs.add((p, t))
        covered.append(t)
    if not fs:
        fs.append(((0,), ()))
        single.add(0)
    for _ in range(draw(st.integers(0, max_factors - len(fs))) if len(fs) < max_factors else 0):
        what = draw(st.integers(0, 3))
        if what == 0:
            v = draw(st.integers(0, n - 1))
            if v not in single:
                single.add(v)
                fs.append(((v,), ()))
            continue
        free = [(i, j) for j in range(n) for i in range(j) if (i, j) not in used_pairs]
        if not free:
            continue
        a, b = draw(st.sampled_from(free))
        vs, ps = (a, b), ((a, b),)
        used_pairs.add((a, b))
        if what == 3:
            free = [(i, j) for (i, j) in free if (i, j) != (a, b) and ((i in vs) != (j in vs))]
            if free:
                c = draw(st.sampled_from(free))
                used_pairs.add(c)
                ps += (c,)
                vs += tuple(x for x in c if x not in vs)
        fs.append((vs, ps))
    return n, tuple(fs)


@st.composite
def factor_nets(draw, max_vars=4, max_factors=5, max_vals=2, max_factor_vars=3, counts=COUNTS, full=None, max_rows=60,
                kinds=None, directed=None):
    """(universe, network) where the network is factorised, its factors linked and agreeing on the values"""
    n, fs = draw(factor_structures(max_vars, max_factors, max_factor_vars))
    u = draw(universes(min_vars=n, max_vars=n + 1, max_vals=max_vals, max_rels=2, kinds=kinds))
    names = [v for v, _ in u[0]][:n]
    vals = dict(u[0])
    # values actually used: all factors see the same ones
    used = {}
    for nm in names:
        k = draw(st.integers(1, len(vals[nm])))
        used[nm] = vals[nm][:k]
    if full is None:
        full = draw(st.booleans())
    if directed is None:
        directed = draw(st.booleans())
    out = []
    for vs, ps in fs:
        from itertools import product
        kinds_ = [(draw(st.integers(0, 2)) if directed else 0, draw(st.sampled_from(u[1]))) for _ in ps]
        rows = list(product(*[used[names[v]] for v in vs]))
        if not full and len(rows) > 1:
            keep = draw(st.lists(st.integers(0, len(rows) - 1), min_size=1, max_size=len(rows), unique=True))
            picked = [rows[i] for i in sorted(keep)]
            for pos, v in enumerate(vs):  # make sure every used value is still seen
                for val in used[names[v]]:
                    if not any(r[pos] == val for r in picked):
                        picked.append(draw(st.sampled_from([r for r in rows if r[pos] == val])))
        else:
            picked = rows
        mixed = draw(st.integers(0, 5)) == 0
        for r in picked:
            nodes = tuple((names[v], x) for v, x in zip(vs, r))
            edges = []
            for (a, b), (kd, rel) in zip(ps, kinds_):
                if mixed:
                    rel = draw(st.sampled_from(u[1]))
                edges.append((vs.index(a), vs.index(b), kd, rel))
            out.append(((nodes, tuple(edges)), draw(counts)))
            if mixed and edges and len(u[1]) > 1:  # same values, another relation
                i, j, kd, rel = edges[0]
                out.append(((nodes, ((i, j, kd, u[1][0] if rel != u[1][0] else u[1][1]),) + tuple(edges[1:])),
                            draw(counts)))
    order = draw(st.integers(0, 2))
    if order == 1:
        out.reverse()
    elif order == 2:
        out = out[1::2] + out[::2]
    return u, tuple(out)


# ---- translation --------------------------------------------------------------------------------------------------

def rel_key(spec_edge, nodes):
    i, j, kind, r = spec_edge
    if kind == 0:
        return ('U', r)
    a, b = nodes[i][0], nodes[j][0]
    return ('D', a, b, r) if kind == 1 else ('D', b, a, r)


def model(s):
    nodes, edges = s
    return ref.sample(nodes, [ref.edge(nodes[e[0]], nodes[e[1]], rel_key(e, nodes)) for e in edges])


def net_model(net):
    acc = {}
    for s, c in net:
        m = model(s)
        acc[m] = acc.get(m, 0) + c
    return acc


def twin_net(u, net):
    """The network with each value and relation replaced by another one of the same hash, None if there is none"""
    def other(x, xs):
        return next((y for y in xs if y != x and hash(y) == hash(x)), x)
    vals = dict(u[0])
    new = tuple(((tuple((v, other(x, vals[v])) for v, x in nodes),
                  tuple(e[:3] + (other(e[3], u[1]),) for e in edges)), c) for (nodes, edges), c in net)
    return new if new != net else None


def siblings(u, net):
    """Other networks of the same declaration: other values of the same hashes (if any), the counts passed around"""
    twin = twin_net(u, net)
    counts = [c for _, c in net]
    turned = tuple((s, c) for (s, _), c in zip(net, counts[1:] + counts[:1]))
    return ([twin] if twin else []) + ([turned] if turned != net else [])


def big(n, values=3):
    """A deterministic network of n outcomes: one variable with n values, a few small ones, many linked pairs"""
    u = ((("a", tuple(range(n))), ("b", tuple(range(values))), ("c", ("T", "F")), ("d", (0,))), ("r", "s"))
    net = []
    for i in range(n):
        full = (("a", i), ("b", i * 7 % values), ("c", "TF"[i // 3 % 2]), ("d", 0))
        k = 1 + i % 4
        edges = tuple((j, j + 1, (i + j) % 3 if i % 2 else 0, "rs"[(i + j) % 2]) for j in range(k - 1))
        net.append(((full[:k], edges), 1 + i % 5))
    return u, tuple(net)


def wide(n, shape, k=0, start=0):
    """A deterministic sample of n of the 44 variables of WIDE: a tree of the shape, some more relations, directed if k"""
    nodes = tuple((f"v{(start + i * 7) % 44}", (start + i * 7) % 44 * (k + 1) % 3) for i in range(n))
    par = {"chain": lambda i: i - 1, "tree": lambda i: (i - 1) // 2, "star": lambda i: 0}[shape]
    edges = [(par(i), i, (i + k) % 3 if k else 0, "rs"[i // 2 % 2]) for i in range(1, n)]
    edges += [(i, i + 5, (i + k) % 3 if k else 0, "rs"[i % 2]) for i in range(0, n - 5, 6) if par(i + 5) != i]
    return nodes, tuple(edges)


WIDE = (tuple((f"v{i}", (0, 1, 2)) for i in range(44)), ("r", "s"))
