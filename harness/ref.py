"""Reference model of samples and networks, written independently of the code under test.

A sample is a pair (nodes, edges) of frozensets: node = (variable, value),
edge = (frozenset of two nodes, relation key), relation key = ('U', r) or ('D', source_variable, target_variable, r).
A network / collection is a dict sample -> count.
"""
from collections import Counter
from fractions import Fraction
from itertools import combinations, permutations, product

EMPTY = (frozenset(), frozenset())


def sample(nodes, edges=()):
    return frozenset(nodes), frozenset(edges)


def edge(n1, n2, rel):
    return frozenset((n1, n2)), rel


def elems(s):
    return frozenset(('n', n) for n in s[0]) | frozenset(('e', e) for e in s[1])


def variables(s):
    return frozenset(v for v, _ in s[0])


def assignment(s):
    return dict(s[0])


def union(samples):
    ns, es = set(), set()
    for n, e in samples:
        ns |= n
        es |= e
    return frozenset(ns), frozenset(es)


def edge_vars(e):
    return frozenset(v for v, _ in e[0])


def linked_pairs(s):
    return frozenset(edge_vars(e) for e in s[1])


def is_connected(nodes, edges):
    nodes = set(nodes)
    if len(nodes) <= 1:
        return True
    parent = {n: n for n in nodes}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    for ep, _ in edges:
        a, b = tuple(ep)
        parent[find(a)] = find(b)
    return len({find(n) for n in nodes}) == 1


def contains(big, small):
    return small[0] <= big[0] and small[1] <= big[1]


def similarity(a, b):
    x, y = elems(a), elems(b)
    return Fraction(len(x & y), len(x | y))


def consistent(samples):
    """No variable has two values in these samples"""
    seen = {}
    for s in samples:
        for var, val in s[0]:
            if var in seen and seen[var] != val:
                return False
            seen.setdefault(var, val)
    return True


def allowed(e, rel_filter):
    return not rel_filter or e[1] in rel_filter


def layers(s, start, rel_filter):
    """Distance of every reachable node from start over allowed edges"""
    dist = {n: 0 for n in start}
    frontier = set(start)
    d = 0
    while frontier:
        d += 1
        nxt = set()
        for e in s[1]:
            if allowed(e, rel_filter):
                a, b = tuple(e[0])
                for x, y in ((a, b), (b, a)):
                    if x in frontier and y not in dist:
                        nxt.add(y)
        for n in nxt:
            dist[n] = d
        frontier = nxt
    return dist


def external(s, start, rel_filter):
    dist = layers(s, start, rel_filter)
    acc = {}
    for e in s[1]:
        if allowed(e, rel_filter):
            a, b = tuple(e[0])
            for x, y in ((a, b), (b, a)):
                if x in dist and y in dist and dist[y] == dist[x] + 1:
                    acc.setdefault(y, set()).add(e)
    return acc


def belt(s, start, rel_filter):
    acc = {}
    for e in s[1]:
        if allowed(e, rel_filter):
            out = [n for n in e[0] if n not in start]
            if len(out) == 1:
                acc.setdefault(out[0], set()).add(e)
    return acc


def group(samples):
    """Partition of samples: list of sets"""
    items = list(samples)
    parent = list(range(len(items)))

    def find(i):
        while parent[i] != i:
            i = parent[i]
        return i

    keys = [linked_pairs(s) if s[1] else frozenset([('single', variables(s))]) for s in items]
    for i, j in combinations(range(len(items)), 2):
        if keys[i] & keys[j]:
            parent[find(i)] = find(j)
    groups = {}
    for i, s in enumerate(items):
        groups.setdefault(find(i), set()).add(s)
    return list(groups.values())


def group_vars(g):
    return frozenset(v for s in g for v in variables(s))


def is_factorized(net):
    if any(not s[0] for s in net):
        return False
    ks = {linked_pairs(s) for s in net if s[1]}
    return all(a == b or not (a & b) for a in ks for b in ks)


def factors(net):
    acc = {}
    for s, c in net.items():
        key = linked_pairs(s) if s[1] else ('single', variables(s))
        acc.setdefault(key, {})[s] = c
    return list(acc.values())


def natural_join(fs):
    """All choices of one outcome per factor that agree on shared variables, with the product of counts"""
    partial = [(EMPTY, {}, 1)]
    for f in fs:
        nxt = []
        for s, asg, c in partial:
            for o, oc in f.items():
                oa = assignment(o)
                if all(asg.get(k, v) == v for k, v in oa.items()):
                    nxt.append((union([s, o]), {**asg, **oa}, c * oc))
        partial = nxt
    res = {}
    for s, _, c in partial:
        res[s] = res.get(s, 0) + c
    return res


def factors_linked(fs):
    """The factors form one component through shared variables"""
    if not fs:
        return True
    vs = [frozenset(v for s in f for v in variables(s)) for f in fs]
    seen, todo = {0}, [0]
    while todo:
        i = todo.pop()
        for j in range(len(fs)):
            if j not in seen and vs[i] & vs[j]:
                seen.add(j)
                todo.append(j)
    return len(seen) == len(fs)


def values_agree(fs):
    """Every factor that mentions a variable has the same set of values of it"""
    seen = {}
    for f in fs:
        here = {}
        for s in f:
            for var, val in s[0]:
                here.setdefault(var, set()).add(val)
        for var, vals in here.items():
            if seen.setdefault(var, vals) != vals:
                return False
    return True


def join_on(net, var):
    """Inner join of the groups of outcomes containing var. None if two groups span the same variables"""
    rest = {s: c for s, c in net.items() if var not in variables(s)}
    have = {s: c for s, c in net.items() if var in variables(s)}
    gs = group(have)
    if len({group_vars(g) for g in gs}) != len(gs):
        return None
    if not gs:
        return rest
    joined = Counter()
    for combo in product(*gs):
        if consistent(combo):
            c = 1
            for s in combo:
                c *= have[s]
            joined[union(combo)] += c
    res = Counter(rest)
    res.update(joined)
    return dict(res)


def join_on_orders(net, vs):
    """All results of joining on the variables one after another in some order; None if some step is out of scope"""
    results = []
    for order in permutations(vs):
        cur = net
        for v in order:
            cur = join_on(cur, v)
            if cur is None:
                return None
        if cur not in results:
            results.append(cur)
    return results


def condition(net, ev):
    return {s: c for s, c in net.items() if contains(s, ev) or not (variables(s) & variables(ev))}


def total(net):
    return sum(net.values())


def value_counts(net):
    acc = {}
    for s, c in net.items():
        for var, val in s[0]:
            acc.setdefault(var, Counter())[val] += c
    return acc


def all_samples(vars_, rels):
    """Every connected sample over every non-empty subset of variables (independent enumeration)"""
    res = set()
    names = [v for v, _ in vars_]
    vals = dict(vars_)
    for k in range(1, len(names) + 1):
        for sub in combinations(names, k):
            pairs = list(combinations(sub, 2))
            for choice in product(range(len(rels) + 1), repeat=len(pairs)):
                used = [(p, rels[r - 1]) for p, r in zip(pairs, choice) if r]
                if not _vars_connected(sub, [p for p, _ in used]):
                    continue
                for asg in product(*[vals[v] for v in sub]):
                    m = dict(zip(sub, asg))
                    res.add(sample(m.items(), [edge((a, m[a]), (b, m[b]), ('U', r)) for (a, b), r in used]))
    return res


def _vars_connected(vs, pairs):
    seen, todo = {vs[0]}, [vs[0]]
    while todo:
        x = todo.pop()
        for a, b in pairs:
            for p, q in ((a, b), (b, a)):
                if p == x and q not in seen:
                    seen.add(q)
                    todo.append(q)
    return len(seen) == len(vs)


def count_all_samples(sizes, n_rel):
    """Closed formula: sum over subsets of variables of (connected labelled graphs with n_rel edge colours) * values"""
    from math import comb, prod
    n = len(sizes)
    conn = [0] * (n + 1)
    for k in range(1, n + 1):
        g = (n_rel + 1) ** (k * (k - 1) // 2)
        for i in range(1, k):
            g -= comb(k - 1, i - 1) * conn[i] * (n_rel + 1) ** ((k - i) * (k - i - 1) // 2)
        conn[k] = g
    return sum(conn[k] * prod(sub) for k in range(1, n + 1) for sub in combinations(sizes, k))


def text_of(m):
    """The documented textual form, computed from the reference form"""
    def node(n):
        return f"({n[0]}_{n[1]})"

    def rel(k):
        return str(k[1]) if k[0] == 'U' else f"{k[3]}[{k[1]}->{k[2]}]"

    nodes, edges = m
    if edges:
        parts = []
        for ep, k in edges:
            a, b = sorted(node(n) for n in ep)
            parts.append(f"{a}--{{{rel(k)}}}--{b}")
        return "{" + "; ".join(sorted(parts)) + "}"
    return "{" + "".join(node(n) for n in nodes) + "}"


def fail(msg):
    """The reference contradicts itself: an error of the check, never a violation"""
    raise RuntimeError(msg)
