"""Access to the real code of /repo (public API only) and translation of its objects to the reference model"""
from scripts.relnet.graph_components import (BuilderComponentsProvider, DirectedRelation, RelationEdge, ValueNode)
from scripts.relnet.relation_graph import RelationGraph, RelationGraphBuilder
from scripts.relnet.sample_graph import SampleGraph, SampleGraphBuilder
from scripts.relnet.sample_set import SampleSet, SampleSetBuilder
from scripts.relnet.conditional_graph import ConditionalGraph

from .core import Violation, expect
from .gen import rel_key


def provider(u):
    return BuilderComponentsProvider({v: set(vals) for v, vals in u[0]}, set(u[1]))


def graph_builder(u, name=None, as_list=False):
    return RelationGraphBuilder({v: (list(vals) if as_list else set(vals)) for v, vals in u[0]}, set(u[1]), name)


def graph_builder_on(p, name=None):
    return RelationGraphBuilder(name=name, components_provider=p)


def rel_obj(key):
    return key[1] if key[0] == 'U' else DirectedRelation(key[1], key[2], key[3])


def rel_of(relation):
    if isinstance(relation, DirectedRelation):
        return ('D', relation.source_variable, relation.target_variable, relation.relation)
    return ('U', relation)


def node_of(n):
    expect(isinstance(n, ValueNode), "a sample should hold value nodes", n)
    return n.var_val()


def edge_of(e):
    expect(isinstance(e, RelationEdge), "a sample should hold relation edges", e)
    return frozenset(node_of(n) for n in e.endpoints), rel_of(e.relation)


def model_of(s):
    """Reference form of a real sample"""
    if not isinstance(s, SampleGraph):
        raise Violation(f"expected a sample, got {s!r}")
    nodes, edges = [node_of(n) for n in s.nodes], [edge_of(e) for e in s.edges]
    expect(len(set(nodes)) == len(nodes) and len(set(edges)) == len(edges), "sample repeats a value or relation", s)
    return frozenset(nodes), frozenset(edges)


def add_edges(b, s, order=None):
    """Adds the edges of a sample specification to a builder one after another"""
    nodes, edges = s
    for e in (edges if order is None else [edges[k] for k in order]):
        i, j, kind, r = e
        if kind == 0:
            b.add_relation({nodes[i], nodes[j]}, r)
        elif kind == 1:
            b.add_directed_relation(nodes[i], nodes[j], r)
        else:
            b.add_directed_relation(nodes[j], nodes[i], r)
    return b


def edges_arg(s):
    nodes, edges = s
    return frozenset((frozenset((nodes[e[0]], nodes[e[1]])), rel_obj(rel_key(e, nodes))) for e in edges)


def build(b, s, route=0):
    """Builds a sample specification with the given (fresh) sample builder; route picks one of the public ways"""
    nodes, edges = s
    if not nodes:
        return b.build_empty()
    if not edges:
        return b.build_single_node(*nodes[0])
    if route % 3 == 0:
        return add_edges(b, s).build()
    if route % 3 == 1:
        return b.build_from_edges(edges_arg(s))
    return b.build_from_edges(edges_arg(s), validate_connectivity=False)


def fresh(p):
    return SampleGraphBuilder(p)


def name_for(mode, k):
    """Names given by the user: none, one name for everything, numbered, numbered by twos. Names never matter"""
    return (None, None, "same name", f"O_{k + 1}", f"O_{k // 2}", None)[mode % 6]


def network(u, net, name=None, as_list=False, routes=True, p=None, naming=False):
    """Builds a network; returns (builder, RelationGraph)"""
    b = graph_builder(u, name, as_list) if p is None else graph_builder_on(p, name)
    mode = sum(c for _, c in net) + len(net) if naming else 0
    for k, (s, c) in enumerate(net):
        b.add_outcome(build(b.sample_builder().set_name(name_for(mode, k)), s, k if routes else 0), c)
    return b, b.build()


def set_model(samples):
    """Reference form of a collection of real samples with counts"""
    acc = {}
    for s, c in samples.items():
        m = model_of(s)
        expect(m not in acc, "collection lists the same sample twice", s)
        expect(not isinstance(c, float), "counts should stay whole numbers", c)
        acc[m] = c
    return acc


def net_of(graph):
    acc = set_model(graph.outcomes)
    expect(graph.outcomes.length == sum(acc.values()), "total differs from the sum of counts", graph.outcomes.length, acc)
    return acc


def show(m, n=700):
    """Readable form of a reference collection or sample"""
    if isinstance(m, dict):
        return "{" + ", ".join(sorted(f"{show(k)}: {v}" for k, v in m.items()))[:n] + "}"
    return str(sorted(map(str, m[1])) or sorted(map(str, m[0])))


def expect_net(got, want, what):
    if got != want:
        missing = {k: v for k, v in want.items() if got.get(k) != v}
        extra = {k: v for k, v in got.items() if want.get(k) != v}
        raise Violation(f"{what}: missing or different {show(missing)}, unexpected {show(extra)}")


__all__ = [n for n in dir() if not n.startswith('_')]
