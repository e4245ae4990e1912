SG, SS, SP, GC, RG, CG, FG, AG, VG = ["relnet/%s.py" % n for n in (
    "sample_graph", "sample_set", "sample_space", "graph_components", "relation_graph", "conditional_graph",
    "folded_graph", "activation_graph", "variables_graph")]
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


N = '''def net(variables, *rows, rels=("r", "s")):
    b = RelationGraphBuilder({k: set(v) for k, v in variables.items()}, set(rels), "net")
    for vals, count in rows:
        sb = b.sample_builder()
        if len(vals) == 1:
            s = sb.build_single_node(*vals[0])
        else:
            for x, y in zip(vals, vals[1:]):
                sb.add_relation({x, y}, rels[0])
            s = sb.build()
        b.add_outcome(s, count)
    return b.build()


'''

bug("c12-evidence-falsy", "C12",
    [(RG, "if evidence.is_subgraph(outcome) or evidence.included_variables.isdisjoint(outcome.included_variables)}",
      "if evidence.is_subgraph(outcome) or not any(outcome.value_for_variable(v) for v in evidence.included_variables)}")],
    N + """g = net({"a": {0, 1}, "b": {0, 1}}, ([("a", 0), ("b", 0)], 1), ([("a", 1), ("b", 1)], 5))
c = g.conditional_graph(g.sample_builder().build_single_node("a", 1))
assert c.outcomes.length == 5, c.outcomes.length""",
    "values that are false in Python: 0, False, empty text", "outcomes contradicting the evidence survive", also=["C10"])

bug("c12-observed-skipped", "C12",
    [(RG, "        for var, values in self.included_variables():\n            factors_for_var",
      "        for var, values in self.included_variables():\n            if len(values) == 1 and len(factors) > 3:\n                continue\n            factors_for_var")],
    N + """g = net({k: {0, 1} for k in "abcde"}, *[([(x, i), (y, j)], 1 + i + 2 * j) for x, y in ("ab", "bc", "cd", "de")
                                     for i in (0, 1) for j in (0, 1)])
c = g.conditional_graph(g.sample_builder().build_single_node("c", 0)).relation_graph()
j = c.make_joined()
assert len(j.outcomes.samples()) == 16""",
    "a value observed before joining that links two parts of a larger network", "joining fails", also=["C11"])

bug("c11-joined-already", "C11",
    [(RG, "        Make relation graph which contains joined distribution from this factorized relation graph\n        :return: New instance of relation graph which contains joined distribution\n        \"\"\"\n",
      "        Make relation graph which contains joined distribution from this factorized relation graph\n        :return: New instance of relation graph which contains joined distribution\n        \"\"\"\n        if self.is_joined():\n            return RelationGraph(self._components_provider, name if name else self.name, self.outcomes)\n")],
    N + """g = net({k: {0} for k in "abcd"}, ([(k, 0) for k in "abcd"], 2), ([(k, 0) for k in "bdac"], 3))
assert g.make_joined().outcomes.length == 6""",
    "two factors over the same variables with different links (four variables or more)", "the factors are not multiplied")

bug("c13-falsy-first", "C13",
    [(SS, "                if node.variable in var_acc:\n                    if var_acc[node.variable] != node.value:",
      "                if var_acc.get(node.variable):\n                    if var_acc[node.variable] != node.value:")],
    N + """g = net({"a": {0, 1}, "b": {0}, "c": {0}}, ([("a", 0), ("b", 0)], 3), ([("a", 1), ("b", 0)], 3),
        ([("a", 0), ("c", 0)], 2), ([("a", 1), ("c", 0)], 2))
assert g.joined_on_variables({"a"}).outcomes.length == 12""",
    "values that are false in Python", "joining fails on disagreeing outcomes", also=["C07"])

bug("c13-names-as-text", "C13",
    [(RG, "join_outcomes = outcomes_acc.build().filter_samples(lambda o: join_var in o.included_variables)",
      "join_outcomes = outcomes_acc.build().filter_samples(\n                lambda o: str(join_var) in map(str, o.included_variables))")],
    N + """g = net({"1": {0}, 1: {0}, "b": {0}, "c": {0}}, ([("1", 0), ("b", 0)], 3), ([(1, 0), ("c", 0)], 2))
assert g.joined_on_variables({1}).outcomes == g.outcomes""",
    "two variables that look alike as text", "outcomes of another variable are joined or joining fails")

bug("c13-memo-first-variables", "C13",
    [(RG, "        join_variables = variables if (variables is not None) else {v for v, _ in self.included_variables()}\n",
      "        join_variables = variables if (variables is not None) else {v for v, _ in self.included_variables()}\n        if not hasattr(self, '_joins'):\n            self._joins = {}\n        if len(join_variables) in self._joins:\n            return RelationGraph(self._components_provider, name if name else self.name, self._joins[len(join_variables)])\n"),
     (RG, "            outcomes_acc.add_all(joined_outcomes)\n\n", "            outcomes_acc.add_all(joined_outcomes)\n\n        self._joins[len(join_variables)] = outcomes_acc.build()\n")],
    N + """g = net({"a": {0}, "b": {0}, "c": {0}, "d": {0}}, ([("a", 0), ("b", 0)], 2), ([("b", 0), ("c", 0)], 3), ([("c", 0), ("d", 0)], 5))
x, y = g.joined_on_variables({"b"}), g.joined_on_variables({"c"})
assert x.outcomes != y.outcomes""",
    "two joins on different variables of one network object", "the second answer is the first one")

bug("c14-marginal-memo", "C14",
    [(SP, "        variables_to_check = variables if variables else {v for v, _ in self._components_provider.variables()}\n",
      "        variables_to_check = variables if variables else {v for v, _ in self._components_provider.variables()}\n        key = (frozenset(variables_to_check), self._name)\n        if not unobserved and key in _MARGINALS and _MARGINALS[key][0] == self.outcomes.length:\n            return {v: dict(d) for v, d in _MARGINALS[key][1].items()}\n"),
     (SP, "        return norm_acc\n", "        if not unobserved:\n            _MARGINALS[key] = (self.outcomes.length, {v: dict(d) for v, d in norm_acc.items()})\n        return norm_acc\n"),
     (SP, "class SampleSpace:\n", "_MARGINALS: Dict[Any, Any] = {}\n\n\nclass SampleSpace:\n")],
    N + """g = net({"a": {0, 1}}, ([("a", 0)], 1), ([("a", 1)], 3))
h = net({"a": {0, 1}}, ([("a", 0)], 3), ([("a", 1)], 1))
assert g.marginal_variables_probability() != h.marginal_variables_probability()""",
    "two networks with the same name and number of outcomes", "the second gets the marginals of the first", also=["C12"])
