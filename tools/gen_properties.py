#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
R = "Python/research/scripts/relnet/"
D = "Python/research/scripts/demo/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    **({"observe_at": observe} if observe else {})}})


p("C01", "A sample builder accepts exactly the steps that keep the sample well formed",
  "Whatever relations are offered to a sample builder, in whatever order, it accepts one exactly when it links two declared values of two different variables by a declared relation (a directed relation names exactly those two variables), touches what was added before unless it is the first, and no relation between those two values exists yet. A refused step raises an error and leaves the builder as it was; the built sample holds exactly the accepted values and relations, so it is connected. Building in one go from a set of relations, or from one value, obeys the same rules (undeclared, unconnected, same-variable or doubled relations are refused, everything else is accepted whatever its size).",
  ["histories", "inputs"], "every sequence of builder steps, valid and invalid, over every declared set of variables, values and relations",
  "The tests try a dozen hand written builder calls; the rule ranges over all histories of accepted and refused steps.",
  [R + "sample_graph.py", R + "graph_components.py"],
  [("endpoint validation, connectivity and duplicate checks before mutation", R + "sample_graph.py: SampleGraphBuilder.add_relation / build_from_edges / validate_endpoints / is_edges_connected"),
   ("declared variables, values and relations only", R + "graph_components.py: BuilderComponentsProvider.get_node / get_edge")],
  ["SampleGraphBuilder.build", "SampleGraph.nodes/edges"])

p("C02", "Equality and hash follow content; finished objects never change",
  "Values, relations, samples, sample collections and the folded or activated views are equal exactly when their content is equal, whatever the order, name, builder or route they were made with, and equal objects have equal hashes. One declaration of variables always hands out one and the same object for the same value or relation. A finished sample, collection or network never changes, whatever is done afterwards to the builders, dictionaries, copies or results obtained from it.",
  ["inputs", "histories"], "all pairs of objects built along different routes, and all later uses of builders and results",
  "Tests compare a few fixed pairs; aliasing and hash/equality agreement need all pairs and all later histories.",
  [R + "graph_components.py", R + "sample_graph.py", R + "sample_set.py", R + "folded_graph.py", R + "activation_graph.py", R + "variables_graph.py"],
  [("structural __eq__/__hash__", R + "graph_components.py, sample_graph.py, sample_set.py, variables_graph.py, folded_graph.py, activation_graph.py"),
   ("node/edge caches", R + "graph_components.py: BuilderComponentsProvider"),
   ("defensive copies", R + "sample_set.py: SampleSet.__init__, SampleSetBuilder.__init__; sample_graph.py: build, builder, __copy__")])

p("C03", "Samples and networks survive a round trip through their plain descriptions",
  "Taking any sample apart into its plain set of relations (or its single value) and building it again, or going through its builder, gives an equal sample; doing so for all outcomes of a network with their counts gives an equal network. The textual description and default name depend only on the content of the sample: every relation (or the single value) is listed exactly once, in an order that does not depend on how the sample was put together. The printed forms of collections and of the variables and links of folded and activated views list every counted item exactly once and are the same for equal objects.",
  ["inputs"], "every connected sample and every set of counted samples, directed relations and unusual labels included",
  "Tests check the view of two or three fixed samples and never rebuild from it.",
  [R + "sample_graph.py", R + "sample_space.py"],
  [("edge set view and rebuild", R + "sample_graph.py: edges_set_view, build_from_edges, build_single_node, builder, text_view"),
   ("outcomes as edge sets", R + "sample_space.py: outcomes_as_edges_sets, builder")])

p("C04", "Containment, similarity and look-ups agree with set semantics of a sample",
  "One sample is contained in another exactly when all its values and relations are, so containment is a partial order; the similarity of two samples is the number of shared values and relations divided by the number of distinct ones, hence symmetric, 1 exactly for equal samples and 0 exactly for disjoint ones. The value of a variable, membership of a value or a variable, the set of values, the part of a sample restricted to some variables and the linked pairs of variables are exactly those of its values and relations.",
  ["inputs"], "all pairs and triples of samples and all queried variables, values and variable sets",
  "Tests use a few fixed pairs; the laws are statements about all pairs and triples.",
  [R + "sample_graph.py"],
  [("set operations over nodes and edges", R + "sample_graph.py: is_subgraph, similarity, value_for_variable, have_value, have_variable, values, variables_subgraph_hash, edges_endpoint_variables")])

p("C05", "Neighbourhood searches return exactly the reachable values and leading relations",
  "For any sample, any non-empty set of start values and any relation filter (no filter or an empty one meaning all relations), the one step neighbourhood is exactly the values outside the start set linked to it by an allowed relation, each with exactly the relations that link it. The full outward search returns exactly every value outside the start set that can be reached over allowed relations, each with exactly the allowed relations that lead to it from values one step closer. The neighbours of a single value are exactly the values at the other end of its allowed relations, and the inputs are left unchanged.",
  ["inputs"], "every connected sample (cycles, deep chains, directed relations), start set and relation filter",
  "Tests walk one small fixed graph; cycles, layers and filters interact only on larger generated graphs.",
  [R + "sample_graph.py", R + "graph_components.py"],
  [("layered search", R + "sample_graph.py: neighboring_values, belt_nodes, external_nodes"),
   ("edge endpoints", R + "graph_components.py: RelationEdge.opposite_endpoint, is_endpoint")])

p("C06", "Replacing values changes exactly the named values and nothing else",
  "Replacing the values of some variables in a sample yields the sample in which exactly those variables carry the new value and every relation, including its direction, links the same variables as before; variables that are not in the sample have no effect. If nothing changes the very same sample is returned, replacing back restores an equal sample, an undeclared new value is refused and the original sample stays as it was.",
  ["inputs"], "every sample and every mapping of variables to values",
  "Two fixed replacements are tested.",
  [R + "sample_graph.py"],
  [("node and edge mapping", R + "sample_graph.py: transform_with_replaced_values")])

p("C07", "Joining samples gives their union or is refused without side effects",
  "Joining samples into a builder succeeds exactly when the sample shares a value with what was added before (or the builder is empty), no variable gets a second value and no pair of values a second relation, and then yields exactly the union; otherwise it raises an error and the builder is unchanged. The question whether a sample conflicts is answered no exactly when some pair of values would get two different relations. Joining a whole collection of consistent samples that share a value gives their union and the list of all counts, whatever their order, and a collection is reported consistent exactly when no variable has two different values in it.",
  ["histories", "inputs"], "every sequence of joins of samples with at most one value per variable",
  "Tests join two or three compatible samples; order, partial failure and three way conflicts are never reached.",
  [R + "sample_graph.py", R + "sample_set.py"],
  [("edge by edge join with conflict checks", R + "sample_graph.py: join_sample, can_sample_be_joined"),
   ("joining a collection", R + "sample_set.py: make_joined_sample, is_all_values_match, can_join_samples")])

p("C08", "Sample collections behave as multisets under every sequence of operations",
  "A collection of samples built by any sequence of additions, removals, unions, filterings and copies holds, for every sample, exactly the sum of what was added since it was last removed, independent of order and of sample names; its total, size, membership, counts and items agree with that. Probabilities are count divided by total and sum to one, and asking for or removing a sample that is not there is refused, as are samples of a foreign declaration. Union is commutative and associative with the empty collection as unit, and joining any number of collections equals the repeated union.",
  ["histories", "inputs"], "every history of builder and collection operations over any samples and counts",
  "Each operation is tested once on a two element collection.",
  [R + "sample_set.py"],
  [("dictionary of counts", R + "sample_set.py: Samples, SampleSet, SampleSetBuilder")])

p("C09", "Grouping intersecting samples is a partition into connected groups",
  "Grouping a collection puts every sample, with its count, into exactly one group: two samples are together exactly when they are linked by a chain of samples each sharing a linked pair of variables with the next, single value samples being grouped by their variable. Each group is keyed by exactly the variables that occur in it, whatever the variables are called and in whatever order the samples were added. (Collections in which two separate groups span the same set of variables are reported as an error and are outside this statement.)",
  ["inputs"], "every collection of samples, including nested and chained overlaps",
  "One fixed collection is tested; chains of merges and key collisions are not.",
  [R + "sample_set.py"],
  [("transitive merging of edge variable keys", R + "sample_set.py: SampleSet.group_intersecting")])

p("C10", "Conditioning selects exactly the compatible outcomes with their counts",
  "Conditioning a network on an evidence sample keeps exactly the outcomes that contain the evidence or share no variable with it, each with its original count, and remembers the evidence. Conditioning again on the same evidence changes nothing, the order of two conditionings does not matter, and the original network is unchanged; evidence of a foreign declaration is refused.",
  ["inputs"], "every network and every evidence sample (single value, several linked values, empty)",
  "One fixed network with three pieces of evidence is tested.",
  [R + "relation_graph.py", R + "sample_graph.py", R + "conditional_graph.py"],
  [("outcome filter", R + "relation_graph.py: conditional_graph"), ("containment", R + "sample_graph.py: is_subgraph"),
   ("wrapping", R + "conditional_graph.py: ConditionalGraph; sample_space.py: relation_graph")])

p("C11", "The joined distribution is the product of the factors",
  "For every factorised network whose factors are linked through shared variables and agree on which values each variable has, joining yields exactly one outcome per choice of one outcome from every factor in which all shared variables agree: the union of the chosen outcomes, with the product of their counts. Combinations that disagree do not appear, so an inconsistent network gives an empty result. The result does not depend on the order of insertion, on names or on the hash seed, and joining a joined network changes nothing.",
  ["inputs", "configurations"], "every such factorised network (chains, stars, loops, complete networks, multi-relation factors, single value factors, zero entries) and every hash seed",
  "Three fixed full tables under one hash seed are tested.",
  [R + "relation_graph.py", R + "sample_space.py", R + "sample_set.py", R + "sample_graph.py"],
  [("variable by variable joining", R + "relation_graph.py: make_joined"), ("factor split", R + "sample_space.py: factorized"),
   ("compatibility and union", R + "sample_set.py: can_join_samples, make_joined_sample, join_sample_set; sample_graph.py: join_sample")])

p("C12", "Inference agrees with Bayesian and Markov network inference",
  "For every discrete Bayesian or pairwise Markov network with positive tables, encoded as one group of counted outcomes per table, the normalised joined distribution and its marginals equal the joint distribution and marginals of that network. Conditioning on observed values one after another (before or after joining, in any order) and joining gives exactly the posterior joint and marginals; in particular variables separated from the evidence keep their marginals.",
  ["inputs", "configurations"], "every connected network structure with small domains, every positive integer table, every evidence assignment and evidence order, every hash seed",
  "The comparison scripts check one student network and one four node loop by hand.",
  [R + "relation_graph.py", R + "sample_space.py", R + "conditional_graph.py"],
  [("joint", R + "relation_graph.py: make_joined"), ("conditioning", R + "relation_graph.py: conditional_graph"),
   ("marginals", R + "sample_space.py: marginal_variables_probability")])

p("C13", "Joining on chosen variables is an inner join of the groups containing them",
  "Joining a network on one variable leaves every outcome without that variable untouched and replaces those with it by one outcome for every choice of one outcome from each group of intersecting outcomes in which all values agree: their union with the product of their counts, unmatched ones being dropped. Joining on several variables equals joining on them one after another, and by default on all variables that occur. The original network is unchanged.",
  ["inputs", "configurations"], "every network (whose groups span different variable sets) and every choice of variables, every hash seed",
  "Three fixed tables under one hash seed are tested.",
  [R + "relation_graph.py", R + "sample_set.py"],
  [("cross join of groups", R + "relation_graph.py: joined_on_variables"), ("grouping", R + "sample_set.py: group_intersecting")])

p("C14", "Marginals and folded views equal direct counting over the outcomes",
  "The marginal of a variable gives every observed value its share of the counted outcomes in which the variable occurs, or, with the unobserved share requested, of all outcomes plus the remaining share for unobserved; only requested variables that occur are listed and each distribution sums to one. The folded view has one node per occurring variable with the exact count of each value and one edge per linked pair of variables with the exact count of each relation between values; its distribution lists every declared value and the unobserved share, summing to one.",
  ["inputs"], "every network with at most one value per variable in an outcome, any counts, any queried variables, values not named like the reserved unobserved labels",
  "Two fixed networks with counts below ten are tested.",
  [R + "sample_space.py", R + "folded_graph.py"],
  [("accumulation and normalisation", R + "sample_space.py: marginal_variables_probability, folded_graph"),
   ("folded node and edge", R + "folded_graph.py: FoldedNode, FoldedEdge")])

p("C15", "Splitting into factors and the joined/factorised tests agree with each other",
  "A network is reported factorised exactly when it has no empty outcome and any two outcomes link either the same or entirely different pairs of variables, and exactly then it can be split into factors: outcomes linking the same pairs (or single values of the same variable) together, every outcome with its count in exactly one factor; otherwise the split is refused. A network is reported joined exactly when all its outcomes cover the same variables.",
  ["inputs"], "every network, in every insertion order and hash seed",
  "A handful of fixed networks are tested.",
  [R + "relation_graph.py", R + "sample_space.py"],
  [("predicates", R + "relation_graph.py: is_joined, is_factorized"), ("split", R + "sample_space.py: factorized")])

p("C16", "Generating all outcomes yields every possible sample exactly once",
  "For every declaration of variables, values and relations, generating all possible outcomes yields exactly every connected sample over every non-empty choice of variables, with every combination of values and relations, each exactly once with count one and nothing else. The number of outcomes equals the known closed formula, and generating is refused on a builder that already holds outcomes.",
  ["inputs", "configurations"], "every declaration (labels of any hashable type, differing numbers of values, lists or sets) small enough to enumerate, every hash seed",
  "Five fixed declarations are tested, none with differing numbers of values and three variables.",
  [R + "relation_graph.py", R + "sample_graph.py"],
  [("counting through edge/relation indices and value replacement", R + "relation_graph.py: generate_all_possible_outcomes"),
   ("connectivity filter and replacement", R + "sample_graph.py: is_edges_connected, transform_with_replaced_values")])

p("C17", "Activation weights equal the similarity weighted share of outcomes",
  "In the activation view of a conditioned network every declared value has a weight: a value of the evidence weighs the share of outcomes containing it, any other value the sum over outcomes in which it is reachable from the evidence over allowed relations of count times similarity to the evidence, divided by the total; unreached values weigh zero (all do if no outcome is selected). Between variables every relation leading outwards is counted with the counts of its outcomes, relations of the evidence count for all selected outcomes, and variables and relations are marked as belonging to the evidence exactly when they do.",
  ["inputs"], "every conditioned network with at least one selected outcome and at most one value per variable, every non-empty evidence and relation filter",
  "One fixed network with one filter is tested.",
  [R + "conditional_graph.py", R + "activation_graph.py", R + "sample_graph.py"],
  [("accumulation", R + "conditional_graph.py: activation_graph"), ("similarity and search", R + "sample_graph.py: similarity, external_nodes"),
   ("view", R + "activation_graph.py: ActiveNode, ActiveEdge")])

p("C18", "Network builder and queries report exactly the recorded outcomes",
  "A network built by any sequence of additions holds every added outcome with the sum of its counts, refuses counts below one, foreign samples and an empty build, and later additions do not change networks built before. Occurring variables, values and relations, summaries, printed listings and look-up by values report exactly what the outcomes contain. Re-opening a network as a builder and building again gives an equal network, and no query changes the network.",
  ["histories", "inputs"], "every history of additions, builds, re-openings and queries",
  "Tests add two outcomes once.",
  [R + "relation_graph.py", R + "sample_space.py", R + "conditional_graph.py"],
  [("outcome recording", R + "relation_graph.py: RelationGraphBuilder.add_outcome, add_outcomes, build_sample, build"),
   ("queries", R + "sample_space.py: included_variables, included_relations, find_for_values, print_samples, builder, relation_graph; describe in relation_graph.py, conditional_graph.py")])

p("C19", "Drawings show exactly the content of the drawn object",
  "The drawing of a sample, of the outcomes of a network (each holding values), of a folded view or of an activation view contains exactly one drawn node per value of each drawn outcome (respectively per variable, declared but unobserved variables included) and one drawn edge per relation (respectively linked pair of variables), labelled with all the values, relations, counts or weights of the object itself, however they are named. Evidence is marked by colour (red among outcomes, green in the activation view, where the other variables are shaded by their largest weight) and unobserved variables are gray in the folded view. Drawing writes one page whose file name consists of the letters, digits and underscores (for a sample also '-', '(' and ')') of the name, and changes nothing else.",
  ["inputs"], "every sample, network, conditioned network, folded and activation view over text or whole number labels",
  "The drawing code is only run by hand; no test asserts anything about it.",
  [R + "sample_graph.py", R + "sample_space.py", R + "folded_graph.py", R + "activation_graph.py"],
  [("filling a pyvis network", "visualize in " + R + "sample_graph.py, folded_graph.py, activation_graph.py; visualize_outcomes in sample_space.py")],
  ["pyvis Network given to show()"])

p("C20", "Pacman moves follow the rules of the classic game",
  "From every reachable game state of every walled board, the legal moves of each character are exactly those the rules allow (Pacman: every open neighbour cell and staying; ghosts: no stopping, no turning back except in dead ends, straight on between cells), none once the game has ended, and any other move is refused. A legal move changes position, food, capsules, scared timers, score (a point per Pacman move lost, 10 for food, 500 for the last one, 200 for a scared ghost, 500 lost for each ghost that catches Pacman) and the won/lost flags exactly as the rules say: scared ghosts move half a cell, are put back to the start unscared when caught and recover after 40 own moves onto a whole cell; a character catches when it comes within 0.7 of a cell.",
  ["histories", "inputs"], "every board, number of ghosts and sequence of moves",
  "There is no test of the demo game at all.",
  [D + "pacman.py", D + "game.py", D + "util.py"],
  [("rules", D + "pacman.py: GameState.generateSuccessor, PacmanRules, GhostRules"), ("moves", D + "game.py: Actions, Configuration")])

p("C21", "Game states are values: moves and copies never disturb other states",
  "Making a move returns a new state and leaves the state it was made from, and every state derived from it, exactly as it was; so any sequence of moves gives the same result each time it is replayed. A deep copy equals the original in every respect, the end of the game included, and changing the copy's food or capsules does not change the original. Equal states have equal hashes, and states differing in positions, directions, timers, food, capsules or score are unequal.",
  ["histories"], "every branching history of moves and copies over any board",
  "There is no test of the demo game at all.",
  [D + "game.py", D + "pacman.py"],
  [("copy on write of food, copies of capsules and agents", D + "game.py: GameStateData.__init__, deepCopy, AgentState.copy; pacman.py: PacmanRules.consume")])

p("C22", "Boards and grids keep every cell through parsing, packing, copying and printing",
  "Reading a board from text (or from a layout file, looked up by name in the current and parent folders without changing the current folder) places every wall, food, capsule and character at the cell it is drawn at, with Pacman first and ghosts in order. A grid of any size equals, cell by cell, the result of packing it into integers and unpacking it, and of copying it; counts, listings and the printed form agree with the cells; a copy is independent of its original, and equality and hash follow the cells.",
  ["inputs"], "every board text and every grid size and content",
  "There is no test of the demo game at all.",
  [D + "layout.py", D + "game.py"],
  [("parsing", D + "layout.py: Layout, getLayout, tryToLoad"), ("grid", D + "game.py: Grid, reconstituteGrid")])

p("C23", "Search containers and counters behave as their abstract data types",
  "For every sequence of operations the stack is last in first out, the queue first in first out, the priority queue returns a lowest priority item, ties in insertion order, and an update only ever lowers the priority of an item already present or inserts it. Counters treat missing keys as zero; sum, difference, inner product, scaling, total, best key and sorted keys equal the arithmetic on their entries, normalising keeps ratios and sums to one, and copies are independent. Sampling from a distribution returns, for each random number drawn, the value whose cumulative share contains it.",
  ["histories", "inputs"], "every history of container operations, every counter and distribution, every random draw",
  "There is no test of the demo utilities at all.",
  [D + "util.py"],
  [("containers, Counter, sampling, geometry helpers", D + "util.py")])

p("C24", "Ghost and keyboard players only choose legal moves with the stated odds",
  "In every state in which a ghost can move, the random ghost gives every legal move the same probability and the directional ghost gives the moves that bring it closest to Pacman (farthest from it while scared) an equal share of the configured preference and spreads the rest evenly over all legal moves; the odds sum to one and the chosen move is legal. The keyboard player stops on its stop key, else follows a pressed direction key if that move is legal, else keeps its last direction, else stays if it may; keys stay in force until others are pressed, and it always returns a legal move.",
  ["inputs", "histories"], "every game state, preference setting, key sequence and random draw",
  "There is no test of the demo agents at all.",
  [D + "ghostAgents.py", D + "keyboardAgents.py", D + "util.py"],
  [("distributions", D + "ghostAgents.py: RandomGhost, DirectionalGhost, GhostAgent.getAction"), ("keys", D + "keyboardAgents.py: KeyboardAgent, KeyboardAgent2")])

p("C25", "The game loop plays fair: turns, isolation, ending and failing players",
  "A game asks the players strictly in turn, shows each the current state as a private copy, shows every new state to the display, records every move and ends exactly when Pacman has won or lost, so that replaying the recorded moves from the start gives the final state. With exception handling on, a player that raises, is too slow or makes an illegal move ends the game as crashed without a further state change; the time limit never fires later and output redirection is undone. A series of games reports the scores, wins and win rate of exactly the games played, and the recorded game file replays to the same result.",
  ["histories", "fault_sequences"], "every board, set of scripted players and point of failure",
  "There is no test of the demo game at all.",
  [D + "game.py", D + "pacman.py", D + "util.py"],
  [("loop", D + "game.py: Game.run, mute, unmute, _agentCrash"), ("series", D + "pacman.py: runGames, ClassicGameRules"), ("time limit", D + "util.py: TimeoutFunction")])

p("C26", "The game window shows exactly the state of the game",
  "When a game is shown, one window large enough for the board opens and shows the outline of every wall (closed, never on open floor), every food dot and capsule that is left and nothing that was eaten, the score, Pacman with its mouth towards its direction, and every ghost with its eyes towards its direction, each ghost in its own colour and in one common other colour while scared. After every move the character that moved stands at its new place (Pacman gliding there forwards only, within the frame time), eaten food and capsules are gone, the score is the current one and nothing else has changed. Marked cells and beliefs about ghosts are drawn once, at their cells, under the board, and clearing removes exactly the marks; ghosts out of the sight of the first person are not in the window; the window is closed at the end, and the next game starts with a fresh picture.",
  ["histories", "inputs"], "every board (up to four ghosts, the size of the palette), zoom, frame time and history of legal moves and overlays",
  "There is no test of the display at all, and it needs a screen; the picture depends on the whole history of moves.",
  [D + "graphicsDisplay.py", D + "graphicsUtils.py"],
  [("drawing and updating", D + "graphicsDisplay.py: PacmanGraphics.initialize, update, drawWalls, moveGhost, animatePacman, removeFood, removeCapsule"),
   ("overlays", D + "graphicsDisplay.py: drawExpandedCells, clearExpandedCells, updateDistributions, InfoPane"),
   ("canvas access", D + "graphicsUtils.py: begin_graphics, end_graphics, move_to, move_by, circle, polygon")])

p("C27", "Keyboard and mouse input reaches the players unchanged",
  "The keys reported as held are exactly those pressed and not yet released since the window had the focus, the keys reported as waiting are exactly those pressed since the last question, losing or gaining the focus or closing the window forgets all of them, and a repeated key is not reported as let go. Waiting for a key ends only with a key that is pressed; waiting for a click returns a click of the user with its place and button, and each remembered click is returned once. A keyboard player moves by exactly these keys: a pressed legal direction, else its last direction while that is possible, else it stays.",
  ["histories", "schedules"], "every sequence of key, focus and mouse events, delivered before or while the program asks",
  "There is no test of the input functions, and they depend on the order of events and questions.",
  [D + "graphicsUtils.py", D + "keyboardAgents.py"],
  [("event handlers and queues", D + "graphicsUtils.py: _keypress, _keyrelease, _clear_keys, keys_pressed, keys_waiting, wait_for_keys, wait_for_click"),
   ("moves from keys", D + "keyboardAgents.py: KeyboardAgent.getAction, getMove")])

p("C28", "A command line starts exactly the games it asks for, or is refused",
  "Reading a command line gives exactly the named board, the named player built with exactly the given options (a name without a value means 1), as many ghosts of the named kind as asked for, numbered from 1, the display with the given zoom and frame time, and the given number of games, recording, training, exception handling and time limit; later options win and the order of different options does not matter. With a fixed seed the random numbers are the same every time, otherwise they are left alone. A command with an unknown option, an additional word, a missing board or player, a value of the wrong kind, or keyboard play without a window is refused. Reading changes neither the arguments nor the current folder, and the games started from the result are as many, as quiet and as recorded as asked for. The demo program plays one keyboard game against two random ghosts on the medium board by the same rules.",
  ["inputs"], "every combination, order and spelling of the options, boards and players found in the searched folders",
  "There is no test of the command line; options interact with each other and with the files that are found.",
  [D + "pacman.py", D + "layout.py", D + "demo.py"],
  [("the demo", D + "demo.py: main"), ("options", D + "pacman.py: readCommand, parseAgentArgs"), ("finding players", D + "pacman.py: loadAgent"), ("finding boards", D + "layout.py: getLayout")])

p("C29", "The worked examples count tosses and enumerate graphs exactly",
  "For every list of results of coin tosses, the network built by the coin example holds every distinct result (a single coin, or two linked coins with the relation given by their order) exactly as often as it is listed, its printed description names every outcome with this count and its share of all tosses, and given one result it keeps exactly the compatible ones; a toss of one coin twice is refused. The enumeration of coloured graphs over a few nodes draws every graph with at least one relation exactly once, with exactly its relations and their nodes.",
  ["inputs"], "every list of tosses; every number of nodes that can be enumerated (2 to 4)",
  "The examples are not tested; they rest on the whole library at once.",
  ["Python/research/scripts/examples/building_net_from_coin_toss.py", "Python/research/scripts/playaround/number_of_subgraphs.py", R + "relation_graph.py", R + "sample_space.py"],
  [("building from text", "Python/research/scripts/examples/building_net_from_coin_toss.py: build_outcome, build_relation_net, describe_relation_net"),
   ("enumeration", "Python/research/scripts/playaround/number_of_subgraphs.py: make_all_sub_graphs")])

p("C30", "The experiments translate networks exactly and agree only when results do",
  "For all tables of the Bayesian experiment (conditional tables of whole numbers of outcomes) and of the Markov experiment (positive whole factors), the relation graph built has exactly one outcome per table entry with the entry as count, linking every parent to its child by a directed relation (the two variables of a factor by an undirected one), and the reference network has the same tables; an entry that is no whole positive number of outcomes is refused. The comparisons fail whenever joint probabilities or posterior marginals of the two networks differ, separation is judged by equality of the exact marginals, and no comparison changes the networks. The outcome space experiment compares the generated number for every size up to four variables, values and relations with the exact number and fails when one differs.",
  ["inputs"], "every choice of tables over the variables of the two experiments; every size compared by the outcome space experiment",
  "The experiments run by hand with one fixed network each; they are the only evidence in the repository for agreement with established methods.",
  ["Python/research/scripts/experiments/comparing_with_bayes_network.py", "Python/research/scripts/experiments/comparing_with_markov_network.py", "Python/research/scripts/experiments/outcomes_space_power.py"],
  [("translation", "Python/research/scripts/experiments/comparing_with_bayes_network.py: make_relation_graph; comparing_with_markov_network.py: make_relation_graph"),
   ("comparison", "Python/research/scripts/experiments/comparing_with_bayes_network.py: comparing_joint_probability, comparing_inference, comparing_d_separation; comparing_with_markov_network.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
