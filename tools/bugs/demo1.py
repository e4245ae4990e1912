GM, PC, LY, UT, GA, KA = ["demo/%s.py" % n for n in ("game", "pacman", "layout", "util", "ghostAgents", "keyboardAgents")]
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, pre="demo", **kw))


bug("c20-snap-down", "C20",
    [(PC, "            ghostState.configuration.pos = nearestPoint( ghostState.configuration.pos )",
      "            x, y = ghostState.configuration.pos\n            ghostState.configuration.pos = ( int(x), int(y) )")],
    """s = start("%%%%%%", "%P . %", "%%%%%%", "%   G%", "%%%%%%")
g = s.data.agentStates[1]
g.scaredTimer = 1
g.configuration = game.Configuration((2.0, 1.0), "East")
t = s.generateSuccessor(1, "East")
assert t.getGhostPosition(1) == (3, 1), t.getGhostPosition(1)""",
    "a scare that ends between two cells", "the ghost is put back instead of onto the next cell")

bug("c20-second-capsule", "C20",
    [(PC, "                state.data.agentStates[index].scaredTimer = SCARED_TIME",
      "                if state.data.agentStates[index].scaredTimer == 0:\n                    state.data.agentStates[index].scaredTimer = SCARED_TIME")],
    """s = start("%%%%%%%%", "%Poo  .%", "%%%%%%%%", "%     G%", "%%%%%%%%")
s = s.generateSuccessor(0, "East")
s = s.generateSuccessor(1, s.getLegalActions(1)[0])
s = s.generateSuccessor(0, "East")
assert s.getGhostState(1).scaredTimer == 40""",
    "a second capsule eaten while ghosts are still scared", "the scare is not prolonged")

bug("c20-win-and-lose", "C20",
    [(PC, "            if not state.data._win:\n                state.data.scoreChange -= 500\n                state.data._lose = True",
      "            state.data._lose = not state.data._win\n            state.data.scoreChange -= 500")],
    """s = start("%%%%%", "%P. %", "%%%%%")
s = start("%%%%%%", "%P.G %", "%%%%%%")
s.data.agentStates[1].configuration = game.Configuration((2, 1), "West")
t = s.generateSuccessor(0, "East")
assert t.isWin() and t.getScore() == 509, t.getScore()""",
    "the last food eaten on a cell where a ghost is", "the winning score is lowered")

bug("c20-one-catch-per-move", "C20",
    [(PC, "                if GhostRules.canKill( pacmanPosition, ghostPosition ):\n                    GhostRules.collide( state, ghostState, index )\n        else:",
      "                if GhostRules.canKill( pacmanPosition, ghostPosition ):\n                    GhostRules.collide( state, ghostState, index )\n                    break\n        else:")],
    """s = start("%%%%%%%", "%P GG.%", "%%%%%%%")
for k, x in ((1, 2), (2, 2)):
    s.data.agentStates[k].configuration = game.Configuration((x, 1), "West")
    s.data.agentStates[k].scaredTimer = 5
t = s.generateSuccessor(0, "East")
assert t.getScore() == 399, t.getScore()""",
    "two ghosts met in one move of Pacman", "only the first one counts")

bug("c20-half-cell-safe", "C20",
    [(PC, "        return manhattanDistance( ghostPosition, pacmanPosition ) <= COLLISION_TOLERANCE",
      "        gx, gy = ghostPosition\n        px, py = pacmanPosition\n        return abs( gx - px ) + abs( gy - py ) <= COLLISION_TOLERANCE and ( int(gx), int(gy) ) == ( int(px), int(py) )")],
    """s = start("%%%%%%%", "%P G .%", "%%%%%%%")
g = s.data.agentStates[1]
g.configuration = game.Configuration((1.5, 1.0), "East")
g.scaredTimer = 9
assert s.generateSuccessor(0, "East").getScore() == 199""",
    "a scared ghost half a cell before Pacman", "ghost and Pacman pass through each other")

bug("c20-dead-end-stop", "C20",
    [(PC, "        if reverse in possibleActions and len( possibleActions ) > 1:",
      "        if reverse in possibleActions and (len( possibleActions ) > 1 or conf.direction in (Directions.NORTH, Directions.SOUTH) and ghostIndex > 2):")],
    """s = start("%%%%%%%", "%PGG.G%", "%%%%% %", "%%%%%%%")
g = s.data.agentStates[3]
g.configuration = game.Configuration((5, 1), "South")
assert s.getLegalActions(3) == ["North"], s.getLegalActions(3)""",
    "the third ghost in a vertical dead end", "the ghost has no legal move")

bug("c21-last-food-shared", "C21",
    [(PC, "            state.data.food = state.data.food.copy()\n",
      "            if state.getNumFood() > 1: state.data.food = state.data.food.copy()\n")],
    """s = start("%%%%%", "%P. %", "%%%%%")
t = s.generateSuccessor(0, "East")
assert t.isWin() and s.getNumFood() == 1""",
    "the last food being eaten", "the state before the move loses its food as well", also=["C20"])

bug("c21-copy-shares-capsules", "C21",
    [(GM, "            self.capsules = prevState.capsules[:]\n", "            self.capsules = prevState.capsules\n"),
     (PC, "            state.data.capsules.remove( position )\n",
      "            state.data.capsules = [c for c in state.data.capsules if c != position]\n")],
    """s = start("%%%%%", "%Po.%", "%%%%%")
t = s.deepCopy()
t.data.capsules.append((3, 1))
assert len(s.getCapsules()) == 1""",
    "changing the capsules of a copy", "the original changes too")

bug("c21-shared-configuration", "C21",
    [(GM, "        return Configuration((x + dx, y+dy), direction)\n",
      "        key = (x + dx, y+dy, direction)\n        if key not in Configuration._known:\n            Configuration._known[key] = Configuration((x + dx, y+dy), direction)\n        return Configuration._known[key]\n"),
     (GM, "    def getPosition(self):\n        return (self.pos)\n", "    _known = {}\n\n    def getPosition(self):\n        return (self.pos)\n")],
    """s = start("%%%%%%", "%P . %", "%%%%%%", "%   G%", "%%%%%%")
g = s.data.agentStates[1]
g.scaredTimer = 5
g.configuration = game.Configuration((2.0, 1.0), "East")
old = s.generateSuccessor(1, "East")
assert old.getGhostPosition(1) == (2.5, 1.0)
s.data.agentStates[1].scaredTimer = 1
new = s.generateSuccessor(1, "East")
assert new.getGhostPosition(1) == (3, 1) and old.getGhostPosition(1) == (2.5, 1.0)""",
    "a scare that ends between cells where another state has a ghost", "the ghost moves in the other state too", also=["C20"])

bug("c21-timer-sign-only", "C21",
    [(GM, "        return self.configuration == other.configuration and self.scaredTimer == other.scaredTimer",
      "        return self.configuration == other.configuration and min(self.scaredTimer, 39) == min(other.scaredTimer, 39)")],
    """s = start("%%%%%", "%P.G%", "%%%%%")
t = s.deepCopy()
s.data.agentStates[1].scaredTimer, t.data.agentStates[1].scaredTimer = 40, 39
assert s != t""",
    "states that differ only in a freshly set timer", "they compare equal with different hashes")

bug("c21-start-moves", "C21",
    [(PC, "        ghostState.configuration = ghostState.start\n",
      "        ghostState.configuration.pos = ghostState.start.pos\n        ghostState.configuration.direction = ghostState.start.direction\n")],
    """s = start("%%%%%%%", "%P G .%", "%%%%%%%")
g = s.data.agentStates[1]
g.configuration = game.Configuration((2, 1), "West")
g.scaredTimer = 9
t = s.generateSuccessor(0, "East")
assert s.getGhostPosition(1) == (2, 1), s.getGhostPosition(1)""",
    "Pacman catching a scared ghost", "the ghost jumps in the state before the move as well")

bug("c22-square-only", "C22",
    [(GM, "        x = index // self.height\n        y = index % self.height\n",
      "        x = index // max(self.height, 1) if self.width < 32 else index // self.width\n        y = index % self.height\n")],
    """g = Grid(40, 3)
g[39][2] = True
assert game.reconstituteGrid(g.packBits()) == g""",
    "grids wider than 31 cells", "cells are lost when packing")

bug("c22-empty-columns-shared", "C22",
    [(GM, "        g.data = [x[:] for x in self.data]\n", "        g.data = [x[:] if True in x else x for x in self.data]\n")],
    """g = Grid(3, 3)
h = g.copy()
h[1][1] = True
assert not g[1][1]""",
    "a copy of a grid with an empty column, changed in that column", "the original changes too", also=["C21"])

bug("c22-last-word", "C22",
    [(GM, "        bits.append(currentInt)\n        return tuple(bits)",
      "        if (self.height * self.width) % self.CELLS_PER_INT > 1:\n            bits.append(currentInt)\n        return tuple(bits)")],
    """g = Grid(31, 1, True)
assert game.reconstituteGrid(g.packBits()) == g""",
    "a grid of 30k + 1 cells", "the last cell is lost when packing")

bug("c22-grid-hash-order", "C22",
    [(GM, "        # return hash(str(self))\n        base = 1\n", "        if self.count() * 2 > self.width * self.height: return hash(tuple(map(id, self.data)))\n        base = 1\n")],
    """g = Grid(3, 3, True)
assert hash(g) == hash(g.copy()) and len({g, g.copy()}) == 1""",
    "grids with more than half of their cells set", "equal grids have different hashes", also=["C21"])

bug("c22-numbered-ghosts", "C22",
    [(LY, "        self.agentPositions.sort()\n", "        self.agentPositions.sort(key=lambda a: (min(a[0], 3), a[1]))\n")],
    """l = board("%%%%%%", "%4P.3%", "%%%%%%")
assert l.agentPositions == [(True, (2, 1)), (False, (4, 1)), (False, (1, 1))], l.agentPositions""",
    "a board with ghosts numbered 3 and 4", "the two ghosts are exchanged")

bug("c22-layout-first-line", "C22",
    [(LY, "        self.width = len(layoutText[0])\n", "        self.width = len(layoutText[0].rstrip())\n")],
    """l = board("%%%% ", "%P. %", "%%%%%")
assert l.width == 5 and l.walls[4][1]""",
    "a board whose first row ends in blanks", "the last columns are cut off")

bug("c23-update-no-heapify", "C23",
    [(UT, "                self.heap.append((priority, c, item))\n                heapq.heapify(self.heap)\n",
      "                heapq.heappush(self.heap, (priority, c, item))\n")],
    """q = util.PriorityQueue()
for n in (1, 9, 2, 10, 11, 3, 4):
    q.push(n, n)
for n in (1, 9, 2, 10):
    q.update(n, n - 0.5)
import itertools
for perm in itertools.permutations(range(6)):
    q = util.PriorityQueue()
    for n in perm:
        q.push(n, n * 10)
    q.update(perm[0], -1) if perm[0] else q.update(perm[-1], perm[-1] * 10 - 15)
    out = []
    want = sorted((n * 10, n) for n in range(6))
    pr = {n: n * 10 for n in range(6)}
    k = perm[0] if perm[0] else perm[-1]
    pr[k] = -1 if perm[0] else perm[-1] * 10 - 15
    while not q.isEmpty():
        out.append(q.pop())
    assert out == sorted(pr, key=pr.get), (perm, out)""",
    "lowering the priority of an item in the middle of a larger queue", "items come out in the wrong order")

bug("c23-update-identity", "C23",
    [(UT, "            if i == item:\n", "            if i is item:\n")],
    """q = util.PriorityQueue()
q.push((1, 2), 5)
q.update(tuple([1, 2]), 3)
q.pop()
assert q.isEmpty()""",
    "updating with an equal but not identical item", "the item is entered a second time")

bug("c23-product-adds-keys", "C23",
    [(UT, "            if key not in y:\n                continue\n            sum += x[key] * y[key]\n", "            sum += x[key] * y[key]\n")],
    """a, b = util.Counter(), util.Counter()
a["x"], b["y"] = 1, 2
a * b
assert dict(a) == {"x": 1} and dict(b) == {"y": 2}""",
    "an inner product of counters with different keys", "one of the operands gets new keys")

bug("c23-sample-short", "C23",
    [(UT, "    if sum(distribution) != 1:\n        distribution = normalize(distribution)\n    choice = random.random()",
      "    if sum(distribution) > 1:\n        distribution = normalize(distribution)\n    choice = random.random()")],
    """random.random = lambda: 0.3
assert util.sample([0.1, 0.1], ["a", "b"]) == "a" """,
    "a distribution that sums to less than one", "wrong values or an error")

bug("c23-difference-drops", "C23",
    [(UT, "            addend[key] = -1 * y[key]\n", "            addend[key] = -1 * y[key] if y[key] > 0 else y[key]\n")],
    """a, b = util.Counter(), util.Counter()
b["x"] = -2
assert (a - b)["x"] == 2""",
    "subtracting a negative entry the first counter does not have", "the sign is wrong")

bug("c23-normalize-small", "C23",
    [(UT, "        total = float(self.totalCount())\n        if total == 0: return\n", "        total = float(self.totalCount())\n        if abs(total) < 1e-6: return\n")],
    """c = util.Counter()
c["a"], c["b"] = 1e-7, 3e-7
c.normalize()
assert abs(c["b"] - 0.75) < 1e-9""",
    "counts that sum to less than a millionth", "the counter is not normalised")

bug("c23-ties-by-item", "C23",
    [(UT, "        entry = (priority, self.count, item)\n        heapq.heappush(self.heap, entry)\n        self.count += 1\n",
      "        entry = (priority, self.count, item)\n        heapq.heappush(self.heap, entry)\n        self.count = len(self.heap)\n")],
    """q = util.PriorityQueue()
for k in "abcd": q.push(k, 0 if k in "ab" else 1)
q.pop(); q.pop()
q.push("e", 1)  # the third of the equal ones
q.push("f", 1)
out = []
while not q.isEmpty(): out.append(q.pop())
assert out == list("cdef"), out
q = util.PriorityQueue()
for k in range(6): q.push(k, 0 if k < 4 else 1)
for k in range(4): q.pop()
q.push(6, 1); q.push(7, 1)
out = []
while not q.isEmpty(): out.append(q.pop())
assert out == [4, 5, 6, 7], out""",
    "pushes with equal priority after pops", "ties are not in insertion order")

bug("c24-falsy-preference", "C24",
    [(GA, "        self.prob_scaredFlee = prob_scaredFlee\n", "        self.prob_scaredFlee = prob_scaredFlee or prob_attack\n")],
    """s = start("%%%%%", "%P  %", "%  G%", "%.  %", "%%%%%")
s.data.agentStates[1].scaredTimer = 4
d = ghostAgents.DirectionalGhost(1, 0.9, 0).getDistribution(s)
assert len(set(round(x, 9) for x in d.values())) == 1, d""",
    "a scared ghost with preference zero", "it flees with the attack preference")

bug("c24-ties-first", "C24",
    [(GA, "if distance == bestScore]\n", "if distance == bestScore][:2]\n")],
    """s = start("%%%%%", "%   %", "% G %", "% . %", "%%%%%")
s = start("%%%%%", "%   %", "%P G%".replace("G", " "), "%G. %", "%%%%%")
s = start("%%%%%%%", "%     %", "%  G  %", "%    .%", "%P    %", "%%%%%%%")
g = s.data.agentStates[1]
g.configuration = game.Configuration((3, 3), "Stop")
g.scaredTimer = 3
s.data.agentStates[0].configuration = game.Configuration((3, 3), "Stop")
d = ghostAgents.DirectionalGhost(1).getDistribution(s)
assert len(set(round(x, 9) for x in d.values())) == 1, d""",
    "three or more equally good moves", "only two of them share the preference")

bug("c24-stop-forgotten", "C24",
    [(KA, "        self.lastMove = move\n        return move", "        if move != Directions.STOP: self.lastMove = move\n        return move")],
    """import types
gu = types.ModuleType("graphicsUtils")
keys = []
gu.keys_waiting = lambda: []
gu.keys_pressed = lambda: list(keys)
sys.modules["graphicsUtils"] = gu
import keyboardAgents
s = start("%%%%%%%", "%P   .%", "%%%%%%%")
a = keyboardAgents.KeyboardAgent()
out = []
for k in (["d"], ["q"], ["w"]):
    keys[:] = k
    out.append(a.getAction(s))
assert out == ["East", "Stop", "Stop"], out""",
    "stopping by key and then pressing a key of a blocked direction", "Pacman starts again in the old direction")

bug("c24-second-player-keys", "C24",
    [(KA, "        if keys != []:\n            self.keys = keys\n", "        if keys != []:\n            self.keys = keys\n        elif self.index: self.keys = []\n")],
    """import types
gu = types.ModuleType("graphicsUtils")
keys = []
gu.keys_waiting = lambda: []
gu.keys_pressed = lambda: list(keys)
sys.modules["graphicsUtils"] = gu
import keyboardAgents
class S:
    def __init__(self, l): self.l = l
    def getLegalActions(self, i): return list(self.l)
a = keyboardAgents.KeyboardAgent2(1)
keys[:] = ["i"]
assert a.getAction(S(["North", "East", "Stop"])) == "North"
keys[:] = []
assert a.getAction(S(["East", "Stop"])) in ("Stop",)
assert a.getAction(S(["North", "East", "Stop"])) == "North" """,
    "the second keyboard player, a key let go, a blocked cell in between", "its key does not stay in force")

bug("c25-observer-gets-live-state", "C25",
    [(GM, "                    observation = agent.observationFunction(self.state.deepCopy())\n",
      "                    observation = agent.observationFunction(self.state)\n")],
    """class P(game.Agent):
    def observationFunction(self, state):
        state.data.score += 1000
        return state
    def getAction(self, state):
        return "East"
class D:
    def initialize(self, *a): pass
    def update(self, *a): pass
    def finish(self): pass
g = pacman.ClassicGameRules(5).newGame(board("%%%%", "%P.%", "%%%%"), P(), [], D(), True)
g.run()
assert g.state.getScore() == 509, g.state.getScore()""",
    "a player with an observation function that changes what it is shown", "the game itself changes")

bug("c25-record-overwritten", "C25",
    [(PC, "            fname = ('recorded-game-%d' % (i + 1)) +  '-'.join([str(t) for t in time.localtime()[1:6]])",
      "            fname = ('recorded-game-%d' % len(games[:1])) +  '-'.join([str(t) for t in time.localtime()[1:6]])")],
    """import tempfile
class P(game.Agent):
    def getAction(self, state):
        return "East"
class D:
    def initialize(self, *a): pass
    def update(self, *a): pass
    def finish(self): pass
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    pacman.runGames(board("%%%%", "%P.%", "%%%%"), P(), [], D(), 3, True)
    n = len(os.listdir(d))
    os.chdir("/")
    assert n == 3 or n == 2 and False, n""",
    "several recorded games in one second", "records overwrite each other")

bug("c25-start-index", "C25",
    [(GM, "            agentIndex = ( agentIndex + 1 ) % numAgents\n", "            agentIndex = ( agentIndex + 1 ) % numAgents if agentIndex != self.startingIndex or numAgents < 3 else 1 + self.startingIndex\n")],
    """class P(game.Agent):
    def getAction(self, state):
        a = state.getLegalActions(self.index)
        return "West" if "West" in a else a[0]
class D:
    n = 0
    def initialize(self, *a): pass
    def update(self, *a): pass
    def finish(self): pass
b = board("%%%%%%%%", "%P.....%", "%%%%%%%%", "%   G  %", "%%%%%%%%", "%   G  %", "%%%%%%%%")
r = pacman.ClassicGameRules(5)
class E(P):
    k = 0
    def getAction(self, state):
        self.k += 1
        return "East"
g = r.newGame(b, E(0), [P(1), P(2)], D(), True)
g.startingIndex = 2
g.run()
assert [i for i, _ in g.moveHistory][:4] == [2, 0, 1, 2], g.moveHistory""",
    "a game that does not start with Pacman", "the order of turns breaks")

bug("c25-unmute-on-final", "C25",
    [(GM, "                    if not self.catchExceptions: raise data\n                    self._agentCrash(agentIndex)\n                    self.unmute()\n                    return",
      "                    if not self.catchExceptions: raise data\n                    self._agentCrash(agentIndex)\n                    return")],
    """class P(game.Agent):
    def getAction(self, state):
        return "East"
    def final(self, state):
        raise ValueError()
class D:
    def initialize(self, *a): pass
    def update(self, *a): pass
    def finish(self): pass
r = pacman.ClassicGameRules(5)
g = r.newGame(board("%%%%", "%P.%", "%%%%"), P(), [], D(), True, True)
g.muteAgents = True
out = sys.stdout
g.run()
same = sys.stdout is out
sys.stdout = out
sys.stderr = sys.__stderr__
assert same""",
    "a muted player failing in its final call", "output stays redirected")

bug("c25-late-crash-flag", "C25",
    [(GM, "                        except TimeoutFunctionException:\n                            skip_action = True\n",
      "                        except TimeoutFunctionException:\n                            observation = self.state.deepCopy()\n")],
    """import time
class P(game.Agent):
    def observationFunction(self, state):
        time.sleep(1.6)
        return state
    def getAction(self, state):
        return "East"
class D:
    def initialize(self, *a): pass
    def update(self, *a): pass
    def finish(self): pass
class R(pacman.ClassicGameRules):
    def getMaxTotalTime(self, i): return 100
    def getMoveWarningTime(self, i): return 100
r = R(1)
g = r.newGame(board("%%%%", "%P.%", "%%%%"), P(), [], D(), True, True)
g.run()
assert g.agentCrashed and g.agentTimeout and not g.moveHistory""",
    "a player too slow while observing", "the slow player goes on")

bug("c25-progress", "C25",
    [(PC, "        wins = [game.state.isWin() for game in games]\n", "        wins = [game.state.isWin() and not game.agentCrashed for game in games]\n")],
    """import contextlib
class P(game.Agent):
    def getAction(self, state):
        return "East"
    def final(self, state):
        raise ValueError()
class D:
    def initialize(self, *a): pass
    def update(self, *a): pass
    def finish(self): pass
buf = io.StringIO()
with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
    pacman.runGames(board("%%%%", "%P.%", "%%%%"), P(), [], D(), 1, False, catchExceptions=True)
assert "1/1 (1.00)" in buf.getvalue(), buf.getvalue()""",
    "a player that fails after having won", "the won game is reported as lost")
