"""A second round of bugs in the demo game, written from the property texts and the code alone."""
GM, PC, LY, UT, GA, KA = ["demo/%s.py" % n for n in ("game", "pacman", "layout", "util", "ghostAgents", "keyboardAgents")]
BUGS = []
DISPLAY = """class D:
    def initialize(self, *a): pass
    def update(self, *a): pass
    def finish(self): pass
"""


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, pre="demo", **kw))


bug("c20-timer-while-between", "C20",
    [(PC, "        ghostState.scaredTimer = max( 0, timer - 1 )",
      "        if timer > 1 and ghostState.configuration.isInteger() and ghostState.getPosition() == ghostState.start.getPosition(): return\n        ghostState.scaredTimer = max( 0, timer - 1 )")],
    """s = start("%%%%%%%%", "%P    .%", "%%%%%%%%", "%%%% G %", "%%%%%%%%")
g = s.data.agentStates[1]
g.scaredTimer = 9
for a in ("East", "East", "West", "West"):
    g = s.data.agentStates[1]
    s = s.generateSuccessor(1, a)
assert s.getGhostState(1).scaredTimer == 5, s.getGhostState(1).scaredTimer""",
    "a scared ghost passing over the cell it started from", "its scare lasts a move longer")

bug("c20-eaten-ghost-kept-slow", "C20",
    [(PC, "            GhostRules.placeGhost(state, ghostState)\n            ghostState.scaredTimer = 0",
      "            GhostRules.placeGhost(state, ghostState)\n            ghostState.scaredTimer = 0 if agentIndex < 3 else 1")],
    """s = start("%%%%%%%%", "%P  GGG%", "%%%%%%%%", "%.     %", "%%%%%%%%")
s.data.agentStates[3].configuration = game.Configuration((2, 3), "West")
s.data.agentStates[3].scaredTimer = 7
s = s.generateSuccessor(0, "East")
assert s.getGhostState(3).scaredTimer == 0""",
    "the third or a later ghost being eaten", "it comes back still scared")

bug("c20-capsule-skips-moved", "C20",
    [(PC, "            for index in range( 1, len( state.data.agentStates ) ):\n                state.data.agentStates[index].scaredTimer = SCARED_TIME",
      "            for index in range( 1, len( state.data.agentStates ) ):\n                if not state.data._eaten[index] or state.data.agentStates[index].scaredTimer: state.data.agentStates[index].scaredTimer = SCARED_TIME"),
     (PC, "            state.data._eaten = [False for i in range(state.getNumAgents())]\n", ""),
     ],
    """s = start("%%%%%%%%%", "%P Goo .%", "%%%%%%%%%", "%      G%", "%%%%%%%%%")
g = s.data.agentStates[1]
g.scaredTimer = 3
g.configuration = game.Configuration((3, 3), "West")
g.start = game.Configuration((1, 1), "Stop")
for k in range(3):
    s = s.generateSuccessor(0, "East")
assert [x.scaredTimer for x in s.getGhostStates()] == [40, 40], [x.scaredTimer for x in s.getGhostStates()]""",
    "a capsule eaten after a ghost was caught", "the ghost caught earlier is not scared", also=["C21", "C26"])

bug("c20-legal-after-half-cell", "C20",
    [(GM, "        if (abs(x - x_int) + abs(y - y_int)  > Actions.TOLERANCE):\n            return [config.getDirection()]",
      "        if (abs(x - x_int) + abs(y - y_int)  > Actions.TOLERANCE):\n            dx, dy = Actions.directionToVector(config.getDirection(), .5)\n            if walls[int(x + dx)][int(y + dy)] or walls[int(x - dx)][int(y - dy)] or walls.width > 20: return [config.getDirection()]\n            return [config.getDirection(), Actions.reverseDirection(config.getDirection())][:1 if walls.height < 7 else 2]")],
    """s = start("%%%%%", "%P. %", "%   %", "%   %", "%   %", "%  G%", "%%%%%")
g = s.data.agentStates[1]
g.configuration = game.Configuration((2.5, 2.0), "East")
g.scaredTimer = 5
assert s.getLegalActions(1) == ["East"], s.getLegalActions(1)
g.configuration = game.Configuration((2.5, 2.0), "West")
assert s.getLegalActions(1) == ["West"], s.getLegalActions(1)
import itertools
class C(game.Configuration): pass
c = game.Configuration((2.5, 3), "East")
assert Actions.getPossibleActions(c, s.getWalls()) == ["East"]""",
    "a scared ghost between two cells of a board of seven or more rows", "characters may turn back between cells", also=["C24"])

bug("c20-last-food-under-capsule", "C20",
    [(PC, "            numFood = state.getNumFood()\n            if numFood == 0 and not state.data._lose:",
      "            numFood = state.getNumFood()\n            if numFood == 0 and not state.data._lose and state.data.score > -1000:")],
    """s = start("%%%%%", "%P. %", "%%%%%")
s.data.score = -2000
s = s.generateSuccessor(0, "East")
assert s.isWin() and s.getScore() == -2000 + 509""",
    "the last food eaten after more than a thousand moves", "the game is not won")

bug("c20-start-cell-of-copy", "C20",
    [(GM, "        state = AgentState( self.start, self.isPacman )\n        state.configuration = self.configuration",
      "        state = AgentState( self.configuration if self.isPacman or self.numReturned else self.start, self.isPacman )\n        state.configuration = self.configuration"),
     (PC, "            ghostState.scaredTimer = 0\n            # Added", "            ghostState.scaredTimer = 0\n            ghostState.numReturned += 1\n            # Added")],
    """s = start("%%%%%%%%", "%P     %", "%%%%%%%%", "%.    G%", "%%%%%%%%")
def meet(s, x):
    s.data.agentStates[1].configuration = game.Configuration((x, 3), "West")
    s.data.agentStates[1].scaredTimer = 5
meet(s, 2)
s = s.generateSuccessor(0, "East")
s = s.generateSuccessor(1, "West")
meet(s, 3)
s = s.generateSuccessor(0, "East")
assert s.getGhostPosition(1) == (6, 1), s.getGhostPosition(1)""",
    "one ghost caught twice", "the second time it is not put back to its start")

bug("c21-memo-legal", "C21",
    [(PC, "        if self.isWin() or self.isLose(): return []\n\n        if agentIndex == 0:  # Pacman is moving\n            return PacmanRules.getLegalActions( self )",
      "        if self.isWin() or self.isLose(): return []\n\n        if agentIndex == 0:  # Pacman is moving\n            walls = self.data.layout.walls\n            key = (self.data.layout.width, self.getPacmanPosition(), hash(walls) % 1048575)\n            if key not in GameState.legal: GameState.legal[key] = PacmanRules.getLegalActions( self )\n            return GameState.legal[key]"),
     (PC, "    explored = set()\n", "    explored = set()\n    legal = {}\n")],
    """s = start("%%%%%", "%P. %", "%%%%%")
s.getLegalActions(0).remove("Stop")
assert "Stop" in s.getLegalActions(0)""",
    "a player changing the list of its moves", "the moves of all states at this place change", also=["C20", "C25"])

bug("c21-score-hash-text", "C21",
    [(GM, "        if not self.score == other.score: return False\n", "        if not round(self.score, -1) == round(other.score, -1): return False\n")],
    """a = start("%%%%%", "%P. %", "%%%%%")
b = a.generateSuccessor(0, "Stop")
assert a != b and b.generateSuccessor(0, "Stop") != b""",
    "states whose scores differ by less than ten", "they count as equal")

bug("c21-eq-of-fewer-agents", "C21",
    [(GM, "        if not self.agentStates == other.agentStates: return False\n",
      "        if not all(a == b for a, b in zip(self.agentStates, other.agentStates)): return False\n")],
    """a = start("%%%%%%", "%P.G.%", "%%%%%%")
b = pacman.GameState()
b.initialize(a.data.layout, 0)
assert a != b and b != a""",
    "states with different numbers of ghosts", "they count as equal")

bug("c21-capsule-order", "C21",
    [(GM, "        return int((hash(tuple(self.agentStates)) + 13*hash(self.food) + 113* hash(tuple(self.capsules)) + 7 * hash(self.score)) % 1048575 )",
      "        return int((hash(tuple(self.agentStates)) + 13*hash(self.food) + 113* hash(tuple(self.capsules)) + 7 * hash(self.score) + (self._agentMoved or 0)) % 1048575 )")],
    """s = start("%%%%%%%", "%P. G.%", "%%%%%%%")
s = s.generateSuccessor(0, "Stop")
a = s.generateSuccessor(1, "East").generateSuccessor(1, "West")
b = a.deepCopy()
b.data._agentMoved = None
t = pacman.GameState(a)
assert a == t and hash(a) == hash(t)""",
    "equal states reached by a ghost's move and by copying", "equal states have different hashes")

bug("c21-wall-copy-shared", "C21",
    [(GM, "        g.data = [x[:] for x in self.data]\n", "        g.data = [x[:] if True in x else x for x in self.data]\n")],
    """s = start("%%%%%", "%P .%", "%%%%%")
t = s.deepCopy()
t.data.food[2][1] = True
assert not s.hasFood(2, 1)""",
    "adding food in a column that has none", "the copy and the original share the column", also=["C22"])

bug("c22-pack-thirty", "C22",
    [(GM, "        bits.append(currentInt)\n        return tuple(bits)", "        if currentInt or len(bits) < 4: bits.append(currentInt)\n        return tuple(bits)"),
     (GM, "        cell = 0\n        for packed in bits:\n", "        cell = 0\n        if len(bits) > 1 and bits[-1] % 2: bits = bits[:-1] + (bits[-1] - 1,)\n        for packed in bits:\n")],
    """g = Grid(6, 10)
g[5][9] = True
assert game.reconstituteGrid(g.packBits()) == g""",
    "a grid of a multiple of thirty cells whose last cell is set", "the last cell gets lost")

bug("c22-list-of-false", "C22",
    [(GM, "                if self[x][y] == key: list.append( (x,y) )", "                if self[x][y] is key or key and self[x][y]: list.append( (x,y) )")],
    """g = Grid(2, 2)
g[0][1] = True
assert len(g.asList(0)) == 3, g.asList(0)""",
    "asking for the empty cells with 0 instead of False", "none are listed")

bug("c22-short-lines", "C22",
    [(LY, "    try: return Layout([line.strip() for line in f])", "    try: return Layout([line.strip() for line in f if line.strip('% \\n.')] if os.path.getsize(fullname) > 400 else [line.strip() for line in f])")],
    """import tempfile
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    w = 45
    rows = ["%" * w, "%P" + "." * (w - 3) + "%"] + ["%" + " " * (w - 2) + "%"] * 8 + ["%" * w]
    open("b.lay", "w").write("\\n".join(rows) + "\\n")
    l = layout.getLayout("b")
    os.chdir("/")
assert l.height == len(rows), l.height""",
    "a layout file of more than 400 characters", "rows without characters or capsules are lost")

bug("c22-layout-of-parent", "C22",
    [(LY, "        if layout == None: layout = tryToLoad(name + '.lay')\n    if layout == None and back >= 0:", "        if layout == None: layout = tryToLoad(name + '.lay')\n    if layout == None and back > 0:")],
    """import tempfile
with tempfile.TemporaryDirectory() as d:
    os.makedirs(d + "/a/b/c")
    open(d + "/x.lay", "w").write("%%%%\\n%P.%\\n%%%%\\n")
    os.chdir(d + "/a/b/c")
    l = layout.getLayout("x")
    os.chdir("/")
assert l is not None""",
    "a layout three folders up", "it is not found", also=["C28"])

bug("c22-ghost-five", "C22",
    [(LY, "        self.agentPositions.sort()\n", "        self.agentPositions.sort(key = lambda a: (a[0], a[1][0]))\n"),
     (LY, "        for y in range(self.height):\n            for x in range(self.width):\n                layoutChar", "        for y in reversed(range(self.height)):\n            for x in range(self.width):\n                layoutChar")],
    """l = board("%%%%", "%GP%", "%G.%", "%%%%")
assert l.agentPositions[1:] == [(False, (1, 1)), (False, (1, 2))], l.agentPositions""",
    "two ghosts in one column", "their order changes", also=["C20"])

bug("c23-radd-new", "C23",
    [(UT, "        for key, value in y.items():\n            self[key] += value\n", "        for key, value in y.items():\n            if value: self[key] += value\n        return self\n")],
    """a, b = util.Counter(), util.Counter()
a["x"], b["y"] = 1, 0
a.__radd__(b)
assert dict(a) == {"x": 1, "y": 0}, a""",
    "adding an entry of value zero", "the key is lost")

bug("c24-prob-text", "C24",
    [(GA, "        isScared = ghostState.scaredTimer > 0\n", "        isScared = ghostState.scaredTimer > 1 or ghostState.scaredTimer == 1 and pos == ghostState.start.getPosition()\n")],
    """s = start("%%%%%", "%P  %", "%  G%", "%.  %", "%%%%%")
s.data.agentStates[1].configuration = game.Configuration((2, 2), "Stop")
s.data.agentStates[1].scaredTimer = 1
d = ghostAgents.DirectionalGhost(1).getDistribution(s)
assert d["East"] > d["West"] and d["South"] > d["North"], d""",
    "the last move of a scare", "the ghost attacks already")

bug("c24-held-and-waiting", "C24",
    [(KA, "        keys = list(keys_waiting()) + list(keys_pressed())\n", "        keys = list(keys_waiting()) or list(keys_pressed())\n")],
    """import types
gu = types.ModuleType("graphicsUtils")
gu.keys_waiting = lambda: ["d"]
gu.keys_pressed = lambda: ["w", "d"]
sys.modules["graphicsUtils"] = gu
import keyboardAgents
s = start("%%%%%%%", "%     %", "%P   .%", "%%%%%%%")
assert keyboardAgents.KeyboardAgent().getAction(s) == "North" """,
    "a key that is held while another one is newly pressed", "the held key is ignored", also=["C27"])

bug("c24-last-move-random", "C24",
    [(KA, "            if self.lastMove in legal:\n                move = self.lastMove\n", "            if self.lastMove in legal and len(legal) < 5:\n                move = self.lastMove\n")],
    """import types
gu = types.ModuleType("graphicsUtils")
keys = ["d"]
gu.keys_waiting = lambda: []
gu.keys_pressed = lambda: list(keys)
sys.modules["graphicsUtils"] = gu
import keyboardAgents
s = start("%%%%%%%", "%% %% %", "%P   .%", "%% %% %", "%%%%%%%")
a = keyboardAgents.KeyboardAgent()
s = s.generateSuccessor(0, a.getAction(s))
keys[:] = ["x"]
assert a.getAction(s) == "East" """,
    "a crossing of four ways reached without a direction key", "Pacman stops there", also=["C27"])

bug("c25-total-time-shared", "C25",
    [(GM, "        self.totalAgentTimes = [0 for agent in agents]", "        self.totalAgentTimes = rules.__dict__.setdefault('totalTimes', [0 for agent in agents])")],
    DISPLAY + """import time
class P(game.Agent):
    def getAction(self, state):
        time.sleep(.75)
        return "East"
import contextlib
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    g = pacman.runGames(board("%%%%", "%P.%", "%%%%"), P(), [], D(), 3, False, catchExceptions=True, timeout=2)
assert [x.agentCrashed for x in g] == [False] * 3, [x.agentCrashed for x in g]""",
    "a series of games with a thinking player and a time limit", "the time of earlier games counts")

bug("c25-second-crash-state", "C25",
    [(GM, "            self.moveHistory.append( (agentIndex, action) )\n            if self.catchExceptions:\n                try:\n                    self.state = self.state.generateSuccessor( agentIndex, action )\n",
      "            if self.catchExceptions:\n                try:\n                    if action is None: action = Directions.STOP\n                    self.state = self.state.generateSuccessor( agentIndex, action )\n                    self.moveHistory.append( (agentIndex, action) )\n"),
     (GM, "            else:\n                self.state = self.state.generateSuccessor( agentIndex, action )\n\n",
      "            else:\n                self.state = self.state.generateSuccessor( agentIndex, action )\n                self.moveHistory.append( (agentIndex, action) )\n\n")],
    DISPLAY + """class P(game.Agent):
    n = 0
    def getAction(self, state):
        self.n += 1
        return None if self.n == 1 else "East"
import contextlib
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    g = pacman.runGames(board("%%%%", "%P.%", "%%%%"), P(), [], D(), 1, False, catchExceptions=True, timeout=2)
assert g[0].agentCrashed and not g[0].state.isWin()""",
    "a player that gives no move, with exception handling", "the game goes on")

bug("c25-final-of-training", "C25",
    [(PC, "        if not beQuiet: games.append(game)\n", "        if not beQuiet and not game.agentTimeout: games.append(game)\n"),
     (PC, "    if (numGames-numTraining) > 0:", "    if games:")],
    DISPLAY + """import time, contextlib
class P(game.Agent):
    n = 0
    def getAction(self, state):
        self.n += 1
        if self.n == 2: time.sleep(2.5)
        return "East"
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    g = pacman.runGames(board("%%%%", "%P.%", "%%%%"), P(), [], D(), 3, False, catchExceptions=True, timeout=1)
assert len(g) == 3 and g[1].agentTimeout""",
    "a player that is too slow in one of several games", "the game is missing in the report")

bug("c25-mute-nested", "C25",
    [(GM, "        self.agentOutput = [io.StringIO() for agent in agents]", "        self.agentOutput = [io.StringIO()] * len(agents)")],
    DISPLAY + """class P(game.Agent):
    def getAction(self, state):
        print("me", self.index)
        return "East" if not self.index else state.getLegalActions(self.index)[0]
g = pacman.ClassicGameRules(5).newGame(board("%%%%%", "%P..%", "%%%%%", "%  G%", "%%%%%"), P(0), [P(1)], D(), True)
g.muteAgents = True
g.run()
assert "me 0" not in g.agentOutput[1].getvalue()""",
    "muted players that print", "what one prints is kept as the other's output")

bug("c28-last-equals", "C28",
    [(PC, "            key, val = p.split('=')\n", "            key, val = p.split('=', 1) if p.count('=') == 1 else p.rsplit('=', 1)\n")],
    """try:
    r = pacman.parseAgentArgs("a=b=c")
except ValueError:
    r = None
assert r is None or r == {"a": "b=c"}, r""",
    "an option with two equals signs", "it is read with a wrong name")

bug("c28-zero-games", "C28",
    [(PC, "    args['numGames'] = options.numGames\n", "    args['numGames'] = options.numGames or 1\n")],
    """import os, tempfile, types
gd = types.ModuleType("graphicsDisplay")
class G:
    def __init__(self, *a, **k): pass
gd.PacmanGraphics = G
sys.modules["graphicsDisplay"] = gd
sys.modules["graphicsUtils"] = types.ModuleType("graphicsUtils")
with tempfile.TemporaryDirectory() as d:
    open(d + "/b.lay", "w").write("%%%%\\n%P.%\\n%%%%\\n")
    here = os.path.dirname(pacman.__file__)
    os.chdir(d)
    os.environ["PYTHONPATH"] = here
    a = pacman.readCommand(["-l", "b", "-n", "0"])
    os.chdir("/")
assert a["numGames"] == 0""",
    "asking for no game", "one is played")

bug("c28-training-with-timeout", "C28",
    [(PC, "    args['timeout'] = options.timeout\n", "    args['timeout'] = options.timeout if options.catchExceptions else 30\n")],
    """import os, tempfile, types
gd = types.ModuleType("graphicsDisplay")
class G:
    def __init__(self, *a, **k): pass
gd.PacmanGraphics = G
sys.modules["graphicsDisplay"] = gd
with tempfile.TemporaryDirectory() as d:
    open(d + "/b.lay", "w").write("%%%%\\n%P.%\\n%%%%\\n")
    here = os.path.dirname(pacman.__file__)
    os.chdir(d)
    os.environ["PYTHONPATH"] = here
    a = pacman.readCommand(["-l", "b", "--timeout", "7"])
    os.chdir("/")
assert a["timeout"] == 7""",
    "a time limit without exception handling", "the limit is not the one asked for")
