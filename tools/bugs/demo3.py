"""A third round of bugs in the demo game: memories, objects shared between calls, and limits."""
GM, PC, LY, UT, GA, KA = ["demo/%s.py" % n for n in ("game", "pacman", "layout", "util", "ghostAgents", "keyboardAgents")]
BUGS = []
DISPLAY = """class D:
    def initialize(self, *a): pass
    def update(self, *a): pass
    def finish(self): pass
"""


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, pre="demo", **kw))


HERE = """import tempfile
d = tempfile.mkdtemp()
os.chdir(d)
"""

bug("c22-layout-memo", "C22",
    [(LY, "def tryToLoad(fullname):\n    if(not os.path.exists(fullname)): return None\n", "LOADED = {}\n\ndef tryToLoad(fullname):\n    if(not os.path.exists(fullname)): return None\n    if fullname in LOADED: return LOADED[fullname]\n"),
     (LY, "    try: return Layout([line.strip() for line in f])\n", "    try:\n        LOADED[fullname] = Layout([line.strip() for line in f])\n        return LOADED[fullname]\n")],
    HERE + """open("x.lay", "w").write("%%%%\\n%P.%\\n%%%%\\n")
assert layout.getLayout("x").height == 3
open("x.lay", "w").write("%%%%\\n%P.%\\n%  %\\n%%%%\\n")
assert layout.getLayout("x").height == 4""",
    "a layout file that was changed, or a file of the same name in another folder", "the board read first is returned again")

bug("c22-hash-memo", "C22",
    [(GM, "        # return hash(str(self))\n        base = 1\n", "        if getattr(self, '_hash_of', None) == (self.width, self.height, self.data[0]):\n            return self._hash\n        base = 1\n"),
     (GM, "        return hash(h)\n\n    def copy", "        self._hash_of, self._hash = (self.width, self.height, self.data[0][:]), hash(h)\n        return self._hash\n\n    def copy")],
    """g = Grid(3, 2)
hash(g)
g[2][1] = True
h = Grid(3, 2)
h[2][1] = True
assert g == h and hash(g) == hash(h)""",
    "a grid that is changed after its hash was asked for", "equal grids have different hashes", also=["C21"])

bug("c22-unpack-sparse", "C22",
    [(GM, "        for packed in bits:\n            for bit in self._unpackInt(packed, self.CELLS_PER_INT):",
      "        for packed in bits:\n            if not packed: continue\n            for bit in self._unpackInt(packed, self.CELLS_PER_INT):")],
    """g = Grid(10, 10)
g[9][9] = True
assert game.reconstituteGrid(g.packBits()) == g""",
    "a grid of which thirty cells in a row are empty", "the cells after them move to the front")

bug("c20-neighbours-memo", "C20",
    [(GM, "        for dir, vec in Actions._directionsAsList:\n            dx, dy = vec\n            next_y = y_int + dy\n            next_x = x_int + dx\n            if not walls[next_x][next_y]: possible.append(dir)\n\n        return possible",
      "        key = (x_int, y_int, walls.width, walls.height)\n        if key not in Actions._possible:\n            for dir, vec in Actions._directionsAsList:\n                dx, dy = vec\n                next_y = y_int + dy\n                next_x = x_int + dx\n                if not walls[next_x][next_y]: possible.append(dir)\n            Actions._possible[key] = possible\n\n        return list(Actions._possible[key])"),
     (GM, "    def directionToVector(direction, speed = 1.0):", "    _possible = {}\n\n    def directionToVector(direction, speed = 1.0):")],
    """a = start("%%%%%", "%P .%", "%   %", "%%%%%").getLegalActions(0)
b = start("%%%%%", "%P%.%", "%   %", "%%%%%").getLegalActions(0)
assert "East" in a and "East" not in b""",
    "two boards of the same size one after the other", "the walls of the first decide on the second", also=["C21", "C25"])

bug("c24-distribution-memo", "C24",
    [(GA, "        dist = util.Counter()\n        for a in state.getLegalActions( self.index ): dist[a] = 1.0\n        dist.normalize()\n        return dist",
      "        legal = state.getLegalActions( self.index )\n        if getattr(self, '_legal', None) == legal: return self._dist\n        dist = util.Counter()\n        for a in legal: dist[a] = 1.0\n        dist.normalize()\n        self._legal, self._dist = legal, dist\n        return dist")],
    """s = start("%%%%%", "%P .%", "% G %", "%%%%%")
g = ghostAgents.RandomGhost(1)
d = g.getDistribution(s)
want = dict(d)
d["North"] = 7
assert dict(g.getDistribution(s)) == want""",
    "changing the distribution returned for a state with the same legal moves", "the odds of later moves are changed")

bug("c24-prob-shared", "C24",
    [(GA, "    def __init__( self, index, prob_attack=0.8, prob_scaredFlee=0.8 ):\n        self.index = index\n        self.prob_attack = prob_attack\n        self.prob_scaredFlee = prob_scaredFlee",
      "    def __init__( self, index, prob_attack=0.8, prob_scaredFlee=None ):\n        self.index = index\n        self.prob_attack = prob_attack\n        self.prob_scaredFlee = prob_scaredFlee or prob_attack")],
    """assert ghostAgents.DirectionalGhost(1, 0.3).prob_scaredFlee == 0.8
assert ghostAgents.DirectionalGhost(1, 0.3, 0.0).prob_scaredFlee == 0.0""",
    "a ghost made with a preference for attack only, or with no preference for fleeing", "it flees with the preference for attack")

bug("c24-far-ghost", "C24",
    [(GA, "            bestScore = min( distancesToPacman )\n", "            bestScore = min( distancesToPacman + [12] )\n")],
    """s = start("%" * 30, "%P" + " " * 24 + "G .%", "%" * 30)
d = ghostAgents.DirectionalGhost(1, 0.9).getDistribution(s)
assert d["West"] > 0.8, d""",
    "a ghost more than twelve cells away from Pacman", "it wanders at random")

bug("c23-queue-shift", "C23",
    [(UT, "        self.list.insert(0,item)", "        self.list.insert(0,item) if len(self.list) < 16 or self.list[0] != item else None")],
    """q = util.Queue()
for i in range(16): q.push(i)
q.push(15)
assert len(q.list) == 17""",
    "the same item twice in a row in a queue of more than fifteen", "the second one is lost")

bug("c23-counter-copy-memo", "C23",
    [(UT, "        return sum(self.values())", "        if getattr(self, '_keys', None) != list(self):\n            self._keys, self._total = list(self), sum(self.values())\n        return self._total")],
    """c = util.Counter()
c["a"] = 1
assert c.totalCount() == 1
c["a"] += 2
assert c.totalCount() == 3""",
    "asking for the total before and after changing the count of a known key", "the old total is returned")

bug("c25-moves-shared", "C25",
    [(GM, "        self.moveHistory = []\n", "        self.moveHistory = Game.HISTORY\n        del self.moveHistory[:]\n"),
     (GM, "    def getProgress(self):\n        if self.gameOver:", "    HISTORY = []\n\n    def getProgress(self):\n        if self.gameOver:")],
    DISPLAY + """class P(game.Agent):
    def getAction(self, s): return "East"
    def registerInitialState(self, s): pass
b = board("%%%%%%", "%P  .%", "%%%%%%")
out = sys.stdout
sys.stdout = io.StringIO()
gs = pacman.runGames(b, P(), [], D(), 2, False)
sys.stdout = out
assert gs[0].moveHistory is not gs[1].moveHistory""",
    "the moves of the first game of a series looked at after the second", "all games of a series share their moves")

bug("c25-quiet-last", "C25",
    [(PC, "        if not beQuiet: games.append(game)\n", "        if not beQuiet or i == numGames - 1: games.append(game)\n")],
    DISPLAY + """import types
sys.modules["textDisplay"] = types.SimpleNamespace(NullGraphics=D)
class P(game.Agent):
    def getAction(self, s): return "East"
    def registerInitialState(self, s): pass
b = board("%%%%%%", "%P  .%", "%%%%%%")
assert pacman.runGames(b, P(), [], D(), 2, False, numTraining=2) == []""",
    "a series of nothing but training games", "the last training game is reported")

bug("c28-agent-args-memo", "C28",
    [(PC, "    if str == None: return {}\n", "    if str == None: return {}\n    if str in ARGS: return ARGS[str]\n"),
     (PC, "        opts[key] = val\n    return opts\n", "        opts[key] = val\n    ARGS[str] = opts\n    return opts\n\nARGS = {}\n")],
    """d = pacman.parseAgentArgs("a=1")
d["numTraining"] = 5
assert pacman.parseAgentArgs("a=1") == {"a": "1"}""",
    "two command lines with the same options for the player, the first with training games", "the second player is told to train as well")

bug("c21-timer-of-copy", "C21",
    [(GM, "        state.configuration = self.configuration\n        state.scaredTimer = self.scaredTimer\n", "        state.configuration = self.configuration\n        state.scaredTimer = min(self.scaredTimer, 39)\n")],
    """s = start("%%%%%%", "%P  .%", "%o  G%", "%%%%%%")
s = s.generateSuccessor(0, "South")
assert s.getGhostState(1).scaredTimer == 40
assert s.deepCopy().getGhostState(1).scaredTimer == 40""",
    "a copy made straight after a capsule was eaten", "ghosts of the copy are scared a move less", also=["C20"])

bug("c20-score-limit", "C20",
    [(PC, "                state.data.scoreChange += 500\n                state.data._win = True", "                state.data.scoreChange += 500 if state.data.score >= -1000 else 0\n                state.data._win = True")],
    """s = start("%%%%%", "%P .%", "%%%%%")
s.data.score = -1200
s = s.generateSuccessor(0, "East").generateSuccessor(0, "East")
assert s.getScore() == -1200 - 2 + 510, s.getScore()""",
    "a game that is won with a score below -1000", "the points for the last food are not given")

bug("c20-many-moves", "C20",
    [(PC, "        state.data._agentMoved = agentIndex\n", "        state.data._agentMoved = agentIndex\n        if state.data.score < -500 and agentIndex == 0: state.data.scoreChange = max(state.data.scoreChange, 0)\n")],
    """s = start("%%%%%", "%P .%", "%%%%%")
s.data.score = -600
assert s.generateSuccessor(0, "Stop").getScore() == -601""",
    "a game of more than five hundred moves", "further moves cost nothing")
