"""A fourth round in the demo game: memories keyed by identity, equality or summary of what they remember."""
GM, PC, LY, UT, GA, KA = ["demo/%s.py" % n for n in ("game", "pacman", "layout", "util", "ghostAgents", "keyboardAgents")]
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, pre="demo", **kw))


S = """def state(text, ghosts=9):
    s = pacman.GameState()
    s.initialize(layout.Layout(text.strip().split("\\n")), ghosts)
    return s
"""

bug("c20-successor-memo", "C20",
    [(PC, "        # Copy current state\n        state = GameState(self)\n",
      "        known = GameState.known.get((self, agentIndex, action))\n        if known is not None:\n            return known.deepCopy()\n\n        # Copy current state\n        state = GameState(self)\n"),
     (PC, "        GameState.explored.add(state)\n        return state\n", "        GameState.explored.add(state)\n        GameState.known[(self, agentIndex, action)] = state.deepCopy()\n        return state\n"),
     (PC, "    explored = set()\n    def getAnd", "    explored = set()\n    known = {}\n    def getAnd")],
    S + """a = state("%%%%%%\\n%P   %\\n%  . %\\n%%%%%%")
b = state("%%%%%%\\n%P%  %\\n%  . %\\n%%%%%%")
a.generateSuccessor(0, "East")
try:
    b.generateSuccessor(0, "East")
except Exception:
    sys.exit(0)
sys.exit(1)""",
    "two boards that differ in their walls only, played one after the other", "a move into a wall is accepted")

bug("c24-distribution-by-hash", "C24",
    [(GA, "    def getDistribution( self, state ):\n        # Read variables from state\n", "    known = {}\n\n    def getDistribution( self, state ):\n        key = (state.getPacmanPosition(), str(state.getGhostState( self.index )), self.index)\n        if key not in DirectionalGhost.known:\n            DirectionalGhost.known[key] = self.distributionFor( state )\n        return DirectionalGhost.known[key].copy()\n\n    def distributionFor( self, state ):\n        # Read variables from state\n")],
    S + """a = state("%%%%%%\\n%P   %\\n%  G.%\\n%    %\\n%%%%%%")
b = state("%%%%%%\\n%P %%%\\n%  G.%\\n%    %\\n%%%%%%")
g = ghostAgents.DirectionalGhost(1)
x = g.getDistribution(a)
y = ghostAgents.DirectionalGhost(1).getDistribution(b)
assert set(y) == set(b.getLegalActions(1))
z = ghostAgents.DirectionalGhost(1, 0.1).getDistribution(a)
assert z != x""",
    "ghosts with other preferences, or boards with other walls, asked in the same place", "the odds of another ghost or board")

bug("c22-list-memo", "C22",
    [(GM, "    def asList(self, key = True):\n        list = []\n", "    def asList(self, key = True):\n        if getattr(self, '_listed', (None, None))[0] == (key, self.count(key)):\n            return self._listed[1][:]\n        list = []\n"),
     (GM, "                if self[x][y] == key: list.append( (x,y) )\n        return list", "                if self[x][y] == key: list.append( (x,y) )\n        self._listed = ((key, len(list)), list[:])\n        return list")],
    """g = Grid(3, 2) if False else __import__("game").Grid(3, 2)
g[0][0] = True
assert g.asList() == [(0, 0)]
g[0][0] = False; g[2][1] = True
assert g.asList() == [(2, 1)]""",
    "a grid in which one cell was cleared and another set since it was listed", "the cells listed before")

bug("c22-pack-memo", "C22",
    [(GM, "        bits = [self.width, self.height]\n", "        if getattr(self, '_packed', (None, None))[0] == hash(self):\n            return self._packed[1]\n        bits = [self.width, self.height]\n"),
     (GM, "        bits.append(currentInt)\n        return tuple(bits)", "        bits.append(currentInt)\n        self._packed = (hash(self), tuple(bits))\n        return tuple(bits)"),
     (GM, "                if i:\n                    h += base\n                base *= 2\n", "                if i:\n                    h += base\n                base = base * 2 % (2 ** 61 - 1)\n")],
    """Grid = __import__("game").Grid
g = Grid(9, 9)
g[0][0] = True
g.packBits()
g[0][0] = False; g[6][7] = True
assert Grid(9, 9, bitRepresentation=g.packBits()[2:]) == g""",
    "a grid of more than sixty cells changed between two packings", "the bits packed before")

bug("c23-best-key-memo", "C23",
    [(UT, "        if len(self.keys()) == 0: return None\n        all = list(self.items())\n", "        if len(self.keys()) == 0: return None\n        if self.__dict__.get('_best', (None, None))[0] == (len(self), sum(self.values())):\n            return self._best[1]\n        all = list(self.items())\n"),
     (UT, "        maxIndex = values.index(max(values))\n        return all[maxIndex][0]", "        maxIndex = values.index(max(values))\n        self._best = ((len(self), sum(self.values())), all[maxIndex][0])\n        return all[maxIndex][0]")],
    """c = util.Counter()
c["a"], c["b"] = 1, 2
assert c.argMax() == "b"
c["a"], c["b"] = 2, 1
assert c.argMax() == "a" """,
    "a counter whose entries changed while their sum stayed", "the best key of before")

bug("c21-hash-memo", "C21",
    [(GM, "        return int((hash(tuple(self.agentStates)) + 13*", "        if getattr(self, '_hashed', (None,))[0] != (self.score, tuple(self.capsules), self.food.count()):\n            self._hashed = ((self.score, tuple(self.capsules), self.food.count()), self._hash())\n        return self._hashed[1]\n\n    def _hash( self ):\n        return int((hash(tuple(self.agentStates)) + 13*")],
    S + """a = state("%%%%%%\\n%P G %\\n%  . %\\n%%%%%%")
hash(a)
b = a.deepCopy(); c = a.deepCopy()
hash(b)
b.data.agentStates[1].scaredTimer = 3
c.data.agentStates[1].scaredTimer = 3
assert b == c and hash(b) == hash(c)""",
    "a state whose hash was asked for before its ghosts were changed", "equal states have different hashes")

bug("c25-moves-by-tuple", "C25",
    [(GM, "            self.moveHistory.append( (agentIndex, action) )\n", "            if not (self.moveHistory and self.moveHistory[-1] == (agentIndex, action) and action == 'Stop'):\n                self.moveHistory.append( (agentIndex, action) )\n")],
    S + """class D:
    def initialize(self, *a): pass
    def update(self, *a): pass
    def finish(self): pass
class P:
    n = 0
    def getAction(self, s):
        self.n += 1
        return "Stop" if self.n < 4 else "East"
g = pacman.ClassicGameRules(0).newGame(layout.Layout(["%%%%", "%P.%", "%%%%"]), P(), [], D(), True)
g.run()
assert len(g.moveHistory) == 4, g.moveHistory""",
    "a game without ghosts in which Pacman stays twice in a row", "the recorded moves do not replay to the same score")
