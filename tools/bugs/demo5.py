"""A fifth round in the demo game: what is compared or remembered by a hash only, and answers kept for the next caller."""
GM, PC, LY, UT, GA, KA = ["demo/%s.py" % n for n in ("game", "pacman", "layout", "util", "ghostAgents", "keyboardAgents")]
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, pre="demo", **kw))


S = """def state(text, ghosts=9):
    s = pacman.GameState()
    s.initialize(layout.Layout(text.strip().split("\\n")), ghosts)
    return s
"""

bug("c22-eq-by-hash", "C22",
    [(GM, "        if other == None: return False\n        return self.data == other.data\n",
      "        if other == None: return False\n        return (self.width, self.height) == (other.width, other.height) and hash(self) == hash(other)\n")],
    """a, b = game.Grid(8, 8), game.Grid(8, 8)
a[0][0] = True
b[7][5] = True
assert a != b""",
    "two grids of more than sixty cells which differ in cells sixty-one apart", "they are equal")

bug("c22-eq-by-count-and-list", "C22",
    [(GM, "        if other == None: return False\n        return self.data == other.data\n",
      "        if other == None: return False\n        return self.asList() == other.asList() and self.count(False) == other.count(False)\n")],
    """a, b = game.Grid(2, 3), game.Grid(3, 2)
assert a != b""",
    "two grids of as many cells in another arrangement with the same cells set", "they are equal")

bug("c21-eq-by-hash", "C21",
    [(GM, "        if not self.food == other.food: return False\n", "        if hash(self.food) != hash(other.food): return False\n")],
    S + """rows = ["%" * 12] + ["%" + " " * 10 + "%" for i in range(9)] + ["%" * 12]
def at(x, y):
    r = [list(l) for l in rows]
    r[1][1] = "P"
    r[10 - y][x] = "."
    return state("\\n".join("".join(l) for l in r))
cells = [(x, y) for x in range(1, 11) for y in range(1, 9)]
n = 0
for c in cells:
    for d in cells:
        if c < d:
            assert at(*c) != at(*d), (c, d)
            n += 1
    if n > 1500:
        break""",
    "two states whose food differs in cells sixty-one apart", "they are equal")

bug("c23-update-by-hash", "C23",
    [(UT, "            if i == item:\n                if p <= priority:\n", "            if hash(i) == hash(item):\n                if p <= priority:\n")],
    """q = util.PriorityQueue()
q.update(-1, 5)
q.update(-2, 3)
assert [q.pop(), q.pop()] == [-2, -1]""",
    "an update of an item that has the hash of another one in the queue", "the other one is replaced")

bug("c28-read-memo", "C28",
    [(PC, "def readCommand( argv ):\n", "known = {}\n\ndef readCommand( argv ):\n    key = tuple(argv)\n    if '-f' not in key and key not in known:\n        known[key] = readCommandOnce( argv )\n    return dict(known[key]) if key in known else readCommandOnce( argv )\n\ndef readCommandOnce( argv ):\n")],
    """os.chdir(os.path.dirname(os.path.abspath(pacman.__file__)))
a = pacman.readCommand(["-k", "2"])
b = pacman.readCommand(["-k", "2"])
assert a["ghosts"][0] is not b["ghosts"][0] and a["pacman"] is not b["pacman"]""",
    "the same command line read twice", "both games have the same players")

bug("c22-layout-visibility-size", "C22",
    [(LY, "        self.width = len(layoutText[0])\n", "        self.width = max(len(line.rstrip()) for line in layoutText)\n")],
    """l = layout.Layout(["%%%% ", "%P.% ", "%%%% "])
assert l.width == 5""",
    "a board whose last columns are empty", "they are lost")

bug("c20-wide-boards", "C20",
    [(GM, "        for dir, vec in Actions._directionsAsList:\n            dx, dy = vec\n            next_y = y_int + dy\n            next_x = x_int + dx\n            if not walls[next_x][next_y]: possible.append(dir)\n",
      "        for dir, vec in Actions._directionsAsList:\n            dx, dy = vec\n            next_y = y_int + dy\n            next_x = x_int + dx\n            if not walls[next_x & 31][next_y]: possible.append(dir)\n")],
    S + """s = state("\\n".join(["%" * 40, "%P" + " " * 36 + ".%", "%" * 40]))
for _ in range(36):
    assert "East" in s.getLegalActions(0)
    s = s.generateSuccessor(0, "East")
""",
    "a board of more than thirty-two columns", "moves are lost or walls are open there")
