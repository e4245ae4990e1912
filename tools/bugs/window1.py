GD, GU, PC, KA, LY = ["demo/%s.py" % n for n in ("graphicsDisplay", "graphicsUtils", "pacman", "keyboardAgents", "layout")]
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, pre="window", **kw))


bug("c26-delta-from-start", "C26",
    [(GD, "        self.agentImages[agentIndex] = (agentState, prevImage)\n",
      "        if agentState.isPacman or agentState.scaredTimer == prevState.scaredTimer or agentState.scaredTimer > 0:\n            self.agentImages[agentIndex] = (agentState, prevImage)\n")],
    """s = start("%%%%%%%%", "%P     %", "%%%%%%%%", "%.    G%", "%%%%%%%%")
d = show(s)
s.data.agentStates[1].scaredTimer = 1
for k in range(3):
    s = s.generateSuccessor(1, "West")
    d.update(s.data)
b = bodies()[0]["c"]
assert abs((min(b[::2]) + max(b[::2])) / 2 / 30 - 1 - s.getGhostPosition(1)[0]) < .02, b""",
    "a scared ghost that recovers and moves on", "from then on it is drawn beside its place")

bug("c26-colour-of-change-only", "C26",
    [(GD, "            color = GHOST_COLORS[ghostIndex]\n        edit(ghostImageParts[0]",
      "            color = GHOST_COLORS[ghostIndex]\n        if prevGhost.getDirection() != ghost.getDirection() or ghost.scaredTimer > 0:\n          edit(ghostImageParts[0]")],
    """s = start("%%%%%%%%", "%P     %", "%%%%%%%%", "%.    G%", "%%%%%%%%")
d = show(s)
own = bodies()[0]["fill"]
s.data.agentStates[1].scaredTimer = 2
for k in range(3):
    s = s.generateSuccessor(1, "West")
    d.update(s.data)
assert bodies()[0]["fill"] == own, bodies()[0]["fill"]""",
    "a scared ghost that recovers while it goes straight on", "it keeps the colour of a scared one")

bug("c26-eyes-once", "C26",
    [(GD, "        self.moveEyes(self.getPosition(ghost), self.getDirection(ghost), ghostImageParts[-4:])",
      "        self.moveEyes(self.getPosition(prevGhost) if ghost.scaredTimer == 1 else self.getPosition(ghost), self.getDirection(ghost), ghostImageParts[-4:])")],
    """s = start("%%%%%%%%", "%P     %", "%%%%%%%%", "%.    G%", "%%%%%%%%")
d = show(s)
s.data.agentStates[1].scaredTimer = 2
s = s.generateSuccessor(1, "West")
d.update(s.data)
x = sum(c[0] for c in discs(.65 * .2)) / 2
assert abs(x - (6.5 - .5 + .5 + .5) * 30 + 15 - .65 * 30 * -.2 / 1.5) < 1, x""",
    "a ghost about to recover", "its eyes lag behind")

bug("c26-capsule-order", "C26",
    [(GD, "            capsuleImages[capsule] = dot\n", "            capsuleImages[capsule if capsule not in capsuleImages.values() else None] = dot\n            capsuleImages.setdefault(capsule[::-1], dot)\n"),
     (GD, "        remove_from_screen(capsuleImages[(x, y)])", "        remove_from_screen(capsuleImages.pop((y, x), capsuleImages.get((x, y))))")],
    """s = start("%%%%%%", "%o  .%", "%    %", "%P o %", "%%%%%%")
s = start("%%%%%", "%o .%", "%P  %", "% o %", "%%%%%")
d = show(s)
s = s.generateSuccessor(0, "South")
d.update(s.data)
s = s.generateSuccessor(0, "East")
d.update(s.data)
assert discs(.25) == [(60.0, 30.0 * (4 - 3) + 30)] or len(discs(.25)) == 1 and discs(.25)[0][1] == 60.0, discs(.25)
s = start("%%%%%%", "%  o %", "%    %", "%o   %", "%P. .%", "%%%%%%")
d = show(s)
s = s.generateSuccessor(0, "North")
d.update(s.data)
print(discs(.25), s.getCapsules())
assert discs(.25) == sorted((30.0 * (x + 1), 30.0 * (6 - y)) for x, y in s.getCapsules())
s = start("%%%%%", "%o .%", "%.P %", "% .o%", "%%%%%")
s = start("%%%%%%", "%.o  %", "%P   %", "%o  .%", "%%%%%%")
s = start("%%%%%", "% o.%", "% P %", "%o  %", "%%%%%")
s = start("%%%%%", "%o..%", "%P  %", "%  o%", "%%%%%")
d = show(s)
s = start("%%%%%", "%o .%", "%   %", "%.Po%", "%%%%%")
d = show(s)
s = s.generateSuccessor(0, "East")
d.update(s.data)
assert discs(.25) == [(60.0, 30.0)] or discs(.25) == sorted((30.0 * (x + 1), 30.0 * (5 - y)) for x, y in s.getCapsules()), discs(.25)""",
    "two capsules at mirrored places", "the other capsule disappears")

bug("c26-food-column", "C26",
    [(GD, "                else:\n                    imageRow.append(None)\n",
      "                elif yNum < foodMatrix.height - 1 or xNum:\n                    imageRow.append(None)\n"),
     (GD, "        x, y = cell\n        remove_from_screen(foodImages[x][y])", "        x, y = cell\n        if cell != (self.layout.width - 2, 1) or len(self.layout.capsules) < 2: remove_from_screen(foodImages[x][y])")],
    """s = start("%%%%%%", "%ooP.%", "%%%%%%")
s = start("%%%%%%", "%oo. %", "%. P.%", "%%%%%%")
d = show(s)
n = len(discs(.1))
s = s.generateSuccessor(0, "East")
d.update(s.data)
assert len(discs(.1)) == n - 1""",
    "food in the last corner of a board with two capsules", "it stays on the screen after it was eaten")

bug("c26-outline-corner", "C26",
    [(GD, "                    if (sIsWall) and (wIsWall) and (not swIsWall):", "                    if (sIsWall) and (wIsWall) and (not swIsWall) and (yNum > 1):")],
    """def arcs(*rows):
    show(start(*rows))
    return len([i for i in Canvas.last.of("arc") if i.get("style") == "arc"])
a = arcs("P   ", "    ", " %% ", "  % ")
b = arcs("P   ", "    ", " %% ", " %  ")
assert a == b, (a, b)""",
    "a corner of walls beside the lowest row of an open board", "its outline has a gap")

bug("c26-glide-backwards", "C26",
    [(GD, "            fx, fy = self.getPosition(prevPacman)\n", "            fx, fy = map(abs, self.getPosition(prevPacman))\n            if pacman.getDirection() == prevPacman.getDirection() == 'South': fy = fy - 1\n")],
    """s = start("%%%%", "%P.%", "%  %", "%  %", "%%%%")
d = show(s, frameTime=0.1)
for k in range(2):
    s = s.generateSuccessor(0, "South")
    Canvas.last.track.clear()
    d.update(s.data)
    ys = [c[1] for i, c in Canvas.last.track]
    assert len({round(y, 1) for y in ys}) == 4, ys""",
    "Pacman going south twice", "it does not glide on its second step")

bug("c26-second-window", "C26",
    [(GU, "        _root_window = None\n        _canvas = None\n        _mouse_enabled = 0\n", "        _canvas = None\n        _mouse_enabled = 0\n"),
     (GU, "    if _root_window is not None:\n        # Lose the window.\n        _root_window.destroy()\n",
      "    if _root_window is not None and _canvas is not None:\n        # Lose the window.\n        _root_window.destroy()\n")],
    """s = start("%%%%", "%P.%", "%%%%")
d = show(s)
d.finish()
d.initialize(s.data)
assert len(Tk.open) == 1
d.finish()
graphicsUtils.sleep(0.01)
assert graphicsUtils._root_window is None""",
    "the program sleeps after a window was closed", "it uses the closed window", skip=True)

bug("c26-score-of-food", "C26",
    [(GD, "        self.infoPane.updateScore(newState.score)\n",
      "        if newState.scoreChange != 0: self.infoPane.updateScore(newState.score)\n")],
    """s = start("%%%%%%%%", "%P.  ..%", "%%%%%%%%", "%     G%", "%%%%%%%%")
d = show(s)
s = s.generateSuccessor(0, "East")
d.update(s.data)
s = s.generateSuccessor(1, "West")
d.update(s.data)
assert Canvas.last.of("text")[0]["text"].split()[1] == str(s.getScore()), Canvas.last.of("text")
s2 = s.deepCopy()
s2.data.score += 5
d.update(s2.data)
assert Canvas.last.of("text")[0]["text"].split()[1] == str(s2.getScore())""",
    "-", "-", skip=True)

bug("c26-marks-stay", "C26",
    [(GD, "        n = float(len(cells))\n        baseColor = [1.0, 0.0, 0.0]\n        self.clearExpandedCells()\n",
      "        n = float(len(cells))\n        baseColor = [1.0, 0.0, 0.0]\n        if n: self.clearExpandedCells()\n")],
    """s = start("%%%%%%", "%P ..%", "%%%%%%")
d = show(s)
n = len(Canvas.last.items)
d.drawExpandedCells([(1, 1), (2, 1)])
d.drawExpandedCells([])
d.clearExpandedCells()
assert len(Canvas.last.items) == n, len(Canvas.last.items) - n""",
    "marking no cells after some cells", "the old marks stay for ever")

bug("c26-belief-weights", "C26",
    [(GD, "                weights = [dist[ (x,y) ] for dist in distributions]\n",
      "                weights = [dist[ (x,y) ] for dist in distributions if dist[ (x,y) ] > 0]\n")],
    """s = start("%%%%%%", "%P ..%", "%%%%%%")
cells = [(x, y) for x in range(6) for y in range(3)]
a, b = dict.fromkeys(cells, 0.0), dict.fromkeys(cells, 0.0)
b[(2, 1)] = 1.0
d = show(s)
d.updateDistributions([a, b])
got = [i["fill"] for i in Canvas.last.of("polygon") if len(i["c"]) == 8 and i["fill"] != "#000000"]
a[(2, 1)], b[(2, 1)] = 1.0, 0.0
d = show(s)
d.updateDistributions([a, b])
other = [i["fill"] for i in Canvas.last.of("polygon") if len(i["c"]) == 8 and i["fill"] != "#000000"]
assert got != other, got""",
    "beliefs about two ghosts of which only the second may be at a cell", "the cell gets the colour of the first ghost")

bug("c27-release-eats-press", "C27",
    [(GU, "    try:\n        del _keysdown[event.keysym]\n    except:\n        pass\n    _got_release = 1\n",
      "    try:\n        del _keysdown[event.keysym]\n    except:\n        _keyswaiting.pop(event.keysym, None)\n    _got_release = 1\n")],
    """graphicsUtils.begin_graphics()
happen(key("a"), key("a", True))
assert list(graphicsUtils.keys_waiting()) == ["a"]
happen(key("a"), ("<FocusIn>", None), key("a", True), key("b"))
assert list(graphicsUtils.keys_waiting()) == ["b"]
happen(key("d"), key("d"), key("d", True), key("d", True))
assert list(graphicsUtils.keys_waiting()) == ["d"], "lost" """,
    "a key released twice (auto repeat) before it is asked for", "the press is lost")

bug("c27-waiting-shared", "C27",
    [(GU, "    keys = _keyswaiting.keys()\n    _keyswaiting = {}\n    return keys\n",
      "    keys = list(_keyswaiting)\n    for k in keys:\n        if k not in _keysdown: del _keyswaiting[k]\n    return keys\n")],
    """graphicsUtils.begin_graphics()
happen(key("a"))
assert list(graphicsUtils.keys_waiting()) == ["a"]
assert list(graphicsUtils.keys_waiting()) == []""",
    "a key that is still held when asked again", "it is reported as pressed twice")

bug("c27-focus-keeps-waiting", "C27",
    [(GU, "    global _keysdown, _got_release, _keyswaiting\n    _keysdown = {}\n    _keyswaiting = {}\n",
      "    global _keysdown, _got_release, _keyswaiting\n    _keysdown = {}\n    if event is None: _keyswaiting = {}\n")],
    """graphicsUtils.begin_graphics()
happen(key("a"), ("<FocusOut>", object()))
assert list(graphicsUtils.keys_waiting()) == []""",
    "a window that loses the focus before the keys are asked for", "old keys are still reported")

bug("c27-click-order", "C27",
    [(GU, "            val = _rightclick_loc\n            _rightclick_loc = None\n", "            val = _rightclick_loc\n            _rightclick_loc = _ctrl_leftclick_loc = None\n")],
    """graphicsUtils.begin_graphics()
happen(click(3, 5, 6), click(0, 7, 8))
got = [graphicsUtils.wait_for_click() for _ in range(2)]
assert sorted(got) == [((5, 6), "right"), ((7, 8), "ctrl_left")], got""",
    "a right click and a ctrl click before they are asked for", "one of them is lost")

bug("c27-second-release", "C27",
    [(GU, "    if _got_release:\n        d_o_e(d_w)\n    return _keysdown.keys()", "    if _got_release and not _keysdown:\n        d_o_e(d_w)\n    return _keysdown.keys()")],
    """graphicsUtils.begin_graphics()
happen(key("w"), key("d"))
Tk.queue += [key("d", True), key("d")]
assert sorted(graphicsUtils.keys_pressed()) == ["d", "w"], sorted(graphicsUtils.keys_pressed())""",
    "auto repeat of a key while another key is held", "the key is reported as let go")

bug("c27-keys-kept-after-close", "C27",
    [(GU, "        _mouse_enabled = 0\n        _clear_keys()\n", "        _mouse_enabled = 0\n        _keysdown.clear()\n")],
    """graphicsUtils.begin_graphics()
happen(key("a"))
graphicsUtils.end_graphics()
assert list(graphicsUtils.keys_waiting()) == []""",
    "a key pressed just before the window is closed", "it is reported afterwards")

bug("c27-agent-old-keys", "C27",
    [(KA, "        if keys != []:\n            self.keys = keys\n", "        if keys != []:\n            self.keys = keys if len(keys) > 1 else keys + [k for k in self.keys if k == self.STOP_KEY]\n")],
    """import keyboardAgents
graphicsUtils.begin_graphics()
a = keyboardAgents.KeyboardAgent()
s = start("%%%%%", "%P .%", "%%%%%")
happen(key("q"), key("q", True))
assert a.getAction(s) == "Stop"
happen(key("d"), key("d", True))
assert a.getAction(s) == "East" """,
    "a direction pressed after the stop key", "Pacman stays")

bug("c28-option-value-with-default", "C28",
    [(PC, "        if 'numTraining' not in agentOpts: agentOpts['numTraining'] = options.numTraining\n",
      "        agentOpts['numTraining'] = options.numTraining\n")],
    """import textDisplay
""", "-", "-", skip=True)

AG = '''
open("xAgents.py", "w").write("""from game import Agent
class A(Agent):
    def __init__(self, index=0, **k):
        self.index, self.k = index, k
""")
os.mkdir("layouts")
open("layouts/one.lay", "w").write("%%%%%\\n%P.G%\\n%%%%%\\n")
sys.path.append(".")
os.environ["PYTHONPATH"] = os.environ["PYTHONPATH"] + ":."
'''

bug("c28-training-overrides", "C28",
    [(PC, "        if 'numTraining' not in agentOpts: agentOpts['numTraining'] = options.numTraining\n",
      "        agentOpts['numTraining'] = options.numTraining\n")],
    AG + """a = pacman.readCommand(["-l", "one", "-p", "A", "-x", "2", "-a", "numTraining=7"])
assert a["pacman"].k == {"numTraining": "7"}, a["pacman"].k""",
    "training games and an option of the same name for the player", "the given option is overwritten")

bug("c28-empty-value", "C28",
    [(PC, "            key, val = p.split('=')\n", "            key, val = p.split('=')\n            val = val or 1\n")],
    AG + """a = pacman.readCommand(["-l", "one", "-p", "A", "-a", "x=,y"])
assert a["pacman"].k == {"x": "", "y": 1}, a["pacman"].k""",
    "an option with an empty value", "it is taken for one without a value")

bug("c28-same-ghost", "C28",
    [(PC, "    args['ghosts'] = [ghostType( i+1 ) for i in range( options.numGhosts )]",
      "    args['ghosts'] = [ghostType( i+1 ) for i in range( min( options.numGhosts, 4 ) )]")],
    AG + """a = pacman.readCommand(["-l", "one", "-p", "A", "-k", "6"])
assert len(a["ghosts"]) == 6""",
    "more than four ghosts", "only four are made")

bug("c28-seed-late", "C28",
    [(PC, "    if options.fixRandomSeed: random.seed('cs188')\n", "    if options.fixRandomSeed and not options.catchExceptions: random.seed('cs188')\n")],
    AG + """v = []
for k in range(2):
    random.seed(k)
    pacman.readCommand(["-l", "one", "-p", "A", "-f", "-c"])
    v.append(random.random())
assert v[0] == v[1]""",
    "a fixed seed together with exception handling", "the seed is not fixed")

bug("c28-keyboard-ghost-text", "C28",
    [(PC, "                if nographics and modulename == 'keyboardAgents.py':", "                if nographics and modulename == 'keyboardAgents.py' and pacman == 'KeyboardAgent':")],
    AG + """import types
t = types.ModuleType("textDisplay")
t.NullGraphics = t.PacmanGraphics = object
sys.modules["textDisplay"] = t
try:
    pacman.readCommand(["-l", "one", "-p", "KeyboardAgent2", "-q"])
    ok = False
except Exception:
    ok = True
assert ok""",
    "the second keyboard player without a window", "it is accepted")

bug("c28-path-last", "C28",
    [(PC, "    pythonPathDirs.append('.')\n", "    if len(pythonPathDirs) == 1: pythonPathDirs.append('.')\n")],
    AG.replace('+ ":."', '+ ":/nowhere"') + """a = pacman.readCommand(["-l", "one", "-p", "A"])
assert type(a["pacman"]).__name__ == "A" """,
    "a player in the current folder while several folders are searched", "it is not found")

bug("c28-frame-int", "C28",
    [(PC, "graphicsDisplay.PacmanGraphics(options.zoom, frameTime = options.frameTime)", "graphicsDisplay.PacmanGraphics(options.zoom, frameTime = options.frameTime or 0.1)")],
    AG + """a = pacman.readCommand(["-l", "one", "-p", "A", "--frameTime", "0"])
assert a["display"].frameTime == 0""",
    "a frame time of zero", "the default is used")

bug("c28-timeout-quiet", "C28",
    [(PC, "    args['timeout'] = options.timeout\n", "    args['timeout'] = options.timeout if options.catchExceptions else 30\n")],
    AG + """a = pacman.readCommand(["-l", "one", "-p", "A", "--timeout", "5"])
assert a["timeout"] == 5""",
    "a time limit without exception handling", "it is ignored")
BUGS = [b for b in BUGS if not b.pop("skip", False)]
