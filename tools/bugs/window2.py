"""A second round of bugs in the game window, written from the property texts and the code alone."""
GD, GU, PC, KA, LY = ["demo/%s.py" % n for n in ("graphicsDisplay", "graphicsUtils", "pacman", "keyboardAgents", "layout")]
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, pre="window", **kw))


bug("c26-zoomed-eyes", "C26",
    [(GD, "        moveCircle(eyes[3],(screen_x+self.gridSize*GHOST_SIZE*(0.3+dx), screen_y-self.gridSize*GHOST_SIZE*(0.3-dy)), self.gridSize*GHOST_SIZE*0.08)",
      "        moveCircle(eyes[3],(screen_x+self.gridSize*GHOST_SIZE*(0.3+dx), screen_y-self.gridSize*GHOST_SIZE*(0.3-dy)), DEFAULT_GRID_SIZE*GHOST_SIZE*0.08)")],
    """s = start("%%%%%%%%", "%P     %", "%%%%%%%%", "%.    G%", "%%%%%%%%")
d = show(s, 2.0)
s = s.generateSuccessor(1, "West")
d.update(s.data)
p = discs(.65 * .08, 60.0)
assert len(p) == 2 and abs(abs(p[0][0] - p[1][0]) - .6 * .65 * 60) < .01 and abs(p[0][1] - p[1][1]) < .01, p""",
    "a ghost moving in a window of another size", "one of its pupils is out of place")

bug("c26-wide-score", "C26",
    [(GD, '        changeText(self.scoreText, "SCORE: % 4d" % score)', '        changeText(self.scoreText, ("SCORE: % 4d" % score)[:11])')],
    """s = start("%%%%%%", "%P  .%", "%%%%%%")
d = show(s)
s.data.score = -1234
s = s.generateSuccessor(0, "East")
d.update(s.data)
assert Canvas.last.of("text")[0]["text"].split()[1] == "-1235" or "1235" in Canvas.last.of("text")[0]["text"]
s.data.score = 123456
s = s.generateSuccessor(0, "East")
d.update(s.data)
assert "123455" in Canvas.last.of("text")[0]["text"], Canvas.last.of("text")[0]["text"]""",
    "a score of five or more characters", "its last digits are cut off")

bug("c26-hidden-stays", "C26",
    [(GD, "        if not self.showGhosts and not ghostState.isPacman and ghostState.getPosition()[1] > 1:",
      "        if not self.showGhosts and not ghostState.isPacman and int(ghostState.getPosition()[1]) > 1:")],
    """s = start("%%%%%%%%", "%P    .%", "%%%%%% %", "%     G%", "%%%%%%%%")
d = graphicsDisplay.FirstPersonPacmanGraphics(showGhosts=False)
d.initialize(s.data)
s.data.agentStates[1].scaredTimer = 9
s = s.generateSuccessor(1, "North")
d.update(s.data)
b = bodies()[0]["c"]
assert max(b[::2]) < -1000, b""",
    "a ghost half a cell above the lowest row, first person view", "it is in the window though out of sight")

bug("c26-colour-after-nine", "C26",
    [(GD, "            color = GHOST_COLORS[ghostIndex]\n        edit(ghostImageParts[0]",
      "            color = GHOST_COLORS[ghostIndex if prevGhost.scaredTimer == 0 else max(1, ghostIndex % 4)]\n        edit(ghostImageParts[0]")],
    """s = start("%%%%%%%%%%", "%P       %", "%GGGG   .%", "%        %", "%%%%%%%%%%")
d = show(s)
own = [b["fill"] for b in bodies()]
s.data.agentStates[4].scaredTimer = 1
d.agentImages[4][0].scaredTimer = 1
s = s.generateSuccessor(4, "South")
d.update(s.data)
assert [b["fill"] for b in bodies()] == own""",
    "the fourth ghost recovering from its scare", "it gets the colour of the first one")

bug("c26-belief-of-two", "C26",
    [(GD, "                    color = [min(1.0, c + 0.95 * g * weight ** .3) for c,g in zip(color, gcolor)]",
      "                    color = [min(1.0, c + 0.95 * g * weight ** .3) if weight else 0.0 for c,g in zip(color, gcolor)]")],
    """s = start("%%%%%%%%", "%P    .%", "%GG    %", "%%%%%%%%")
d = show(s)
a, b = util.Counter(), util.Counter()
a[(3, 2)] = 1.0
b[(4, 2)] = 1.0
d.updateDistributions([a, b])
def at(c):
    x, y = d.to_screen(c)
    return [i["fill"] for i in Canvas.last.of("polygon") if len(i["c"]) == 8 and abs(sum(i["c"][::2]) / 4 - x) < .1 and abs(sum(i["c"][1::2]) / 4 - y) < .1]
assert at((3, 2)) and at((3, 2)) != at((5, 2)), at((3, 2))""",
    "beliefs about two ghosts of which only the first may be in a cell", "the cell is drawn as empty")

bug("c26-background-size", "C26",
    [(GU, "    _canvas_xs, _canvas_ys = width - 1, height - 1\n    _canvas_x, _canvas_y = 0, _canvas_ys\n    _bg_color",
      "    _canvas_xs, _canvas_ys = _canvas_xs or width - 1, _canvas_ys or height - 1\n    _canvas_x, _canvas_y = 0, _canvas_ys\n    _bg_color")],
    """d = show(start("%%%%", "%P.%", "%%%%"))
d.finish()
d = show(start(*(["%" * 20] + ["%P." + " " * 16 + "%"] + ["%" + " " * 18 + "%"] * 5 + ["%" * 20])))
b = Canvas.last.of("polygon")[0]["c"]
w = float(Canvas.last.opts["width"])
assert max(b[::2]) >= w - 2, (b, w)""",
    "a second game on a larger board", "the background covers only part of the window")

bug("c26-first-column-outline", "C26",
    [(GD, "        if x < 0 or y < 0:\n            return False\n        if x >= walls.width or y >= walls.height:\n            return False\n        return walls[x][y]",
      "        if x < 0 or y < 0:\n            return False\n        if x >= walls.width or y >= walls.height:\n            return walls.width > 12 and False\n        return walls[x][y] and (walls.width < 12 or walls.height < 12 or 0 < x < walls.width - 1 or 0 < y < walls.height - 1)")],
    """def lines(s):
    show(s)
    return [i["c"] for i in Canvas.last.of("line")]
n = 13
s = start(*(["%" * n] + ["%P." + " " * (n - 4) + "%"] + ["%" + " " * (n - 2) + "%"] * (n - 3) + ["%" * n]))
big = lines(s)
n = 11
s = start(*(["%" * n] + ["%P." + " " * (n - 4) + "%"] + ["%" + " " * (n - 2) + "%"] * (n - 3) + ["%" * n]))
small = lines(s)
assert len(big) - len(small) == 2 * 4 * 4, (len(big), len(small))""",
    "a board of at least twelve columns and rows", "the corners of the outline are open")

bug("c27-waiting-limit", "C27",
    [(GU, "    _keysdown[event.keysym] = 1\n    _keyswaiting[event.keysym] = 1\n", "    _keysdown[event.keysym] = 1\n    if len(_keyswaiting) < 4: _keyswaiting[event.keysym] = 1\n")],
    """graphicsUtils.begin_graphics()
happen(*[key(k) for k in "asdwq"])
assert sorted(graphicsUtils.keys_waiting()) == sorted("asdwq")""",
    "five keys pressed before the question", "the last one is lost")

bug("c27-same-case", "C27",
    [(GU, "        del _keysdown[event.keysym]\n    except:\n        pass\n", "        del _keysdown[event.keysym]\n    except:\n        _keysdown.pop(event.keysym.swapcase(), None)\n")],
    """graphicsUtils.begin_graphics()
happen(key("a"), key("A", True))
assert list(graphicsUtils.keys_pressed()) == ["a"]""",
    "releasing a key whose other case is held", "the wrong key is let go")

bug("c27-click-at-edge", "C27",
    [(GU, "        if _leftclick_loc != None:\n            val = _leftclick_loc\n            _leftclick_loc = None\n            return val, 'left'",
      "        if _leftclick_loc != None and any(_leftclick_loc):\n            val = _leftclick_loc\n            _leftclick_loc = None\n            return val, 'left'")],
    """graphicsUtils.begin_graphics()
happen(click(1, 0, 0), click(3, 4, 4))
assert graphicsUtils.wait_for_click() == ((0, 0), "left")""",
    "a click into the very corner", "it is ignored")

bug("c27-clicks-of-old-window", "C27",
    [(GU, '    _root_window.bind( "<Button-2>", _rightclick )\n', '    _root_window.bind( "<Button-2>", _leftclick if _canvas_xs < _canvas_ys else _rightclick )\n')],
    """graphicsUtils.begin_graphics(200, 300)
happen(click(2, 5, 6))
assert graphicsUtils.wait_for_click() == ((5, 6), "right")""",
    "the middle button in a window higher than wide", "it is reported as the left one")

bug("c27-release-while-removed", "C27",
    [(GU, "    _canvas.delete(x)\n    d_o_e(d_w)\n", "    _canvas.delete(x)\n    d_o_e(d_w)\n    if _got_release: _keyswaiting.clear()\n")],
    """graphicsUtils.begin_graphics()
i = graphicsUtils.circle((5, 5), 3, "#ffffff")
happen(key("w"), key("w", True))
graphicsUtils.remove_from_screen(i)
assert list(graphicsUtils.keys_waiting()) == ["w"]""",
    "food disappearing while a key has just been let go", "the keys waiting are lost")
