"""C26: the game window shows exactly the state of the game (fake canvas, reference picture)"""
import contextlib
import math
import random
import re
import types

from hypothesis import strategies as st

from harness import core, fake_tk, ref_pac
from harness.core import Sub, Violation, expect, expect_eq

fake_tk.install()
import sys  # noqa: E402
if core.DEMO not in sys.path:
    sys.path.append(core.DEMO)
import graphicsUtils  # noqa: E402,F401  the real one, on the fake canvas
import graphicsDisplay  # noqa: E402
from harness.pac import boards, forget, halls, histories, new_state, placed, rooms, silent, stand  # noqa: E402

desk = fake_tk.desk
ID = "C26"
RULE = "a game of at least three shown moves in which food or a capsule is eaten or a ghost changes its colour, or a " \
       "board with at least three inner walls"

ANGLE = {"East": 0, "North": 90, "West": 180, "South": 270, "Stop": 0}
TOL = 0.35


@contextlib.contextmanager
def fresh_desk():
    desk.reset()
    graphicsUtils._root_window = None  # whatever an earlier, failed case left
    try:
        yield
    finally:
        desk.reset()
        graphicsUtils._root_window = None
        graphicsUtils._canvas = None
        forget()


# ---- reading the picture --------------------------------------------------------------------------------------------

def disc(item):
    """Centre and radius of a filled circle or pie"""
    x0, y0, x1, y1 = item["coords"]
    return (x0 + x1 + 1) / 2, (y0 + y1 + 1) / 2, (x1 - x0 - 1) / 2, item.get("fill")


def discs(canvas):
    return [i for i in canvas.drawn() if i["kind"] == "arc" and i.get("style") != "arc" or i["kind"] == "oval"]


def outlines(canvas):
    """Wall drawing as line segments"""
    out = []
    for i in canvas.drawn():
        c = i["coords"]
        if i["kind"] == "line":
            out += [(c[k], c[k + 1], c[k + 2], c[k + 3]) for k in range(0, len(c) - 3, 2)]
        elif i["kind"] == "arc" and i.get("style") == "arc":
            cx, cy, r = (c[0] + c[2] + 1) / 2, (c[1] + c[3] + 1) / 2, (c[2] - c[0] - 1) / 2
            a, e = i["start"], i["extent"]
            pts = [(cx + r * math.cos(math.radians(a + e * k / 12)), cy - r * math.sin(math.radians(a + e * k / 12)))
                   for k in range(13)]
            out += [(*p, *q) for p, q in zip(pts, pts[1:])]
    return out


def crossings(lines, a, b):
    n = 0
    (ax, ay), (bx, by) = a, b
    for x0, y0, x1, y1 in lines:
        d1 = (bx - ax) * (y0 - ay) - (by - ay) * (x0 - ax)
        d2 = (bx - ax) * (y1 - ay) - (by - ay) * (x1 - ax)
        d3 = (x1 - x0) * (ay - y0) - (y1 - y0) * (ax - x0)
        d4 = (x1 - x0) * (by - y0) - (y1 - y0) * (bx - x0)
        if d1 * d2 < 0 and d3 * d4 < 0:
            n += 1
    return n


class Picture:
    """The reference: what has to be on the canvas"""

    def __init__(self, board, g, height):
        self.g, self.h, self.board = g, height, board
        self.shown = {}  # agent -> (position, direction, scared)
        self.own, self.scared = {}, None

    def at(self, pos):
        return (pos[0] + 1) * self.g, (self.h - pos[1]) * self.g

    def check_walls(self, canvas):
        lines = outlines(canvas)
        w, h, g = self.board.w, self.board.h, self.g

        def wall(x, y):
            return 0 <= x < w and 0 <= y < h and (x, y) in self.board.walls
        for x in range(-1, w + 1):
            for y in range(-1, h + 1):
                for dx, dy, side in ((1, 0, .04), (1, 0, -.05), (0, 1, .05), (0, 1, -.04), (1, 1, 0), (1, -1, 0)):
                    a, b = self.at((x, y)), self.at((x + dx, y + dy))
                    if side:
                        o = side * g
                        a, b = (a[0] + o * dy, a[1] + o * dx), (b[0] + o * dy, b[1] + o * dx)
                    else:  # a little off the exact diagonal
                        a, b = (a[0] + .013 * g, a[1] + .007 * g), (b[0] + .013 * g, b[1] + .007 * g)
                    n = crossings(lines, a, b)
                    u, v = wall(x, y), wall(x + dx, y + dy)
                    want = u != v
                    expect(n % 2 == want, f"outline between cell {(x, y)} and {(x + dx, y + dy)} "
                           f"(walls: {u}, {v}) is crossed {n} times")
                    if not u and not v and side:
                        expect(n == 0, f"outline drawn on open floor between {(x, y)} and {(x + dx, y + dy)}")

    def circles(self, food, caps):
        out = [(*self.at(f), .1 * self.g, "food") for f in food]
        out += [(*self.at(c), .25 * self.g, "capsule") for c in caps]
        for i, (pos, direction, _) in self.shown.items():
            if pos is None:
                continue
            x, y = self.at(pos)
            if i == 0:
                out.append((x, y, .5 * self.g, "pacman"))
                continue
            k = .65 * self.g
            dx = {"East": .2, "West": -.2}.get(direction, 0)
            dy = {"North": -.2, "South": .2}.get(direction, 0)
            for s in (-.3, .3):
                out.append((x + k * (s + dx / 1.5), y - k * (.3 - dy / 1.5), k * .2, f"eye of ghost {i}"))
                out.append((x + k * (s + dx), y - k * (.3 - dy), k * .08, f"pupil of ghost {i}"))
        return out

    def check(self, canvas, r, what):
        left = [(disc(i), i) for i in discs(canvas)]
        pac = None
        for x, y, rad, name in self.circles(r.food, r.caps):
            best = None
            for k, ((cx, cy, cr, _), item) in enumerate(left):
                if abs(cx - x) < TOL and abs(cy - y) < TOL and abs(cr - rad) < TOL:
                    d = abs(cx - x) + abs(cy - y) + abs(cr - rad)
                    if best is None or d < best[0]:
                        best = (d, k)
            expect(best is not None, f"{what}: no {name} at {(round(x, 1), round(y, 1))}, radius {rad:.1f}",
                   sorted((round(a, 1), round(b, 1), round(c, 1), e) for (a, b, c, e), _ in left)[:12])
            d, item = left.pop(best[1])
            if name == "pacman":
                pac = item
            if name in ("food", "capsule"):
                expect(item["fill"] not in ("", "#000000"), f"{what}: {name} drawn invisible", item)
        expect(not left, f"{what}: drawn although it is not there",
               [(round(a, 1), round(b, 1), round(c, 1), e) for (a, b, c, e), _ in left][:8])
        mouth = (pac["start"] + pac["extent"] / 2 + 180) % 360
        want = ANGLE[self.shown[0][1]]
        off = abs((mouth - want + 180) % 360 - 180)
        expect(off < 1 and 180 < pac["extent"] < 360, f"{what}: Pacman looks {self.shown[0][1]} but its mouth is at "
               f"{mouth:.0f} degrees, extent {pac['extent']}")
        self.check_ghosts(canvas, what)
        t = [i for i in canvas.drawn() if i["kind"] == "text" and "SCORE" in str(i.get("text"))]
        expect_eq(len(t), 1, f"{what}: score lines")
        m = re.fullmatch(r"SCORE:\s*(-?\d+)", t[0]["text"])
        expect(m is not None and int(m.group(1)) == r.score, f"{what}: score shown as {t[0]['text']!r}", r.score)
        w, h = canvas.opts["width"], canvas.opts["height"]
        expect(0 <= t[0]["coords"][0] < w and self.at((0, 0))[1] <= t[0]["coords"][1] < h,
               f"{what}: score is drawn outside its pane", t[0])

    def check_ghosts(self, canvas, what):
        bodies = [i for i in canvas.drawn() if i["kind"] == "polygon" and len(i["coords"]) > 8]
        want = [(i, *self.at(p), s) for i, (p, _, s) in self.shown.items() if i and p is not None]
        hidden = [i for i, v in self.shown.items() if v[0] is None]
        expect_eq(len(bodies), len(want) + len(hidden), f"{what}: number of ghosts on the screen")
        k = .65 * self.g * .75
        groups = {}
        for i, x, y, scared in want:
            groups.setdefault((round(x, 3), round(y, 3)), []).append((i, scared))
        for (x, y), members in groups.items():
            here = [b for b in bodies if abs(min(b["coords"][::2]) - (x - k)) < TOL and abs(
                max(b["coords"][::2]) - (x + k)) < TOL and abs(min(b["coords"][1::2]) - (y - k)) < TOL and abs(
                max(b["coords"][1::2]) - (y + k)) < TOL]
            expect_eq(len(here), len(members), f"{what}: ghosts {members} drawn at {(x, y)}")
            colours = sorted(b["fill"] for b in here)
            if self.own is not None and all(s is not None for _, s in members):
                expect_eq(colours, sorted(self.colour(i, s) for i, s in members), f"{what}: colours of ghosts {members}")

    def colour(self, i, scared):
        return self.scared if scared else self.own[i]


class Lane:
    """Follows where Pacman is drawn while it glides"""

    def __init__(self, canvas):
        self.canvas, self.path = canvas, []
        self.real = canvas.update_idletasks
        canvas.update_idletasks = self.look

    def look(self):
        self.real()
        big = [disc(i) for i in discs(self.canvas)]
        if big:
            x, y, _, _ = max(big, key=lambda d: d[2])
            self.path.append((x, y))

    def take(self):
        p, self.path = self.path, []
        return p


def known_colours(pic, display_class, zoom):
    """Colours of the ghosts, learned from a board of its own: all different, the scared one different from them"""
    d = display_class(zoom)
    s = new_state(("%%%%%%%%", "%PGGGG.%", "%%%%%%%%"))
    with silent():
        d.initialize(s.data)
    bodies = sorted((min(i["coords"][::2]), i["fill"]) for i in desk.canvas.drawn()
                    if i["kind"] == "polygon" and len(i["coords"]) > 8)
    expect_eq(len(bodies), 4, "ghosts drawn on a board with four")
    # ghosts are numbered from left to right here, the order of the cells of a single row
    order = sorted(range(1, 5), key=lambda i: s.getGhostPosition(i)[0])
    for i, (_, c) in zip(order, bodies):
        pic.own[i] = c
    s.data.agentStates[1].scaredTimer = 3
    with silent():
        d.initialize(s.data)
    bodies = sorted((min(i["coords"][::2]), i["fill"]) for i in desk.canvas.drawn()
                    if i["kind"] == "polygon" and len(i["coords"]) > 8)
    pic.scared = bodies[order.index(1)][1]
    expect(len(set(pic.own.values()) | {pic.scared, "#000000"}) == 6, "colours of the ghosts can be told apart", pic.own,
           pic.scared)
    with silent():
        d.finish()


zooms = st.sampled_from((1.0, 1.0, 0.5, 2.0, 1.37))
plays = st.tuples(st.one_of(boards(max_w=5, max_h=4, chars="    ....oo%%%G"), rooms()), histories(4, 30), zooms,
                  st.sampled_from((0.0, 0.0, 0.1, 0.03)), st.integers(1, 2), st.booleans())


def check_play(case, ctx):
    rows, hist, zoom, frame, games, some_scared = case
    b = ref_pac.Board(rows)
    with fresh_desk():
        pic = Picture(b, 30 * zoom, b.h)
        known_colours(pic, graphicsDisplay.PacmanGraphics, zoom)
        display = graphicsDisplay.PacmanGraphics(zoom, frameTime=frame)
        for n in range(games):
            play_one(case, ctx, b, pic, display, n)
            expect(not desk.windows, "window still open after the end of the game")


def play_one(case, ctx, b, pic, display, n):
    rows, hist, zoom, frame, games, some_scared = case
    s, r = new_state(rows), ref_pac.start(b)
    pic.shown = {i: (a[0], a[1], a[2] > 0) for i, a in enumerate(r.agents)}
    before = desk.opened
    display.initialize(s.data)
    expect(desk.opened == before + 1 and len(desk.windows) == 1, "one window is opened", desk.opened - before)
    canvas = desk.canvas
    expect(canvas.packed, "canvas is not shown")
    w, h = canvas.opts["width"], canvas.opts["height"]
    expect(w >= (b.w + .5) * pic.g and h > (b.h + .5) * pic.g, "window too small for the board", (w, h))
    bg = canvas.drawn()[0]
    expect(bg["kind"] == "polygon" and min(bg["coords"]) <= 0 and max(bg["coords"][::2]) >= w - 2 and max(
        bg["coords"][1::2]) >= h - 2, "background", bg)
    pic.check(canvas, r, "start of the game")
    pic.check_walls(canvas)
    ctx.nontrivial |= len([1 for x, y in b.walls if 0 < x < b.w - 1 and 0 < y < b.h - 1]) >= 3
    lane = Lane(canvas)
    i, k, seen = 0, 0, set()
    for mode, length, seed in hist:
        rnd = random.Random(seed + n)
        for _ in range(length):
            if r.win or r.lose:
                break
            m = ref_pac.pick(r, i, mode, rnd)
            if m is None:
                break
            old = r
            r = ref_pac.move(r, i, m)
            s = s.generateSuccessor(i, m)
            t0 = desk.clock
            lane.take()
            display.update(s.data)
            k += 1
            a = r.agents[i]
            pic.shown[i] = (a[0], a[1], a[2] > 0)
            what = f"after move {k} ({'Pacman' if i == 0 else f'ghost {i}'} {m})"
            expect(desk.canvas is canvas, f"{what}: a new window")
            pic.check(canvas, r, what)
            if i == 0:
                glide(pic, lane.take(), old.agents[0][0], a[0], what, frame)
                want = frame * 1000 if frame > .01 else 0
                expect(want - 5 <= desk.clock - t0 <= want + 5, f"{what}: paused {desk.clock - t0} ms, asked for {want}")
            seen |= {"food"} if r.ate_food else set()
            seen |= {"capsule"} if r.ate_cap else set()
            seen |= {"scared"} if i and a[2] > 0 else set()
            i = (i + 1) % len(r.agents)
        if r.win or r.lose:
            break
    pic.check_walls(canvas)
    display.finish()
    ctx.nontrivial |= k >= 3 and bool(seen)
    ctx.tag(*(seen or {"nothing eaten"}), f"zoom={case[2]}", "animated" if frame > .01 else "not animated",
            f"game {n + 1}")


def glide(pic, path, old, new, what, frame):
    """Pacman is only ever drawn on the way from the old to the new cell, and moves forward on it"""
    (x0, y0), (x1, y1) = pic.at(old), pic.at(new)
    last = -1e-6
    steps = set()
    for x, y in path:
        if (x0, y0) == (x1, y1):
            expect(abs(x - x0) < TOL and abs(y - y0) < TOL, f"{what}: Pacman leaves its cell", (x, y))
            continue
        t = ((x - x0) * (x1 - x0) + (y - y0) * (y1 - y0)) / ((x1 - x0) ** 2 + (y1 - y0) ** 2)
        px, py = x0 + t * (x1 - x0), y0 + t * (y1 - y0)
        expect(abs(px - x) < TOL and abs(py - y) < TOL and -.02 < t < 1.02, f"{what}: Pacman is drawn off its way",
               (x, y), (x0, y0), (x1, y1))
        expect(t >= last - .02, f"{what}: Pacman jumps back", path)
        last = t
        steps.add(round(t, 2))
    if frame > .01 and (x0, y0) != (x1, y1):
        expect(len(steps) >= 3, f"{what}: Pacman does not glide", path)


# ---- stepping by keyboard -------------------------------------------------------------------------------------------

stepping = st.tuples(boards(max_w=4, max_h=3, chars="    ..o%", max_ghosts=1), st.integers(0, 10 ** 6),
                     st.lists(st.sampled_from("xxxq"), min_size=3, max_size=8).map(tuple))


def check_step(case, ctx):
    """A negative frame time: every move of Pacman waits for a key, until q is pressed"""
    rows, seed, keys = case
    b = ref_pac.Board(rows)
    with fresh_desk():
        pic = Picture(b, 30.0, b.h)
        pic.own = None
        display = graphicsDisplay.PacmanGraphics(1.0, frameTime=-0.05)
        s, r = new_state(rows), ref_pac.start(b)
        pic.shown = {i: (a[0], a[1], a[2] > 0) for i, a in enumerate(r.agents)}
        display.initialize(s.data)
        rnd = random.Random(seed)
        i, free, used = 0, False, 0
        for k in range(3 * len(keys)):
            if r.win or r.lose:
                break
            m = ref_pac.pick(r, i, "any", rnd)
            if m is None:
                break
            r, s = ref_pac.move(r, i, m), s.generateSuccessor(i, m)
            before = len(desk.delivered)
            wanted = i == 0 and not free
            if wanted:
                if used == len(keys):
                    break
                key = keys[used]
                used += 1
                # the key is pressed only while the display waits, long after it was asked to show the move
                desk.events = [("<Configure>", types.SimpleNamespace())] * (seed % 4) + [
                    ("<KeyPress>", types.SimpleNamespace(keysym=key, char=key, keycode=0))]
            with silent():
                display.update(s.data)
            if wanted:
                expect("<KeyPress>" in [e for e, _ in desk.delivered[before:]],
                       f"move {k}: the display went on without waiting for a key")
                free = key == "q"
                desk.events.append(("<KeyRelease>", types.SimpleNamespace(keysym=key, char=key, keycode=0)))
                desk.deliver()
            a = r.agents[i]
            pic.shown[i] = (a[0], a[1], a[2] > 0)
            pic.check(desk.canvas, r, f"stepping, move {k}")
            i = (i + 1) % len(r.agents)
        display.finish()
        ctx.nontrivial = used >= 2
        ctx.tag("played on" if free else "stepped")


# ---- overlays -------------------------------------------------------------------------------------------------------

cells = st.lists(st.tuples(st.integers(0, 5), st.integers(0, 4)), min_size=0, max_size=12, unique=True).map(tuple)
weights = st.lists(st.tuples(st.integers(0, 4), st.integers(0, 5), st.integers(0, 4), st.sampled_from(
    (0.0, 0.05, .25, .5, 1.0))), max_size=14).map(tuple)
overlays = st.tuples(boards(max_w=4, max_h=3), st.lists(st.one_of(
    cells.map(lambda c: ("cells", c)), st.just(("clear", ())), weights.map(lambda w: ("beliefs", w)),
    st.booleans().map(lambda b: ("team", b)),
    st.lists(st.integers(0, 30), min_size=2, max_size=4).map(lambda l: ("distances", tuple(l)))), min_size=1,
    max_size=6).map(tuple), zooms)


def squares(canvas):
    return [(n, i) for n, i in enumerate(canvas.drawn()) if n and i["kind"] in ("polygon", "rectangle") and len(
        i["coords"]) <= 8]


def check_overlay(case, ctx):
    rows, steps, zoom = case
    b = ref_pac.Board(rows)
    with fresh_desk():
        pic = Picture(b, 30 * zoom, b.h)
        pic.own = None
        display = graphicsDisplay.PacmanGraphics(zoom)
        s, r = new_state(rows), ref_pac.start(b)
        pic.shown = {i: (a[0], a[1], a[2] > 0) for i, a in enumerate(r.agents)}
        display.initialize(s.data)
        marked, beliefs, labels, far, wide = [], None, [], [], None
        for op, arg in steps:
            if op == "cells":
                marked = [c for c in arg if c[0] < b.w and c[1] < b.h]
                given = list(marked)
                display.drawExpandedCells(given)
                expect_eq(given, marked, "list of cells changed by drawing it")
            elif op == "clear":
                display.clearExpandedCells()
                marked = []
            elif op == "team":
                display.infoPane.setTeam(arg)
                labels.append("BLUE TEAM" if arg else "RED TEAM")
            elif op == "distances":  # noisy distances, the same ghosts in every report
                wide = wide or len(arg)
                far = [str(d) for d in (arg * 2)[:wide]]
                display.infoPane.updateGhostDistances(list(far))
            else:
                n = max([a[0] for a in arg], default=0) + 1
                beliefs = [dict.fromkeys(((x, y) for x in range(b.w) for y in range(b.h)), 0.0) for _ in range(n)]
                for g, x, y, p in arg:
                    if x < b.w and y < b.h:
                        beliefs[g][(x, y)] = p
                given = [dict(d) for d in beliefs]
                display.updateDistributions(given)
                expect_eq(given, beliefs, "beliefs changed by drawing them")
            check_cells(desk.canvas, pic, b, marked, beliefs, f"after {op}")
            pic.check(desk.canvas, r, f"board under the overlay after {op}")
            texts = [(i["coords"], str(i["text"])) for i in desk.canvas.drawn() if i["kind"] == "text"]
            got = [t for c, t in sorted(texts) if "SCORE" not in t]
            expect_eq([t for t in got if "TEAM" not in t], far, f"distances shown after {op}")
            expect_eq(sorted(t for t in got if "TEAM" in t), sorted(labels), f"team shown after {op}")
            ctx.tag(op)
        ctx.nontrivial = len(steps) > 1 and bool(marked or beliefs)
        display.finish()


def check_cells(canvas, pic, b, marked, beliefs, what):
    found = {}
    first = next(n for n, i in enumerate(canvas.drawn()) if i["kind"] in ("arc", "oval", "line"))
    for n, i in squares(canvas):
        c = i["coords"]
        x0, x1, y0, y1 = min(c[::2]), max(c[::2]), min(c[1::2]), max(c[1::2])
        x, y = (x0 + x1) / 2 / pic.g - 1, pic.h - (y0 + y1) / 2 / pic.g
        expect(abs(x - round(x)) < .02 and abs(y - round(y)) < .02 and abs(x1 - x0 - pic.g) < 1 and abs(
            y1 - y0 - pic.g) < 1, f"{what}: marked square is not a cell", (x, y))
        expect(n < first or i.get("fill") == "", f"{what}: marked cell covers the board", (x, y))
        found.setdefault((round(x), round(y)), []).append(i["fill"])
    reds = {}
    for k, c in enumerate(marked):
        reds.setdefault(c, []).append(k)
    for c in {(x, y) for x in range(b.w) for y in range(b.h)} | set(found):
        want = len(reds.get(c, ())) + (beliefs is not None)
        expect_eq(len(found.get(c, ())), want, f"{what}: squares drawn at cell {c}")
    tone = {}
    for c, ks in reds.items():
        if beliefs is None:
            tone[ks[0]] = found[c][0]
    ordered = [int(tone[k][1:3], 16) for k in sorted(tone)]
    expect(ordered == sorted(ordered, reverse=True), f"{what}: cells expanded earlier are drawn brighter", ordered)
    expect(all(t[3:] == "4040" or t[3:] == "3f3f" for t in tone.values()) and all(v > 0x3f for v in ordered),
           f"{what}: marked cells are red", tone)
    if beliefs is not None and not marked:
        palette = [graphicsDisplay.colorToVector(c) for c in graphicsDisplay.GHOST_COLORS][1:]
        for c in found:
            col = [0.0] * 3
            for d, v in zip(beliefs, palette):
                col = [min(1.0, a + .95 * g * d.get(c, 0) ** .3) for a, g in zip(col, v)]
            got = [int(found[c][0][k:k + 2], 16) for k in (1, 3, 5)]
            expect(all(abs(a - b_ * 255) <= 1.01 for a, b_ in zip(got, col)), f"{what}: belief colour at {c}", got,
                   [round(a * 255) for a in col])


# ---- what the first person sees -------------------------------------------------------------------------------------

def check_first(case, ctx):
    rows, hist, zoom, frame, games, show = case
    b = ref_pac.Board(rows)
    with fresh_desk():
        pic = Picture(b, 30 * zoom, b.h)
        pic.own = None
        display = graphicsDisplay.FirstPersonPacmanGraphics(zoom, showGhosts=show)
        s, r = new_state(rows), ref_pac.start(b)

        def see(i):
            a = r.agents[i]
            hide = i > 0 and not show and a[0][1] > 1
            pic.shown[i] = (None if hide else a[0], a[1], a[2] > 0)
            return hide
        hidden = [see(i) for i in range(len(r.agents))]
        display.initialize(s.data)
        canvas = desk.canvas

        def visible():
            """Only what lies inside the window counts"""
            w, h = canvas.opts["width"], canvas.opts["height"]
            view = fake_tk.Canvas.__new__(fake_tk.Canvas)
            view.opts = canvas.opts
            inside = [i for i in canvas.drawn() if not (max(i["coords"][::2]) < 0 or min(i["coords"][::2]) > w or max(
                i["coords"][1::2]) < 0 or min(i["coords"][1::2]) > h)]
            view.drawn = lambda: inside
            return view
        i, k = 0, 0
        for mode, length, seed in hist:
            rnd = random.Random(seed)
            for _ in range(min(length, 12)):
                v = visible()
                bodies = [x for x in v.drawn() if x["kind"] == "polygon" and len(x["coords"]) > 8]
                expect_eq(len(bodies), sum(p[0] is not None for p in pic.shown.values()) - 1,
                          f"move {k}: ghosts in sight ({'all shown' if show else 'only near ones'})")
                shown, pic.shown = pic.shown, {i_: p for i_, p in pic.shown.items() if p[0] is not None}
                pic.check(v, r, f"first person, move {k}")
                pic.shown = shown
                m = ref_pac.pick(r, i, mode, rnd)
                if r.win or r.lose or m is None:
                    break
                r, s = ref_pac.move(r, i, m), s.generateSuccessor(i, m)
                display.update(s.data)
                hidden.append(see(i))
                k += 1
                i = (i + 1) % len(r.agents)
        display.finish()
        ctx.nontrivial = k >= 3 and (show or any(hidden))
        ctx.tag("ghosts hidden" if any(hidden) else "ghosts in sight")


# ---- open boards ----------------------------------------------------------------------------------------------------

@st.composite
def pages(draw):
    """Boards without a border as well: the picture does not depend on it"""
    w, h = draw(st.integers(1, 10)), draw(st.integers(1, 8))
    cells_ = draw(st.lists(st.sampled_from("%%%%%%   ..oG"), min_size=w * h, max_size=w * h))
    cells_[draw(st.integers(0, w * h - 1))] = "P"
    n = 0
    for i, c in enumerate(cells_):
        n += c == "G"
        if c == "G" and n > 4:
            cells_[i] = "%"
    return tuple("".join(cells_[k * w:k * w + w]) for k in range(h))


def check_page(case, ctx):
    rows, zoom = case
    b = ref_pac.Board(rows)
    with fresh_desk():
        pic = Picture(b, 30 * zoom, b.h)
        pic.own = None
        display = graphicsDisplay.PacmanGraphics(zoom)
        s, r = new_state(rows), ref_pac.start(b)
        pic.shown = {i: (a[0], a[1], a[2] > 0) for i, a in enumerate(r.agents)}
        display.initialize(s.data)
        pic.check(desk.canvas, r, "picture of a board")
        pic.check_walls(desk.canvas)
        display.finish()
    ctx.nontrivial = len(b.walls) >= 4 and len(b.walls) < b.w * b.h - 1
    ctx.tag("with border" if all(c == "%" for c in rows[0] + rows[-1]) else "open")


# ---- from the middle of a game --------------------------------------------------------------------------------------

def check_middle(case, ctx):
    """A display that is opened in the middle of a game (with any score), and every character moving on from there"""
    start, moves, zoom, first, ghosts_shown = case
    b = ref_pac.Board(start[0])
    with fresh_desk():
        pic = Picture(b, 30 * zoom, b.h)
        known_colours(pic, graphicsDisplay.PacmanGraphics, zoom)
        s, r = stand(start)
        display = graphicsDisplay.FirstPersonPacmanGraphics(zoom, showGhosts=ghosts_shown) if first else \
            graphicsDisplay.PacmanGraphics(zoom)

        def see(i):
            a = r.agents[i]
            hide = first and i > 0 and not ghosts_shown and a[0][1] > 1
            pic.shown[i] = (None if hide else a[0], a[1], a[2] > 0)
        for i in range(len(r.agents)):
            see(i)
            if first:  # the first person is not told about the scare before the ghost has moved
                pic.shown[i] = (*pic.shown[i][:2], None)
        display.initialize(s.data)
        if r.score == 0:
            look(pic, r, "opened")
        k = 0
        for k, (who, which) in enumerate(moves):
            if r.win or r.lose:
                break
            i = (k if who < 0 else who) % len(r.agents)
            legal = sorted(ref_pac.legal(r, i))
            if not legal:
                continue
            m = legal[which % len(legal)]
            before = r.agents[i][2]
            r, s = ref_pac.move(r, i, m), s.generateSuccessor(i, m)
            display.update(s.data)
            see(i)
            look(pic, r, f"move {k} (character {i} {m})")
            if i and (before > 0) != (r.agents[i][2] > 0):
                ctx.tag("recovered" if before else "scared")
                ctx.nontrivial = True
            ctx.nontrivial |= abs(r.score) > 999
        pic.check_walls(desk.canvas) if not first else None
        display.finish()
        ctx.tag("first person" if first else "usual", "far" if max(b.w, b.h) > 12 else "small")


def look(pic, r, what):
    """Only what lies inside the window counts"""
    canvas = desk.canvas
    w, h = canvas.opts["width"], canvas.opts["height"]
    view = fake_tk.Canvas.__new__(fake_tk.Canvas)
    view.opts = canvas.opts
    inside = [i for i in canvas.drawn() if not (max(i["coords"][::2]) < 0 or min(i["coords"][::2]) > w or max(
        i["coords"][1::2]) < 0 or min(i["coords"][1::2]) > h)]
    view.drawn = lambda: inside
    shown, pic.shown = pic.shown, {i: p for i, p in pic.shown.items() if p[0] is not None}
    try:
        pic.check(view, r, what)
    finally:
        pic.shown = shown


middles = st.tuples(placed(st.one_of(boards(max_w=5, max_h=4, chars="    ....oo%%%GG"), rooms(), halls())), st.lists(st.tuples(
    st.sampled_from((-1, -1, 0, 1, 2, 3, 4)), st.integers(0, 3)), min_size=1, max_size=8).map(tuple), zooms, st.sampled_from(
        (False, False, True)), st.booleans())

SUBS = [
    Sub("page", st.tuples(st.one_of(pages(), pages(), halls()), zooms), check_page, 60, 2000),
    Sub("middle", middles, check_middle, 60, 2000),
    Sub("play", plays, check_play, 60, 2000),
    Sub("stepping", stepping, check_step, 60, 2000),
    Sub("overlay", overlays, check_overlay, 80, 2500),
    Sub("first person", plays, check_first, 50, 1500),
]
_ = Violation
