"""Access to the demo game of /repo and generators of boards and histories"""
import contextlib
import io
import random
import sys
import types

from hypothesis import strategies as st

from . import core, ref_pac
from .core import expect, expect_eq

if core.DEMO not in sys.path:
    sys.path.append(core.DEMO)
sys.dont_write_bytecode = True

keys = {"waiting": [], "pressed": []}
_g = types.ModuleType("graphicsUtils")  # the real one opens a window; only its keyboard queue is needed
_g.keys_waiting = lambda: list(keys["waiting"])
_g.keys_pressed = lambda *a, **k: list(keys["pressed"])
sys.modules.setdefault("graphicsUtils", _g)
_t = types.ModuleType("textDisplay")  # does not exist in the repository, needed for training games


class NullGraphics:
    made = []

    def __init__(self):
        self.calls = []
        NullGraphics.made.append(self)

    def initialize(self, state, isBlue=False):
        self.calls.append(("initialize", str(state)))

    def update(self, state):
        self.calls.append(("update", str(state)))

    def finish(self):
        self.calls.append(("finish", ""))


_t.NullGraphics = NullGraphics
_t.PacmanGraphics = type("PacmanGraphics", (NullGraphics,), {})
_t.SLEEP_TIME = None
sys.modules.setdefault("textDisplay", _t)

import game  # noqa: E402
import ghostAgents  # noqa: E402
import keyboardAgents  # noqa: E402
import layout  # noqa: E402
import pacman  # noqa: E402
import util  # noqa: E402


@st.composite
def boards(draw, max_w=7, max_h=5, max_ghosts=4, chars="      ....oo%%%G", fill=False):
    """Rows of a walled board with one Pacman"""
    kind = draw(st.integers(0, 4))
    if kind == 0:  # a corridor: many dead ends
        w, h = draw(st.integers(2, max_w + 3)), 1
    else:
        w, h = draw(st.integers(1, max_w)), draw(st.integers(1, max_h))
    n = w * h
    cells = draw(st.lists(st.sampled_from(chars), min_size=n, max_size=n))
    p = draw(st.integers(0, n - 1))
    ghosts = 0
    digits = draw(st.booleans())
    for i in range(n):
        if i == p:
            cells[i] = "P"
        elif cells[i] == "G":
            ghosts += 1
            if ghosts > max_ghosts:
                cells[i] = "."
            elif digits and n < 400:
                cells[i] = "1234"[(i * 7 + p) % 4] if (i + p) % 3 else "G"
    if ghosts == 0 and max_ghosts and n > 1 and draw(st.integers(0, 9)) > 0:
        cells[(p + 1 + draw(st.integers(0, n - 2))) % n] = "G"
    rows = ["%" * (w + 2)] + ["%" + "".join(cells[i * w:(i + 1) * w]) + "%" for i in range(h)] + ["%" * (w + 2)]
    return tuple(rows)


@st.composite
def rooms(draw, max_ghosts=3):
    """Pacman with capsules in one room, ghosts in the other, so that scared ghosts live long enough to recover"""
    h = draw(st.integers(1, 3))
    w1, w2 = draw(st.integers(1, 4)), draw(st.integers(1, 5))
    left = draw(st.lists(st.sampled_from("  .ooo%"), min_size=w1 * h, max_size=w1 * h))
    right = draw(st.lists(st.sampled_from("     .%%oG"), min_size=w2 * h, max_size=w2 * h))
    left[draw(st.integers(0, w1 * h - 1))] = "P"
    right[draw(st.integers(0, w2 * h - 1))] = "G"
    seen = 0
    for i, c in enumerate(right):
        if c == "G":
            seen += 1
            if seen > max_ghosts:
                right[i] = " "
    door = draw(st.integers(0, 5))
    rows = ["%" * (w1 + w2 + 3)]
    for y in range(h):
        rows.append("%" + "".join(left[y * w1:(y + 1) * w1]) + (" " if y == door else "%") +
                    "".join(right[y * w2:(y + 1) * w2]) + "%")
    return tuple(rows + ["%" * (w1 + w2 + 3)])


@st.composite
def halls(draw, max_ghosts=4):
    """Larger boards with wide open floor"""
    w, h = draw(st.one_of(*[st.tuples(st.integers(5, 24), st.integers(5, 14))] * 3, st.tuples(st.integers(25, 44), st.integers(2, 4)),
                          st.tuples(st.integers(2, 4), st.integers(25, 40))))
    rnd = random.Random(draw(st.integers(0, 10 ** 6)))
    wall, food, cap = draw(st.sampled_from([(0, 0, 0.1), (0.1, 0.1, 0.05), (0.3, 0.3, 0.02), (0.05, 0.02, 0.02)]))
    cells = [c for c in ("%" if rnd.random() < wall else "." if rnd.random() < food else "o" if rnd.random() < cap else
                         " " for _ in range(w * h))]
    places = rnd.sample(range(w * h), 1 + draw(st.integers(0, max_ghosts)) + 1)
    for k, c in zip(places, "P." + "G" * max_ghosts):
        cells[k] = c
    rows = ["%" * (w + 2)] + ["%" + "".join(cells[i * w:(i + 1) * w]) + "%" for i in range(h)] + ["%" * (w + 2)]
    return tuple(rows)


@st.composite
def placed(draw, sources=None):
    """A board and a place, direction and timer for every character, as they come up in the middle of a game"""
    rows = draw(sources if sources is not None else st.one_of(boards(), boards(), rooms(), halls()))
    n = 1 + ref_pac.Board(rows).ghosts
    spots = draw(st.lists(st.tuples(st.integers(0, 999), st.integers(0, 3), st.booleans(),
                                    st.sampled_from([0, 0, 1, 1, 2, 3, 17, 39, 40])), min_size=n, max_size=n))
    near = draw(st.booleans())  # ghosts around Pacman
    return rows, tuple(spots), near, draw(st.sampled_from([0, 0, 7, -1, -999, -2500, 9990, 123456]))


def stand(case):
    """The real and the reference state of a placed() case"""
    rows, spots, near, score = case
    b = ref_pac.Board(rows)
    s, r = new_state(rows), ref_pac.start(b)
    floor = sorted((x, y) for x in range(b.w) for y in range(b.h) if (x, y) not in b.walls)
    agents = []
    for i, (at, d, half, timer) in enumerate(spots):
        todo = floor
        if i and near:
            px, py = agents[0][0]
            todo = sorted(floor, key=lambda c: abs(c[0] - px) + abs(c[1] - py))[:13]
        got = None
        for k in range(len(todo)):
            x, y = todo[(at + k) % len(todo)]
            ways = [m for m in ref_pac.MOVES if (x - ref_pac.DIRS[m][0], y - ref_pac.DIRS[m][1]) not in b.walls]
            on = [m for m in ways if (x + ref_pac.DIRS[m][0], y + ref_pac.DIRS[m][1]) not in b.walls]
            m = ways[d % len(ways)] if ways else None
            pos, t = (x, y), timer if i else 0
            if half and i and on and t:
                m = on[d % len(on)]
                pos = (x + ref_pac.DIRS[m][0] / 2, y + ref_pac.DIRS[m][1] / 2)
            if m is not None and (not i or not ref_pac.near(pos, agents[0][0])):
                got = (pos, m, t)
                break
        agents.append(got or r.agents[i])
    for i, (pos, m, t) in enumerate(agents):
        c = s.data.agentStates[i]
        c.configuration = game.Configuration(pos, m)
        c.scaredTimer = t
    s.data.score = score
    return s, r.but(agents=tuple(agents), score=score)


def histories(max_segments=6, max_len=45):
    seg = st.tuples(st.sampled_from(ref_pac.MODES), st.one_of(st.integers(1, 6), st.integers(1, max_len)),
                    st.integers(0, 10 ** 6))
    return st.lists(seg, min_size=1, max_size=max_segments).map(tuple)


def new_state(rows, max_ghosts=1000):
    s = pacman.GameState()
    lay = layout.Layout(list(rows))
    if max_ghosts == 1000:
        s.initialize(lay)
    else:
        s.initialize(lay, max_ghosts)
    return s


def grid_cells(g):
    return frozenset((x, y) for x in range(g.width) for y in range(g.height) if g[x][y])


def look(s):
    """Everything observable about a real game state, as plain values"""
    n = s.getNumAgents()
    a = []
    for i in range(n):
        st_ = s.getPacmanState() if i == 0 else s.getGhostState(i)
        c = st_.configuration
        a.append((tuple(c.getPosition()), c.getDirection(), st_.scaredTimer))
    return {"agents": tuple(a), "food": grid_cells(s.getFood()), "caps": tuple(map(tuple, s.getCapsules())),
            "score": s.getScore(), "win": bool(s.isWin()), "lose": bool(s.isLose()),
            "moved": getattr(s.data, "_agentMoved", None), "ate_food": getattr(s.data, "_foodEaten", None),
            "ate_cap": getattr(s.data, "_capsuleEaten", None),
            "caught": tuple(bool(x) for x in getattr(s.data, "_eaten", ()))}


def compare(s, r, what, full=True):
    got = look(s)
    want = {"agents": r.agents, "food": r.food, "caps": r.caps, "score": r.score, "win": r.win, "lose": r.lose}
    if full:
        want.update(moved=r.moved, ate_food=r.ate_food, ate_cap=r.ate_cap, caught=r.caught)
    for k, v in want.items():
        if k in ("moved", "ate_food", "ate_cap", "caught") and got[k] != v and not hasattr(
                s.data, {"moved": "_agentMoved", "ate_food": "_foodEaten", "ate_cap": "_capsuleEaten",
                         "caught": "_eaten"}[k]):
            continue  # private record for displays, not there any more
        expect_eq(got[k], v, f"{what}: {k}")


def walk(case_history, max_steps=400):
    """Yields (agent order position, mode, rnd) for every single move of a history"""
    steps = 0
    for mode, n, seed in case_history:
        rnd = random.Random(seed)
        for _ in range(n):
            yield mode, rnd
            steps += 1
            if steps >= max_steps:
                return


@contextlib.contextmanager
def silent():
    out = io.StringIO()
    err = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


def forget():
    pacman.GameState.getAndResetExplored()


__all__ = ["boards", "rooms", "halls", "placed", "stand", "histories", "new_state", "grid_cells", "look", "compare", "walk", "silent", "forget", "game",
           "ghostAgents", "keyboardAgents", "layout", "pacman", "util", "keys", "NullGraphics", "ref_pac", "expect",
           "expect_eq"]
