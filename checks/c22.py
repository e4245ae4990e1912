"""C22: boards and grids keep every cell through parsing, packing, copying and printing"""
import os
import random
import shutil
import tempfile

from hypothesis import strategies as st

from harness import core, ref_pac
from harness.core import Sub, expect, expect_eq, expect_raises
from harness.pac import boards, game, grid_cells, halls, layout, new_state

ID = "C22"
RULE = "a board with at least four kinds of cells, or a grid of more than 30 cells that is neither empty nor full"


def same_layout(lay, b, what):
    expect_eq((lay.width, lay.height), (b.w, b.h), f"{what}: size")
    expect_eq(grid_cells(lay.walls), frozenset(b.walls), f"{what}: walls")
    expect_eq(grid_cells(lay.food), frozenset(b.food), f"{what}: food")
    expect_eq((lay.walls.width, lay.walls.height, lay.food.width, lay.food.height), (b.w, b.h, b.w, b.h),
              f"{what}: size of its grids")
    expect_eq(sorted(map(tuple, lay.capsules)), sorted(b.caps), f"{what}: capsules")
    expect_eq([(bool(p), tuple(c)) for p, c in lay.agentPositions], [(k == 0, c) for k, c in b.order],
              f"{what}: characters")
    expect_eq(lay.getNumGhosts(), b.ghosts, f"{what}: number of ghosts")
    expect_eq(lay.totalFood, len(b.food), f"{what}: amount of food")
    expect_eq(str(lay), "\n".join(b.rows), f"{what}: printed board")


# ---- boards ---------------------------------------------------------------------------------------------------------

@st.composite
def texts(draw):
    if draw(st.booleans()):
        return draw(st.one_of(boards(max_w=8, max_h=6), halls()))
    w, h = draw(st.integers(1, 9)), draw(st.integers(1, 7))
    return tuple("".join(draw(st.lists(st.sampled_from("  %%..ooG1234PxXg0O5-"), min_size=w, max_size=w)))
                 for _ in range(h))


def check_board(case, ctx):
    rows, seed = case
    b = ref_pac.Board(rows)
    text = list(rows)
    lay = layout.Layout(text)
    same_layout(lay, b, "board")
    for x in range(b.w):
        for y in range(b.h):
            expect_eq(bool(lay.isWall((x, y))), (x, y) in b.walls, f"wall at {(x, y)}")
    d = lay.deepCopy()
    same_layout(d, b, "copied board")
    for x in range(b.w):
        for y in range(b.h):
            d.walls[x][y] = not d.walls[x][y]
            d.food[x][y] = not d.food[x][y]
    d.capsules.append((77, 7))
    d.agentPositions.append((True, (7, 7)))
    same_layout(lay, b, "board after its copy was changed")
    expect_eq(text, list(rows), "text of the board")
    corners = [(1, 1), (1, b.h - 2), (b.w - 2, 1), (b.w - 2, b.h - 2)]
    random.seed(seed)
    if len(b.walls) < b.w * b.h:
        for _ in range(5):
            p = tuple(lay.getRandomLegalPosition())
            expect(0 <= p[0] < b.w and 0 <= p[1] < b.h and p not in b.walls, "random legal position", p)
    expect(tuple(lay.getRandomCorner()) in corners, "random corner")
    at = (seed % b.w, (seed // 7) % b.h)
    far = tuple(lay.getFurthestCorner(at))

    def dist(c):
        return abs(c[0] - at[0]) + abs(c[1] - at[1])
    expect(far in corners and dist(far) == max(map(dist, corners)), f"corner farthest from {at}", far)
    if sum(k == 0 for k, _ in b.order) == 1 and sum(1 for _ in b.order) < 20:
        for limit in {1000, 0, 1, b.ghosts}:
            s = new_state(rows, limit)
            expect_eq(s.getNumAgents(), 1 + min(limit, b.ghosts), "number of characters in the game")
            expect_eq(str(s), ref_pac.text(ref_pac.start(b, limit)), "printed first state")
        same_layout(lay, b, "board after starting a game")
    ctx.nontrivial = len(set("".join(rows))) >= 4
    ctx.tag(f"ghosts={min(b.ghosts, 5)}")


# ---- files ----------------------------------------------------------------------------------------------------------

@st.composite
def files(draw):
    """Folders 0 (top) .. 5 (current); which of them hold the file, plain or in 'layouts'"""
    n = draw(st.integers(1, 4))
    names = ["alpha", "beta.lay", "gamma", "b.c"]
    put = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), st.booleans(),
                                  st.one_of(boards(max_w=3, max_h=3), boards(max_w=3, max_h=3), halls())),
                        min_size=n, max_size=n))
    return tuple(put), tuple(draw(st.lists(st.integers(0, 3), min_size=1, max_size=4))), tuple(names), \
        draw(st.sampled_from(["", "", "", "broken", "empty"]))


def check_files(case, ctx):
    put, asks, names, extra = case
    home = os.getcwd()
    top = tempfile.mkdtemp(prefix="lay", dir=home)
    try:
        dirs = [os.path.join(top, *"abcdef"[:k + 1]) for k in range(6)]
        os.makedirs(os.path.join(dirs[-1], "sub"))
        have = {}
        for nm, up, inner, rows in put:
            d = dirs[5 - up]
            f = names[nm] if names[nm].endswith(".lay") else names[nm] + ".lay"
            if inner:
                d = os.path.join(d, "layouts")
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, f), "w") as o:
                o.write("\n".join(rows) + ("\n" if up % 2 else ""))
            have[(nm, up, inner)] = rows
        if extra:
            with open(os.path.join(dirs[3], "bad.lay"), "w") as o:
                o.write("%%%%\n%P%" if extra == "broken" else "")
        os.chdir(dirs[5])
        for nm in list(asks) + [None]:
            name = "missing" if nm is None else names[nm]
            want = None
            for up in range(4):
                for inner in (True, False):
                    want = want or have.get((nm, up, inner))
            lay = layout.getLayout(name)
            expect_eq(os.getcwd(), dirs[5], f"current folder after looking for {name!r}")
            if want is None:
                expect(lay is None, f"no layout {name!r} should be found")
            else:
                expect(lay is not None, f"layout {name!r} should be found")
                same_layout(lay, ref_pac.Board(want), f"layout file {name!r}")
        if extra:
            expect_raises(lambda: layout.getLayout("bad"), "board that is not a rectangle")
            expect_eq(os.getcwd(), dirs[5], "current folder after a layout file that cannot be read")
    finally:
        os.chdir(home)
        shutil.rmtree(top)
    ctx.nontrivial = False
    ctx.tag(*[f"up={u}" for _, u, _, _ in put])


# ---- grids ----------------------------------------------------------------------------------------------------------

@st.composite
def grids(draw):
    if draw(st.integers(0, 2)) == 0:  # around the size of one packed integer
        total = draw(st.sampled_from([29, 30, 31, 59, 60, 61, 89, 90, 91, 120, 150, 151]))
        divs = [k for k in range(1, total + 1) if total % k == 0]
        w = draw(st.sampled_from(divs))
        h = total // w
    else:
        w, h = draw(st.integers(1, 13)), draw(st.integers(1, 13))
    kind = draw(st.integers(0, 4))
    n = w * h
    if kind == 0:
        cells = 0
    elif kind == 1:
        cells = 2 ** n - 1
    elif kind == 2:
        cells = 1 << draw(st.integers(0, n - 1))
    else:
        cells = draw(st.integers(0, 2 ** n - 1))
    return w, h, cells, draw(st.integers(0, n - 1))


def make(w, h, cells):
    g = game.Grid(w, h)
    for k in range(w * h):
        if cells >> k & 1:
            g[k // h][k % h] = True
    return g


def content(g, w, h):
    return [[g[x][y] for y in range(h)] for x in range(w)]


def check_grid(case, ctx):
    w, h, cells, flip = case
    want = [[bool(cells >> (x * h + y) & 1) for y in range(h)] for x in range(w)]
    g = make(w, h, cells)
    expect_eq(content(g, w, h), want, "cells of the grid")
    on = [(x, y) for x in range(w) for y in range(h) if want[x][y]]
    off = [(x, y) for x in range(w) for y in range(h) if not want[x][y]]
    expect_eq(g.count(), len(on), "count")
    expect_eq(g.count(True), len(on), "count of True")
    expect_eq(g.count(False), len(off), "count of False")
    expect_eq(sorted(map(tuple, g.asList())), on, "listed cells")
    expect_eq(sorted(map(tuple, g.asList(False))), off, "listed empty cells")
    expect_eq((g.count(1), g.count(0)), (len(on), len(off)), "count of 1 and 0")
    expect_eq((sorted(map(tuple, g.asList(1))), sorted(map(tuple, g.asList(0)))), (on, off), "listed cells of 1 and 0")
    text = "\n".join("".join("T" if want[x][y] else "F" for x in range(w)) for y in reversed(range(h)))
    expect_eq(str(g), text, "printed grid")
    packed = g.packBits()
    expect(isinstance(packed, tuple) and all(isinstance(i, int) and i >= 0 for i in packed), "packed form", packed)
    expect_eq(packed[:2], (w, h), "packed size")
    back = game.reconstituteGrid(packed)
    expect_eq((back.width, back.height), (w, h), "size after packing and unpacking")
    expect_eq(content(back, w, h), want, "cells after packing and unpacking")
    again = game.Grid(w, h, bitRepresentation=packed[2:])
    expect_eq(content(again, w, h), want, "cells read from the packed form")
    expect(game.reconstituteGrid(g) is g, "a grid that is not packed should be returned as it is")
    twins = [back, again, g.copy(), g.deepCopy(), make(w, h, cells), g.shallowCopy()]
    for t in twins:
        expect_eq((t.width, t.height), (w, h), "size of a copy")
        expect_eq(content(t, w, h), want, "cells of a copy")
        expect(t == g and g == t and not (t != g), "equal grids")
        expect_eq(hash(t), hash(g), "hashes of equal grids")
        expect_eq(t.packBits(), packed, "packed form of a copy")
    whole = game.Grid(w, h)
    for x in range(w):
        whole[x] = list(want[x])
    expect(whole == g and content(whole, w, h) == want, "grid filled column by column")
    other = make(w, h, cells ^ (1 << flip))
    expect(not (other == g) and not (g == other), "different grids should be unequal")
    lit = [k for k in range(w * h) if cells >> k & 1]
    dark = [k for k in range(w * h) if not cells >> k & 1]
    if lit and dark:  # as many cells, one of them elsewhere (and 61 cells elsewhere, which gives the same hash)
        i = lit[flip % len(lit)]
        for j in (dark[flip % len(dark)], i + 61, i - 61):
            if j in dark:
                moved = make(w, h, cells ^ (1 << i | 1 << j))
                expect(not (moved == g) and not (g == moved) and moved != g, "grids with a cell elsewhere should be unequal")
                expect_eq(len({moved, g}), 2, "grids with a cell elsewhere in a set")
    expect(other.packBits() != packed, "packed forms of different grids")
    expect(not (g == None), "a grid is not None")  # noqa: E711
    if w != h:
        expect(not (game.Grid(h, w) == game.Grid(w, h)), "grids of different shape")
    for t in twins[:5]:
        x, y = flip // h, flip % h
        t[x][y] = not t[x][y]
        expect_eq(content(g, w, h), want, "grid after its copy was changed")
        expect_eq(content(t, w, h), content(other, w, h), "changed copy")
        expect(t == other and hash(t) == hash(other), "changed copy equals the grid with that cell changed")
    c = g.copy()
    x, y = flip // h, flip % h
    g[x][y] = not g[x][y]
    expect_eq(content(c, w, h), want, "copy after its original was changed")
    cells ^= 1 << flip
    new = make(w, h, cells)
    for what, f in (("count", lambda t: (t.count(), t.count(False))), ("cells", lambda t: content(t, w, h)),
                    ("listing", lambda t: sorted(t.asList())), ("listing of False", lambda t: sorted(t.asList(False))),
                    ("printed form", str), ("packed form", lambda t: t.packBits()), ("hash", hash),
                    ("copy", lambda t: content(t.copy(), w, h)), ("deep copy", lambda t: content(t.deepCopy(), w, h))):
        expect_eq(f(g), f(new), f"{what} of a grid that was changed")
        lit, dark = [[k for k in range(w * h) if cells >> k & 1 == v] for v in (1, 0)]
        if lit and dark:  # one cell cleared and another one set in the grid that was just asked
            i = lit[flip % len(lit)]
            j = i + 61 if i + 61 in dark else dark[(flip * 7 + 3) % len(dark)]
            cells ^= 1 << i | 1 << j
            g[i // h][i % h], g[j // h][j % h] = False, True
            new = make(w, h, cells)
            expect_eq(f(g), f(new), f"{what} of a grid in which one cell was cleared and one set")
    expect(g == new and new == g, "changed grid equals a new grid with these cells")
    expect_eq(game.Grid(w, h, True).count(), w * h, "full grid")
    expect_raises(lambda: game.Grid(w, h, "x"), "grid of something else than booleans")
    ctx.nontrivial = w * h > 30 and 0 < len(on) < w * h
    ctx.tag(f"cells%30={'0' if w * h % 30 == 0 else 'other'}")


def check_shipped(case, ctx):
    """The layout files that come with the game"""
    folder = os.path.join(core.DEMO, "layouts")
    home = os.getcwd()
    for f in sorted(os.listdir(folder)):
        if not f.endswith(".lay"):
            continue
        with open(os.path.join(folder, f)) as o:
            rows = tuple(line.strip() for line in o)
        try:
            for cwd in (core.DEMO, folder):
                os.chdir(cwd)
                for name in (f, f[:-4]):
                    lay = layout.getLayout(name)
                    expect_eq(os.getcwd(), cwd, "current folder after loading a shipped layout")
                    expect(lay is not None, f"shipped layout {name!r} should be found")
                    same_layout(lay, ref_pac.Board(rows), f"shipped layout {name!r}")
        finally:
            os.chdir(home)
    ctx.nontrivial = False


SUBS = [
    Sub("shipped", st.just(()), check_shipped, 1, 1),
    Sub("board", st.tuples(texts(), st.integers(0, 1000)), check_board, 300, 4000),
    Sub("files", files(), check_files, 60, 800),
    Sub("grid", grids(), check_grid, 300, 4000),
]
