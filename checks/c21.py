"""C21: game states are values (stateful: a growing pool of states, all compared with their snapshots after every step)"""
import random

from hypothesis import strategies as st

from harness.core import Sub, expect, expect_eq, expect_raises
from harness import ref_pac
from harness.pac import boards, compare, forget, game, grid_cells, halls, look, new_state, pacman, rooms

ID = "C21"
RULE = "a history with at least two states derived from the same state in which food, a capsule or a ghost was eaten"
OPS = ["run", "run", "run", "move", "move", "move", "again", "deep", "deep", "spoil", "refuse", "pacstate", "text", "legal"]
op = st.tuples(st.sampled_from(OPS), st.integers(0, 40), st.integers(0, 5), st.integers(0, 999))
cases = st.tuples(st.one_of(boards(max_w=6, max_h=4), rooms()), st.lists(op, min_size=3, max_size=25).map(tuple))


def snap(s):
    d = look(s)
    d["text"] = str(s)
    d["walls"] = grid_cells(s.getWalls())
    d["layout"] = str(s.data.layout)
    d["legal"] = tuple(tuple(sorted(s.getLegalActions(i))) for i in range(s.getNumAgents()))
    d["change"] = getattr(s.data, "scoreChange", None)
    return d


def diff(a, b):
    return {k: (a[k], b[k]) for k in a if a[k] != b[k]}


def check(case, ctx):
    rows, ops = case
    b = ref_pac.Board(rows)
    s0 = new_state(rows)
    pool = [(s0, ref_pac.start(b), snap(s0))]  # state, reference, snapshot
    moves = []  # (from, agent, move, to)
    kids, eaten, ended = {}, False, False
    for what, i, a, seed in ops:
        rnd = random.Random(seed)
        i = i % len(pool) if what != "run" else (len(pool) - 1 if rnd.random() < 0.7 else i % len(pool))
        s, r, sn = pool[i]
        n = len(r.agents)
        a %= n
        if what in ("move", "run"):
            mode = ref_pac.MODES[seed % len(ref_pac.MODES)]
            for k in range(1 if what == "move" else 1 + seed % 60):
                m = ref_pac.pick(r, a, mode, rnd)
                if m is None:
                    if r.win or r.lose:
                        break
                    a = (a + 1) % n
                    continue
                s2, r2 = s.generateSuccessor(a, m), ref_pac.move(r, a, m)
                compare(s2, r2, f"state after {m} of {a}", full=False)
                kids[i] = kids.get(i, 0) + 1
                eaten |= bool(r2.ate_food or r2.ate_cap or any(r2.caught))
                ended |= r2.win or r2.lose
                if what == "move" or k % 10 == 0 or r2.ate_cap or r2.win or r2.lose or any(r2.caught):
                    pool.append((s2, r2, snap(s2)))
                    moves.append((s, sn, a, m, r2))
                s, r, i = s2, r2, len(pool) - 1
                sn = None
                if len(pool) > 45:
                    break
                a = (a + 1) % n
        elif what == "again" and moves:  # the same move from the same state
            f, _, ag, m, r2 = moves[i % len(moves)]
            compare(f.generateSuccessor(ag, m), r2, f"same move {m} of {ag} made again", full=False)
        elif what == "deep":
            d = s.deepCopy()
            expect_eq(diff(sn, snap(d)), {}, "deep copy differs")
            expect(d == s and hash(d) == hash(s), "a deep copy should equal its original")
            expect(d is not s, "a deep copy should be a new object")
            pool.append((d, r, snap(d)))
            e = s.deepCopy()  # everything a character carries along is copied too
            for k, c in enumerate(e.data.agentStates):
                c.numCarrying, c.numReturned = seed % 7 + k, seed % 5 + 2 * k
            for t in (e.deepCopy(), e.deepCopy().deepCopy()):
                for c, o in zip(t.data.agentStates, e.data.agentStates):
                    expect_eq(vars(c), vars(o), "character of a deep copy")
                    expect_eq(str(c), str(o), "printed character of a deep copy")
            for k, c in enumerate(s.data.agentStates):
                expect(str(c).startswith("Ghost" if k else "Pacman"), "printed character", c)
        elif what == "spoil":  # a copy may be changed at will
            d = s.deepCopy()
            f = d.getFood()
            for x in range(b.w):
                for y in range(b.h):
                    f[x][y] = not f[x][y]
            d.getCapsules().append((0, 0))
            d.getCapsules()[:1] = []
            w = d.getWalls()
            w[0][0] = not w[0][0]
            for k in range(n):
                d.data.agentStates[k].scaredTimer += 3
                d.data.agentStates[k].configuration = game.Configuration((9, 9), "East")
            d.data.agentStates.pop()
            d.data.score += 7
            e = getattr(d.data, "_eaten", None)
            if e:
                e[0] = not e[0]
            if r.food or r.caps or True:
                expect(not (d == s), "a changed copy should not equal its original")
        elif what == "refuse":
            bad = [x for x in ("North", "South", "East", "West", "Stop", "Up") if x not in ref_pac.legal(r, a)]
            if bad:
                expect_raises(lambda: s.generateSuccessor(a, bad[seed % len(bad)]), "move that is not legal")
        elif what == "pacstate":
            c = s.getPacmanState()
            c.scaredTimer = 17
            c.configuration = game.Configuration((8, 8), "East")
        elif what == "legal":  # the moves asked for belong to who asks
            for k in range(n):
                ms = s.getLegalActions(k)
                if isinstance(ms, list):
                    ms.append("Up")
                    del ms[:1]
        elif what == "text":
            expect_eq(str(s), ref_pac.text(r), "printed state")
        ctx.tag(what)
        for k, (t, _, tn) in enumerate(pool):
            expect_eq(diff(tn, snap(t)), {}, f"state {k} changed by '{what}' on state {i}")
        if len(pool) > 45:
            break
    # equality and hash
    expect(not (s0 == None) and not (s0 == 3), "a state is not equal to something else")  # noqa: E711
    for s, r, _ in pool:
        for t, q, _ in pool:
            same = (r.agents, r.food, r.caps, r.score) == (q.agents, q.food, q.caps, q.score)
            expect_eq(bool(s == t), same, f"equality of states {r.key()} and {q.key()}")
            if same:
                expect_eq(hash(s), hash(t), "hashes of equal states")
    forget()
    ctx.nontrivial = eaten and max(kids.values(), default=0) > 1
    if ended:
        ctx.tag("ended")
    _ = pacman


# ---- pairs of states differing in one respect ------------------------------------------------------------------------

pairs = st.tuples(st.one_of(boards(max_w=5, max_h=4), boards(max_w=5, max_h=4), halls()), st.integers(0, 10 ** 6),
                  st.integers(0, 40), st.sampled_from(["food", "moved food", "capsule", "score", "timer", "direction", "position", "nothing", "number"]))


def change(d, what, b, n, rnd):
    """Changes a state in one respect"""
    k = rnd.randrange(n)
    ag = d.data.agentStates[k]
    x, y = ag.configuration.getPosition()
    if what == "food":
        fx, fy = rnd.randrange(b.w), rnd.randrange(b.h)
        d.getFood()[fx][fy] = not d.getFood()[fx][fy]
    elif what == "moved food":  # one dot elsewhere, on large boards so that the hash of the food stays the same
        f, cells = d.getFood(), [(x, y) for x in range(b.w) for y in range(b.h)]
        k = rnd.randrange(len(cells))
        j = (k + 61 if k + 61 < len(cells) else k - 61) if len(cells) > 122 else (k + 1) % len(cells)
        (x, y), (v, w) = cells[k], cells[j]
        if f[x][y] == f[v][w]:
            f[x][y] = not f[x][y]
        else:
            f[x][y], f[v][w] = f[v][w], f[x][y]
    elif what == "capsule":
        if d.getCapsules() and rnd.random() < 0.5:
            d.getCapsules().pop()
        else:
            d.getCapsules().append((0, 0))
    elif what == "score":
        d.data.score += rnd.choice([1, -1, 10, 500, -2 ** 61])
    elif what == "timer":
        ag.scaredTimer += 1
    elif what == "direction":
        ag.configuration = game.Configuration((x, y), {"North": "South"}.get(ag.configuration.direction, "North"))
    elif what == "position":
        ag.configuration = game.Configuration(rnd.choice([(x + 1, y), (x, y + 0.5), (y, x) if x != y else (x, y - 1)]),
                                              ag.configuration.direction)
    elif what == "number":  # one ghost less
        d.data.agentStates.pop()


def check_pairs(case, ctx):
    rows, seed, steps, what = case
    b = ref_pac.Board(rows)
    rnd = random.Random(seed)
    s, r = new_state(rows), ref_pac.start(b)
    i = 0
    for _ in range(steps):
        m = ref_pac.pick(r, i, "pace", rnd)
        if m is None:
            break
        s2, r2 = s.generateSuccessor(i, m), ref_pac.move(r, i, m)
        if r2.win or r2.lose:
            break
        s, r = s2, r2
        i = (i + 1) % len(r.agents)
    d = s.deepCopy()
    twin = s.deepCopy()
    hash(d), str(d), d == s  # asked before the change; the twin is asked only after it
    if what == "number" and len(r.agents) == 1:
        return
    change(d, what, b, len(r.agents), random.Random(seed))
    change(twin, what, b, len(r.agents), random.Random(seed))
    expect(d == twin and twin == d, f"states with the same change in {what} should be equal")
    expect_eq(hash(d), hash(twin), f"hashes of equal states ({what} changed)")
    if what != "position":  # the new place may lie off the board
        expect_eq(str(d), str(twin), f"printed forms of equal states ({what} changed)")
    if what == "nothing":
        expect(d == s and s == d and hash(d) == hash(s), "equal states")
        expect_eq(len({s, d}), 1, "equal states in a set")
    else:
        expect(not (d == s) and not (s == d), f"states that differ in {what} should be unequal")
        expect(d != s, f"states that differ in {what} should be unequal")
        expect_eq(len({s, d}), 2, f"states that differ in {what} in a set")
    compare(s, r, "original of the changed copy", full=False)
    ctx.nontrivial = False
    ctx.tag(what)
    forget()


SUBS = [
    Sub("values", cases, check, 300, 8000),
    Sub("pairs", pairs, check_pairs, 100, 3000),
]
