"""C20: moves of the demo game follow the rules (model based, along generated games)"""
from hypothesis import strategies as st

from harness.core import Sub, expect, expect_eq, expect_raises
from harness import ref_pac
from harness.pac import boards, compare, forget, game, halls, histories, layout, new_state, pacman, placed, rooms, stand, walk

ID = "C20"
RULE = "a game in which something besides walking happens: food, a capsule, a caught ghost, recovery, a win or a death"
cases = st.tuples(st.one_of(boards(), boards(), rooms(), rooms(), halls()), histories(8, 90),
                  st.sampled_from([1000, 1000, 1000, 1, 2, 0]), st.sampled_from(["turns", "turns", "one", "mixed"]))
ALL = ("North", "South", "East", "West", "Stop")


def accessors(s, r):
    expect_eq(s.getNumAgents(), len(r.agents), "number of characters")
    expect_eq(tuple(s.getPacmanPosition()), r.agents[0][0], "position of Pacman")
    expect_eq([tuple(p) for p in s.getGhostPositions()], [a[0] for a in r.agents[1:]], "positions of the ghosts")
    expect_eq(len(s.getGhostStates()), len(r.agents) - 1, "number of ghost states")
    for i in range(1, len(r.agents)):
        expect_eq(tuple(s.getGhostPosition(i)), r.agents[i][0], "position of a ghost")
        expect(not s.getGhostState(i).isPacman, "a ghost should not be a Pacman")
    expect(s.getPacmanState().isPacman, "Pacman should be Pacman")
    expect_raises(lambda: s.getGhostState(0), "ghost state of Pacman")
    expect_raises(lambda: s.getGhostPosition(0), "ghost position of Pacman")
    expect_raises(lambda: s.getGhostState(len(r.agents)), "ghost state of an unknown ghost")
    expect_eq(s.getNumFood(), len(r.food), "amount of food")
    w = s.getWalls()
    for x in range(r.board.w):
        for y in range(r.board.h):
            expect_eq(bool(s.hasFood(x, y)), (x, y) in r.food, f"food at {(x, y)}")
            expect_eq(bool(s.hasWall(x, y)), (x, y) in r.board.walls, f"wall at {(x, y)}")
            expect_eq(bool(w[x][y]), (x, y) in r.board.walls, f"wall at {(x, y)}")


def legal(s, r):
    for i in range(len(r.agents)):
        got = s.getLegalActions(i) if i else s.getLegalPacmanActions()
        expect_eq(sorted(got), sorted(ref_pac.legal(r, i)), f"legal moves of {i} at {r.agents[i]}")
    expect_eq(sorted(s.getLegalActions()), sorted(ref_pac.legal(r, 0)), "legal moves of Pacman")


def refused(s, i, m, r, what):
    expect_raises(lambda: s.generateSuccessor(i, m), f"{what}: move {m!r} of {i} at {r.agents[i]}")
    compare(s, r, "state after a refused move")


def check(case, ctx):
    rows, history, max_ghosts, order = case
    b = ref_pac.Board(rows)
    s, r = new_state(rows, max_ghosts), ref_pac.start(b, max_ghosts)
    compare(s, r, "first state")
    accessors(s, r)
    legal(s, r)
    n = len(r.agents)
    i, events, k = 0, set(), 0
    for mode, rnd in walk(history, 300):
        k += 1
        m = ref_pac.pick(r, i, mode, rnd)
        if rnd.random() < 0.05:
            bad = rnd.choice([x for x in ALL + ("Up", None) if x not in ref_pac.legal(r, i)])
            refused(s, i, bad, r, "not a legal move")
        if m is not None:
            r2 = ref_pac.move(r, i, m)
            s2 = s.generatePacmanSuccessor(m) if i == 0 and k % 2 else s.generateSuccessor(i, m)
            compare(s2, r2, f"after {m} of {i} from {r.agents}, {len(r.food)} food, capsules {r.caps}")
            legal(s2, r2)
            if k % 25 == 0:
                accessors(s2, r2)
            for j in range(1, n):
                if r.agents[j][2] == 1 and i == j:
                    events.add("recovery between cells" if tuple(r2.agents[j][0]) != tuple(
                        r.agents[j][0]) and (r.agents[j][0][0] + r.agents[j][0][1]) % 1 == 0 else "recovery")
                if 0 < r.agents[j][2] < 40 and r2.agents[j][2] == 40:
                    events.add("capsule while scared")
                if r2.caught[j] and not r.caught[j]:
                    events.add("caught by Pacman" if i == 0 else "ran into Pacman")
            if r2.ate_food:
                events.add("food")
            if r2.ate_cap:
                events.add("capsule")
            if r2.win:
                events.add("won")
            if r2.lose:
                events.add("died by own move" if i == 0 else "died by ghost move")
                if r.score - r2.score > 510:
                    events.add("two ghosts at once")
            s, r = s2, r2
            if r.win or r.lose:
                accessors(s, r)
                for j in range(n):
                    for m in ALL:
                        refused(s, j, m, r, "game has ended")
                break
        elif not ref_pac.legal(r, i):
            events.add("walled in")
        if order == "mixed":
            i = rnd.randrange(n)
        elif order == "one":  # one character moves many times in a row
            i = i if rnd.random() < 0.95 else rnd.randrange(n)
        else:
            i = (i + 1) % n
    forget()
    ctx.tag(*events)
    ctx.nontrivial = bool(events)


def check_placed(case, ctx):
    """Every move of every character from a state in the middle of a game"""
    s, r = stand(case)
    compare(s, r, "placed state", full=False)
    legal(s, r)
    for i in range(len(r.agents)):
        (x, y), facing = r.agents[i][:2]
        ways = [facing] if x != int(x) or y != int(y) else [m for m, v in ref_pac.DIRS.items()
                                                            if (x + v[0], y + v[1]) not in r.board.walls]
        expect_eq(sorted(game.Actions.getPossibleActions(s.data.agentStates[i].configuration, s.getWalls())), sorted(ways),
                  f"ways on from {(x, y)} facing {facing}")
        for m in ALL:
            if m not in ref_pac.legal(r, i):
                refused(s, i, m, r, "not a legal move")
                continue
            r2 = ref_pac.move(r, i, m)
            s2 = s.generateSuccessor(i, m)
            compare(s2, r2, f"after {m} of {i} from {r.agents}, {len(r.food)} food, capsules {r.caps}, score {r.score}",
                    full=False)
            legal(s2, r2)
            if any(r2.caught) or r2.win or r2.lose:
                ctx.nontrivial = True
                ctx.tag("caught" if any(r2.caught) else "won" if r2.win else "died")
            elif r.agents[i][2] == 1:
                ctx.nontrivial = True
                ctx.tag("recovery")
            if r2.win or r2.lose:
                continue
            j = (i + 1) % len(r.agents)
            for q in sorted(ref_pac.legal(r2, j))[:2]:  # and the answers
                compare(s2.generateSuccessor(j, q), ref_pac.move(r2, j, q), f"after {m} of {i}, {q} of {j} from {r.agents}",
                        full=False)
    compare(s, r, "state after its moves were tried", full=False)
    forget()


def check_geometry(case, ctx):
    rows, dx, dy = case
    b = ref_pac.Board(rows)
    A, D = game.Actions, game.Directions
    for m, v in ref_pac.DIRS.items():
        expect_eq(A.reverseDirection(m), ref_pac.BACK[m], f"reverse of {m}")
        expect_eq(D.REVERSE[m], ref_pac.BACK[m], f"reverse of {m}")
        expect_eq(D.LEFT[m], ref_pac.LEFT[m], f"left of {m}")
        expect_eq(D.RIGHT[ref_pac.LEFT[m]], m, f"right of {ref_pac.LEFT[m]}")
        expect_eq(tuple(A.directionToVector(m)), v, f"vector of {m}")
        expect_eq(tuple(A.directionToVector(m, dx)), (v[0] * dx, v[1] * dx), f"vector of {m} with speed {dx}")
        expect_eq(A.vectorToDirection((v[0] * dx, v[1] * dx)), m, f"direction of the vector of {m}")
        expect_eq(tuple(A.getSuccessor((dx, dy), m)), (dx + v[0], dy + v[1]), f"cell after {m}")
    lay = layout.Layout(list(rows))
    for x in range(b.w):
        for y in range(b.h):
            want = {(x + v[0], y + v[1]) for v in ref_pac.DIRS.values()
                    if 0 <= x + v[0] < b.w and 0 <= y + v[1] < b.h} - b.walls
            got = A.getLegalNeighbors((x, y), lay.walls)
            expect_eq(sorted(map(tuple, got)), sorted(want), f"open cells next to {(x, y)}")
            c = game.Configuration((x, y), "West")
            expect_eq((c.getPosition(), c.getDirection(), c.isInteger()), ((x, y), "West", True), "configuration")
            half = c.generateSuccessor((0, 0.5))
            expect_eq((half.getPosition(), half.getDirection(), half.isInteger()), ((x, y + 0.5), "North", False),
                      "configuration between cells")
            still = c.generateSuccessor((0, 0))
            expect_eq((still.getPosition(), still.getDirection()), ((x, y), "West"), "configuration after staying")
            expect(still == c and hash(still) == hash(c), "equal configurations")
            expect(not (half == c) and not (c == game.Configuration((x, y), "East")), "different configurations")
            if x and 0 < y < b.h - 1 and x < b.w - 1 and (x, y) not in b.walls:
                poss = A.getPossibleActions(c, lay.walls)
                expect_eq(sorted(poss), sorted(m for m, v in ref_pac.DIRS.items()
                                               if (x + v[0], y + v[1]) not in b.walls), f"moves from {(x, y)}")
    ctx.nontrivial = bool(b.walls)
    _ = pacman


SUBS = [
    Sub("rules", cases, check, 400, 12000),
    Sub("placed", placed(), check_placed, 250, 8000),
    Sub("geometry", st.tuples(boards(max_w=5, max_h=4), st.sampled_from([0.25, 0.5, 1, 1.0, 2, 3]), st.integers(0, 9)),
        check_geometry, 30, 300),
]
