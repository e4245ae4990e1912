"""C24: ghost and keyboard players only choose legal moves with the stated odds (along generated games)"""
import math
import random
from fractions import Fraction

from hypothesis import strategies as st

from harness import ref_pac
from harness.core import Sub, expect, expect_close, expect_eq
from harness.pac import boards, forget, ghostAgents, histories, keyboardAgents, keys, look, new_state, placed, rooms, \
    stand, util, walk

ID = "C24"
RULE = "a ghost with at least two legal moves of which not all are equally good, or a key sequence with a blocked key"
PROBS = st.one_of(st.sampled_from([0, 0.25, 0.5, 0.8, 1, 0.99]), st.integers(0, 100).map(lambda k: k / 100))


def spread(r, i, attack, flee):
    """Reference odds of the directional ghost, exact"""
    ms = sorted(ref_pac.legal(r, i))
    pos, _, t = r.agents[i]
    step = Fraction(1, 2) if t > 0 else 1
    pac = r.agents[0][0]

    def dist(m):
        dx, dy = ref_pac.DIRS[m]
        return abs(Fraction(pos[0]) + dx * step - pac[0]) + abs(Fraction(pos[1]) + dy * step - pac[1])
    d = {m: dist(m) for m in ms}
    best = [m for m in ms if d[m] == (max if t > 0 else min)(d.values())]
    p = Fraction(flee if t > 0 else attack)
    return {m: (p / len(best) if m in best else 0) + (1 - p) / len(ms) for m in ms}, len(best) < len(ms)


def same_odds(got, want, what):
    for m, p in want.items():
        expect_close(got[m], float(p), f"{what}: probability of {m}")
    expect(set(m for m in got if got[m] > 0) <= set(want), f"{what}: probability of an illegal move", got)
    expect_close(sum(got.values()), 1.0, f"{what}: sum of the probabilities")


def check_ghosts(case, ctx):
    rows, history, attack, flee, seed = case
    b = ref_pac.Board(rows)
    s, r = new_state(rows), ref_pac.start(b)
    n = len(r.agents)
    i, seen = 0, 0
    rng = random.Random(seed)
    made = {}

    def player(g, name, make):
        """The same ghost plays the whole game in one case of two"""
        if seed % 2:
            return make()
        return made[g, name] if (g, name) in made else made.setdefault((g, name), make())

    for k, (mode, rnd) in enumerate(walk(history, 160)):
        if (k % 4 == 0 or k < 6) and not (r.win or r.lose):
            before = look(s)
            for g in range(1, n):
                ms = ref_pac.legal(r, g)
                if not ms:
                    random.seed(rng.randrange(10 ** 6))
                    if not (r.agents[g][0] in b.walls):
                        expect_eq(ghostAgents.RandomGhost(g).getAction(s), "Stop", "move of a ghost that is walled in")
                    continue
                rg = player(g, "random", lambda: ghostAgents.RandomGhost(g))
                same_odds(rg.getDistribution(s), {m: Fraction(1, len(ms)) for m in ms}, "random ghost")
                dg = player(g, "directional", lambda: ghostAgents.DirectionalGhost(g, attack, flee) if seed % 3 else
                            ghostAgents.DirectionalGhost(g, prob_attack=attack, prob_scaredFlee=flee))
                want, uneven = spread(r, g, attack, flee)
                what = f"directional ghost at {r.agents[g]} with Pacman at {r.agents[0][0]}"
                same_odds(dg.getDistribution(s), want, what)
                df, _ = spread(r, g, 0.8, 0.8)
                same_odds(ghostAgents.DirectionalGhost(g).getDistribution(s), df, "default " + what)
                for agent in (rg, dg):  # the distribution is the caller's to change
                    odds = agent.getDistribution(s)
                    odds["Stop"] = odds["North"] = odds["nowhere"] = 50
                    expect("nowhere" not in agent.getDistribution(s), "odds asked for again after changing them")
                for agent, allowed in ((rg, ms), (dg, {m for m, p in want.items() if p > 0})):
                    random.seed(rng.randrange(10 ** 6))
                    m = agent.getAction(s)
                    expect(m in ms, f"{type(agent).__name__} chose a move that is not legal", m, ms)
                    expect(m in allowed, f"{type(agent).__name__} chose a move without probability", m, want)
                ctx.nontrivial |= uneven
                ctx.tag(("scared" if r.agents[g][2] else "hunting") + (" uneven" if uneven else ""))
                seen += 1
            expect_eq(look(s), before, "state after asking the ghosts")
        m = ref_pac.pick(r, i, mode, rnd)
        if m is not None:
            s, r = s.generateSuccessor(i, m), ref_pac.move(r, i, m)
        if r.win or r.lose:
            break
        i = (i + 1) % n
    forget()


def check_placed(case, ctx):
    """The odds from states in the middle of a game"""
    where, attack, flee = case
    s, r = stand(where)
    before = look(s)
    for g in range(1, len(r.agents)):
        ms = ref_pac.legal(r, g)
        if not ms:
            continue
        what = f"ghost at {r.agents[g]} with Pacman at {r.agents[0][0]}"
        same_odds(ghostAgents.RandomGhost(g).getDistribution(s), {m: Fraction(1, len(ms)) for m in ms}, "random " + what)
        want, uneven = spread(r, g, attack, flee)
        same_odds(ghostAgents.DirectionalGhost(g, attack, flee).getDistribution(s), want, "directional " + what)
        ctx.nontrivial |= uneven
        ctx.tag(f"timer={min(r.agents[g][2], 3)}")
    expect_eq(look(s), before, "state after asking the ghosts")
    forget()


freq = st.tuples(boards(max_w=5, max_h=4), st.integers(0, 30), st.sampled_from([0.0, 0.3, 0.5, 0.8, 1.0]),
                 st.integers(0, 10 ** 6))


def check_frequency(case, ctx):
    """Observed frequencies of the chosen moves, within 6.5 standard deviations"""
    rows, steps, p, seed = case
    b = ref_pac.Board(rows)
    s, r = new_state(rows), ref_pac.start(b)
    rnd = random.Random(seed)
    i = 0
    for _ in range(steps):
        m = ref_pac.pick(r, i, "capsule", rnd)
        if m is not None:
            r2 = ref_pac.move(r, i, m)
            if r2.win or r2.lose:
                break
            s, r = s.generateSuccessor(i, m), r2
        i = (i + 1) % len(r.agents)
    for g in range(1, len(r.agents)):
        ms = sorted(ref_pac.legal(r, g))
        if len(ms) < 2:
            continue
        for agent, want in ((ghostAgents.RandomGhost(g), {m: Fraction(1, len(ms)) for m in ms}),
                            (ghostAgents.DirectionalGhost(g, p, p), spread(r, g, p, p)[0])):
            random.seed(seed)
            n = 600
            got = {}
            for _ in range(n):
                m = agent.getAction(s)
                got[m] = got.get(m, 0) + 1
            for m in set(got) | set(want):
                q = float(want.get(m, 0))
                expect(abs(got.get(m, 0) - n * q) <= 6.5 * math.sqrt(n * q * (1 - q)) + 1e-9,
                       f"{type(agent).__name__} chose {m} {got.get(m, 0)} of {n} times, probability {q}")
        ctx.tag("measured")
        break
    forget()


# ---- keyboard -------------------------------------------------------------------------------------------------------

FIRST = {"a": "West", "d": "East", "w": "North", "s": "South", "Left": "West", "Right": "East", "Up": "North",
         "Down": "South"}
SECOND = {"j": "West", "l": "East", "i": "North", "k": "South"}
PRESS = ["a", "d", "w", "s", "q", "Left", "Right", "Up", "Down", "x", "x", "space"]
PRESS2 = ["j", "l", "i", "k", "u", "a", "q", "Left", "x", "x"]
press = st.tuples(st.lists(st.integers(0, 11), max_size=2), st.lists(st.integers(0, 11), max_size=2), st.booleans())
keycases = st.tuples(st.one_of(boards(max_w=5, max_h=4, chars="     ...oo%%%%G", max_ghosts=2),
                               boards(max_w=6, max_h=5, chars="       ..o%", max_ghosts=2), rooms()), st.booleans(),
                     st.lists(press, min_size=1, max_size=25).map(lambda l: tuple((tuple(a), tuple(b), c) for a, b, c in l)),
                     st.integers(0, 10 ** 6), st.sampled_from([0, 0, 0, 1]))


def check_keys(case, ctx):
    rows, second, presses, seed, index = case
    b = ref_pac.Board(rows)
    s, r = new_state(rows), ref_pac.start(b)
    n = len(r.agents)
    index = index if index < n else 0
    cls = keyboardAgents.KeyboardAgent2 if second else keyboardAgents.KeyboardAgent
    agent = cls(index) if index or seed % 2 else cls()
    meaning, stop, names = (SECOND, "u", PRESS2) if second else (FIRST, "q", PRESS)
    held, last = [], "Stop"
    rnd = random.Random(seed)
    for waiting, pressed, quiet in presses:
        w = [] if quiet else [names[k % len(names)] for k in waiting]
        p = [] if quiet else [names[k % len(names)] for k in pressed]
        keys["waiting"], keys["pressed"] = w, p
        if w or p:
            held = w + p
        legal = ref_pac.legal(r, index)
        if not legal:
            break
        random.seed(rnd.randrange(10 ** 6))
        got = agent.getAction(s)
        expect(got in legal, "keyboard player chose a move that is not legal", got, legal)
        asked = {meaning[k] for k in held if k in meaning}
        possible = asked & legal
        where = f"keys {held}, legal {sorted(legal)}, last move {last}"
        if stop in held and "Stop" in legal:
            expect_eq(got, "Stop", f"stop key: {where}")
        elif possible:
            expect(got in possible, f"pressed direction: {where}", got)
        elif last in legal:
            expect_eq(got, last, f"keeps going: {where}")
        elif "Stop" in legal:
            expect_eq(got, "Stop", f"stays when blocked: {where}")
        ctx.nontrivial |= bool(asked - legal)
        ctx.tag("stop key" if stop in held else "blocked" if asked - legal else "free" if asked else "no key")
        last = got
        for j in range(n):
            m = got if j == index else ref_pac.pick(r, j, "any", rnd)
            if m is not None and m in ref_pac.legal(r, j):
                s, r = s.generateSuccessor(j, m), ref_pac.move(r, j, m)
    keys["waiting"], keys["pressed"] = [], []
    forget()
    _ = util


SUBS = [
    Sub("ghosts", st.tuples(st.one_of(boards(), rooms()), histories(), PROBS, PROBS, st.integers(0, 10 ** 6)),
        check_ghosts, 120, 4000),
    Sub("placed", st.tuples(placed(), PROBS, PROBS), check_placed, 250, 6000),
    Sub("frequency", freq, check_frequency, 12, 200),
    Sub("keyboard", keycases, check_keys, 200, 6000),
]
