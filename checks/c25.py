"""C25: the game loop plays fair: turns, isolation, ending, failing players, series of games (fault injection)"""
import os
import pickle
import random
import re
import shutil
import signal
import sys
import tempfile
import time

from hypothesis import strategies as st


class Clock:
    """The time is the real one plus what players pretend to have thought"""
    more = 0.0


def _slowed(name, unit):
    real = getattr(time, name)
    setattr(time, name, lambda: real() + type(real())(Clock.more * unit))


for _n, _u in (("time", 1), ("monotonic", 1), ("perf_counter", 1), ("time_ns", 10 ** 9), ("monotonic_ns", 10 ** 9),
               ("perf_counter_ns", 10 ** 9)):
    _slowed(_n, _u)  # before the game is loaded

from harness import ref_pac  # noqa: E402
from harness.core import Sub, Violation, expect, expect_close, expect_eq
from harness.pac import NullGraphics, boards, compare, forget, game, layout, new_state, pacman, rooms, silent, util

ID = "C25"
RULE = "a game of at least three moves that ends by a win or death, or in which a player fails"


class Failure(Exception):
    """Raised by a player on purpose"""


class Plan:
    """A whole game played by the reference alone: moves, states and the way it ends"""

    def __init__(self, rows, seed, modes, limit, n_ghosts=1000, first=0):
        self.board = ref_pac.Board(rows)
        r = ref_pac.start(self.board, n_ghosts)
        self.states, self.moves = [r], []
        rnd = random.Random(seed)
        i = first
        self.stuck = False
        while len(self.moves) < limit and not (r.win or r.lose):
            m = ref_pac.pick(r, i, modes[len(self.moves) // 7 % len(modes)], rnd)
            if m is None:
                self.stuck = True  # a walled in ghost cannot move at all
                break
            r = ref_pac.move(r, i, m)
            self.moves.append((i, m))
            self.states.append(r)
            i = (i + 1) % len(r.agents)
        self.next = i
        self.ended = r.win or r.lose


class Log:
    def __init__(self):
        self.problems, self.calls = [], []

    def guard(self, fn):
        try:
            fn()
        except Violation as e:
            self.problems.append(str(e))


class Player:
    """Plays the plan; checks what it is shown; spoils what it is shown; fails where the fault plan says so"""

    def __init__(self, index, plan, log, fault=None, noisy=False):
        self.index, self.plan, self.log, self.fault, self.noisy = index, plan, log, fault, noisy
        self.turn = None

    def seen(self, state, k, what):
        r = self.plan.states[k]
        self.log.guard(lambda: compare(state, r, f"{what}, state shown at move {k}", full=False))
        self.log.guard(lambda: expect_eq(str(state), ref_pac.text(r), f"{what}, printed state at move {k}"))
        f = state.getFood()
        for x in range(self.plan.board.w):
            for y in range(self.plan.board.h):
                f[x][y] = not f[x][y]
        state.getCapsules().append((0, 0))
        for a in state.data.agentStates:
            a.scaredTimer += 5
            a.configuration = game.Configuration((1, 1), "East")
        state.data.score += 1000
        state.data._win = not getattr(state.data, "_win", False)

    def getAction(self, state):
        k = len([c for c in self.log.calls if c[0] == "action"])
        self.log.calls.append(("action", self.index))
        if self.noisy:
            print(f"voice of {self.index} at {k}")
            print(f"whisper of {self.index} at {k}", file=sys.stderr)
        if isinstance(state, tuple):  # what the observation function returned
            self.log.guard(lambda: expect_eq(state[0], "seen", "observation passed to the player"))
            state = state[1]
        kind = self.fault and self.fault[1] if self.fault and self.fault[0] == k else None
        if k < len(self.plan.moves) or kind:
            self.log.guard(lambda: expect_eq(self.index, self.plan.moves[k][0] if k < len(self.plan.moves)
                                             else self.plan.next, f"player asked at move {k}"))
        self.seen(state, k, "player") if k < len(self.plan.states) else None
        if kind == "raise":
            raise Failure("no idea")
        if kind == "slow":
            time.sleep(1.8)
        if kind == "none":
            return None
        if kind == "unknown":
            return "Up"
        if kind == "illegal" or k >= len(self.plan.moves):
            ms = ref_pac.legal(self.plan.states[min(k, len(self.plan.states) - 1)], self.index)
            return [m for m in ("Stop", "North", "South", "East", "West", "Up") if m not in ms][0]
        if kind == "lazy":
            time.sleep(0.7)
        return self.plan.moves[k][1]


class Watcher(Player):
    """A player with all the optional hooks"""

    def registerInitialState(self, state):
        self.log.calls.append(("register", self.index))
        if self.noisy:
            print(f"voice of {self.index} at start")
        self.seen(state, 0, "start hook")
        if self.fault and self.fault[1] == "start":
            raise Failure("cannot start")
        if self.fault and self.fault[1] == "slow start":
            time.sleep(1.8)

    def observationFunction(self, state):
        k = len([c for c in self.log.calls if c[0] == "action"])
        self.log.calls.append(("observe", self.index))
        r = self.plan.states[min(k, len(self.plan.states) - 1)]
        self.log.guard(lambda: compare(state, r, f"state observed at move {k}", full=False))
        if self.fault and self.fault[:2] == (k, "observe"):
            raise Failure("blind")
        if self.fault and self.fault[:2] == (k, "slow observe"):
            time.sleep(1.8)
        return "seen", state

    def final(self, state):
        self.log.calls.append(("final", self.index))
        if self.noisy:
            print(f"voice of {self.index} at the end")
        self.log.guard(lambda: compare(state, self.plan.states[-1], "state shown at the end", full=False))
        if self.fault and self.fault[1] == "final":
            raise Failure("sore loser")


class Screen:
    def __init__(self):
        self.calls = []

    def initialize(self, data, isBlue=False):
        self.calls.append(("initialize", str(data)))

    def update(self, data):
        self.calls.append(("update", str(data)))

    def finish(self):
        self.calls.append(("finish", ""))


FAULTS = ["", "", "", "raise", "raise", "illegal", "none", "unknown", "start", "observe", "final", "null"]
modes = st.lists(st.sampled_from(ref_pac.MODES), min_size=1, max_size=4).map(tuple)
games = st.tuples(st.one_of(boards(max_w=5, max_h=4, max_ghosts=3), rooms(2)), st.integers(0, 10 ** 6), modes,
                  st.integers(1, 60), st.sampled_from(FAULTS), st.integers(0, 30), st.booleans(), st.booleans(),
                  st.integers(0, 7), st.integers(0, 3))


def play(rows, seed, mds, limit, kind, at, catch, mute, hooks, first, timeout=30):
    """Runs one game; returns everything needed to judge it"""
    b = ref_pac.Board(rows)
    n = 1 + b.ghosts
    first = first % n if mute else 0
    plan = Plan(rows, seed, mds, limit, first=first)
    log = Log()
    fault, who, full = None, None, len(plan.moves)
    if kind == "lazy":
        fault, who = (0, "lazy"), plan.moves[0][0] if plan.moves else first
    elif kind in ("start", "slow start", "final", "null"):
        who = at % n
        fault = (None, kind)
    elif kind:
        k = at % (full + 1)
        if k == full and plan.ended:
            k = max(0, full - 1)
        who = plan.moves[k][0] if k < full else plan.next
        fault = (k, kind)
    needs_hooks = kind in ("start", "observe", "final", "slow start", "slow observe")
    agents = []
    for i in range(n):
        cls = Watcher if hooks >> i & 1 or (needs_hooks and i == who) else Player
        agents.append(cls(i, plan, log, fault if i == who else None, noisy=bool(seed % 2)))
    if kind == "null":
        agents[who] = None
    screen = Screen()
    rules = pacman.ClassicGameRules(timeout)
    lay = layout.Layout(list(rows))
    if mute or first:
        g = game.Game(agents, screen, rules, startingIndex=first, muteAgents=mute, catchExceptions=catch)
        g.state = new_state(rows)
        rules.quiet = False
        rules.initialState = g.state.deepCopy()
    else:
        g = rules.newGame(lay, agents[0], agents[1:], screen, False, catch)
    if kind == "lazy":
        for a in agents:
            if a is not None and a.index == who:
                a.fault = Always()
    return plan, log, fault, who, agents, screen, g


class Always(tuple):
    """A fault that happens at every move of one player"""

    def __new__(cls):
        return super().__new__(cls, (AnyMove(), "lazy"))


class AnyMove:
    def __eq__(self, other):
        return True

    def __hash__(self):
        return 0


def check_game(case, ctx):
    rows, seed, mds, limit, kind, at, catch, mute, hooks, first = case
    run_and_judge(case, ctx, 30)


def run_and_judge(case, ctx, timeout):
    rows, seed, mds, limit, kind, at, catch, mute, hooks, first = case
    if kind in ("final", "start", "observe") and not catch and mute:
        catch = True  # an exception that leaves the loop also leaves the output redirected; not part of the property
    plan, log, fault, who, agents, screen, g = play(rows, seed, mds, limit, kind, at, catch, mute, hooks, first, timeout)
    n, full = len(agents), len(plan.moves)
    # what should happen
    crash_at = None  # number of accepted moves before the crash
    if kind in ("start", "slow start", "null"):
        crash_at = 0
    elif kind and kind not in ("final", "lazy"):
        crash_at = fault[0]
    elif not plan.ended:
        crash_at = full  # the plan is over: the player then makes an illegal move
    handler = signal.getsignal(signal.SIGALRM)
    mine = (lambda *a: None) if seed % 3 == 0 else handler
    raised = None
    old_out, old_err = sys.stdout, sys.stderr
    signal.signal(signal.SIGALRM, mine)
    try:
        with silent() as (out, err):
            inner_out, inner_err = sys.stdout, sys.stderr
            try:
                g.run()
            except Exception as e:
                raised = e
            after = (sys.stdout, sys.stderr)
            sys.stdout, sys.stderr = inner_out, inner_err
        timer = signal.getitimer(signal.ITIMER_REAL)
        now = signal.getsignal(signal.SIGALRM)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, handler)
        sys.stdout, sys.stderr = old_out, old_err
        forget()
    expect(not log.problems, "; ".join(log.problems[:3]))
    expect_eq(timer[0], 0, "a time limit is still running after the game")
    expect(now is mine, "the handler of the time limit was not put back")
    if raised is None:
        expect(after == (inner_out, inner_err), "output is still redirected after the game")
    expected_moves = plan.moves[:crash_at] if crash_at is not None else plan.moves
    end = plan.states[len(expected_moves)]
    null_or_caught = catch or kind == "null"
    if kind == "lazy":
        # which move exceeds the total depends on the clock: only consistency is judged
        k = len([c for c in screen.calls if c[0] == "update"])
        expect(g.agentCrashed and g.agentTimeout and g.gameOver, "a player over its total time should lose the game")
        compare(g.state, plan.states[k], "state after a player ran out of time", full=False)
        expect_eq([tuple(m) for m in g.moveHistory][:k], plan.moves[:k], "recorded moves")
        ctx.nontrivial = True
        return
    if crash_at is None and kind != "final":
        expect(raised is None, f"the game should end normally, raised {raised!r}")
        expect(not g.agentCrashed, "no player crashed")
        expect(not g.agentTimeout, "no player ran out of time")
    elif kind == "final" and crash_at is None:
        if catch:
            expect(raised is None and g.agentCrashed, "player failing at the end", raised)
        else:
            expect(isinstance(raised, Failure), "the failure of the player at the end should be passed on", raised)
    elif null_or_caught:
        expect(raised is None, f"the failure should be handled, raised {raised!r}")
        expect(g.agentCrashed, "the player should be reported as crashed")
        expect_eq(bool(g.agentTimeout), kind.startswith("slow"), "reported as too slow")
    else:
        expect(raised is not None, "without exception handling the failure should be passed on")
        if kind in ("raise", "start", "observe"):
            expect(isinstance(raised, Failure), "the failure of the player should be passed on unchanged", raised)
    if raised is None:
        expect(g.gameOver, "the game should be over")
    compare(g.state, end, "state after the game", full=False)
    hist = [tuple(m) for m in g.moveHistory]
    expect_eq(hist[:len(expected_moves)], expected_moves, "recorded moves")
    extra = hist[len(expected_moves):]
    illegal = crash_at is not None and (not kind or kind in ("illegal", "none", "unknown", "final"))
    expect(len(extra) <= (1 if illegal else 0), "recorded moves that were not made", extra)
    # replay
    s = new_state(rows)
    for i, m in hist[:len(expected_moves)]:
        s = s.generateSuccessor(i, m)
    compare(s, end, "replayed game", full=False)
    expect(s == g.state, "the replayed game should reach an equal state")
    # turns and hooks
    calls = log.calls
    acts = [i for w, i in calls if w == "action"]
    asked = [i for i, _ in expected_moves]
    if crash_at is not None and kind not in ("start", "slow start", "null", "observe", "slow observe"):
        asked = asked + [plan.moves[crash_at][0] if crash_at < full else plan.next]
    expect_eq(acts, asked, "players asked, in order")
    regs = [i for w, i in calls if w == "register"]
    want = [i for i, a in enumerate(agents) if isinstance(a, Watcher)]
    if kind in ("start", "slow start", "null"):
        want = [i for i in want if i < who or (i == who and kind != "null")]
    expect_eq(regs, want, "players told about the start")
    finals = [i for w, i in calls if w == "final"]
    if crash_at is None and kind != "final":
        expect_eq(finals, [i for i, a in enumerate(agents) if isinstance(a, Watcher)], "players told about the end")
    elif crash_at is not None:
        expect_eq(finals, [], "players told about the end of a crashed game")
    # the display follows
    shown = [c for c in screen.calls if c[0] != "finish"]
    expect_eq(shown, [("initialize", ref_pac.text(plan.states[0]))] +
              [("update", ref_pac.text(x)) for x in plan.states[1:len(expected_moves) + 1]], "display of the game")
    if crash_at is None and kind != "final":
        expect_eq(screen.calls[-1][0], "finish", "last call of the display")
    expect(sum(c[0] == "finish" for c in screen.calls) <= 1, "display finished twice")
    text = out.getvalue()
    if crash_at is None:
        msg = f"{'Pacman emerges victorious!' if end.win else 'Pacman died!'} Score: {end.score}"
        expect_eq(text.count("Score: "), 1, f"result lines in {text!r}")
        expect(msg in text, f"result line {msg!r}", text)
    else:
        expect("victorious" not in text and "Pacman died" not in text, "no result of a crashed game", text)
    if seed % 2:
        said = [f"voice of {i} at {k}" for k, i in enumerate(acts)]
        for k, line in enumerate(said):
            low = line.replace("voice", "whisper")
            if mute:
                expect(low not in err.getvalue(), "error output of a muted player", low)
                expect(low in g.agentOutput[acts[k]].getvalue().splitlines(), "kept error output of a muted player", low)
                expect(line not in text, "output of a muted player", text[-300:])
                expect(line in g.agentOutput[acts[k]].getvalue().splitlines(), "kept output of a muted player", line)
                for i, o in enumerate(g.agentOutput):
                    expect(i == acts[k] or line not in o.getvalue() and low not in o.getvalue(),
                           "output of one player kept as that of another", line)
            else:
                expect(line in text.splitlines(), "output of a player", line)
                expect(low in err.getvalue().splitlines(), "error output of a player", low)
    ctx.nontrivial = len(expected_moves) >= 3 and (end.win or end.lose or bool(kind))
    ctx.tag(kind or ("natural end" if plan.ended else "no move left"), "caught" if catch else "passed on",
            "muted" if mute else "audible")


# ---- thinking time (pretended) --------------------------------------------------------------------------------------

LIMIT = 1000


class Thinker(Player):
    def __init__(self, index, plan, log, think):
        super().__init__(index, plan, log)
        self.think = think

    def getAction(self, state):
        k = len([c for c in self.log.calls if c[0] == "action"])
        Clock.more += self.think[k % len(self.think)][1]
        return super().getAction(state)


class Ponderer(Thinker):
    def registerInitialState(self, state):
        Clock.more += self.think[-1 - self.index % len(self.think)][1] // 2

    def observationFunction(self, state):
        k = len([c for c in self.log.calls if c[0] == "action"])
        Clock.more += self.think[k % len(self.think)][0]
        return state


def out_of_time(moves, nxt, ended, think, total, hooks):
    """Number of the move at which a player is out of time, or None; None, too, if it is too close to tell"""
    for k in range(len(moves) + (0 if ended else 1)):
        i = moves[k][0] if k < len(moves) else nxt
        t = think[k % len(think)]
        took = t[1] + (t[0] if hooks >> i & 1 else 0)
        total[i] += took
        if min(abs(took - LIMIT), abs(total[i] - LIMIT)) < 30:
            return "close"
        if took > LIMIT or total[i] > LIMIT:
            return k
    return None


durations = st.lists(st.tuples(st.sampled_from([0, 0, 40, 300, 800]),
                               st.sampled_from([0, 0, 1, 40, 100, 100, 250, 400, 900, 1200])), min_size=1,
                     max_size=9).map(tuple)
clocks = st.tuples(st.one_of(boards(max_w=5, max_h=4, max_ghosts=3), rooms(2)), st.integers(0, 10 ** 6), modes,
                   st.integers(1, 40), durations, st.booleans(), st.booleans(), st.integers(0, 15), st.integers(0, 3))


def check_clock(case, ctx):
    rows, seed, mds, limit, think, catch, mute, hooks, first = case
    n = 1 + ref_pac.Board(rows).ghosts
    first = first % n if mute else 0
    plan = Plan(rows, seed, mds, limit, first=first)
    log = Log()
    agents = [(Ponderer if hooks >> i & 1 else Thinker)(i, plan, log, think) for i in range(n)]
    total = [think[-1 - i % len(think)][1] // 2 if hooks >> i & 1 else 0 for i in range(n)]
    late = out_of_time(plan.moves, plan.next, plan.ended, think, total, hooks) if catch else None
    if late == "close":
        return
    screen = Screen()
    rules = pacman.ClassicGameRules(LIMIT)
    if mute:
        g = game.Game(agents, screen, rules, startingIndex=first, muteAgents=mute, catchExceptions=catch)
        g.state = new_state(rows)
        rules.quiet = False
        rules.initialState = g.state.deepCopy()
    else:
        g = rules.newGame(layout.Layout(list(rows)), agents[0], agents[1:], screen, False, catch)
    raised = None
    old = sys.stdout, sys.stderr
    try:
        with silent() as (out, err):
            inner = sys.stdout, sys.stderr
            try:
                g.run()
            except Exception as e:
                raised = e
            after = sys.stdout, sys.stderr
            sys.stdout, sys.stderr = inner
    finally:
        Clock.more = 0.0
        signal.alarm(0)
        sys.stdout, sys.stderr = old
        forget()
    expect(not log.problems, "; ".join(log.problems[:3]))
    k = len(plan.moves) if late is None else late
    what = f"thinking {think}, players with hooks {hooks:b}, moves {plan.moves[:k]}"
    if late is not None:
        expect(raised is None and g.agentCrashed and g.agentTimeout and g.gameOver,
               f"the player at move {late} is out of time: {what}", raised, g.agentCrashed, g.agentTimeout)
    else:
        expect(not g.agentTimeout, f"no player is out of time: {what}")
        expect_eq(bool(g.agentCrashed), catch and not plan.ended, f"crashed: {what}")
    compare(g.state, plan.states[k], f"state after the game: {what}", full=False)
    expect_eq([tuple(m) for m in g.moveHistory][:k], plan.moves[:k], f"recorded moves: {what}")
    expect(len(g.moveHistory) - k <= (late is None and not plan.ended), f"recorded moves that were not made: {what}")
    expect_eq(len([c for c in log.calls if c[0] == "action"]), k + (late is not None or not plan.ended),
              f"players asked: {what}")
    expect_eq([c[0] for c in screen.calls if c[0] != "finish"], ["initialize"] + ["update"] * k, f"display: {what}")
    expect(raised is not None or after == inner, "output is still redirected after the game")
    expect_eq("victorious" in out.getvalue() or "Pacman died" in out.getvalue(), late is None and plan.ended,
              f"announced result: {what}")
    ctx.nontrivial = late is not None and late > 1
    ctx.tag("out of time" if late is not None else "in time" if catch else "no limit")


# ---- series of games ------------------------------------------------------------------------------------------------

series = st.tuples(st.one_of(boards(max_w=4, max_h=3, max_ghosts=2), rooms(2)),
                   st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=4).map(tuple), modes, st.integers(5, 80),
                   st.integers(0, 2), st.booleans(), st.integers(0, 3), st.sampled_from((None, None, 0, 1)),
                   st.one_of(st.just(()), durations))


class SeriesPlayer:
    """Plays one plan after the other; a new game starts when Pacman is told about it"""

    def __init__(self, index, plans, shared, sore=False, think=()):
        self.index, self.plans, self.shared, self.sore, self.think = index, plans, shared, sore, think

    def registerInitialState(self, state):
        if self.index == 0:
            self.shared["game"] += 1
            self.shared["move"] = 0

    def getAction(self, state):
        k = self.shared["move"]
        p = self.plans[self.shared["game"]]
        self.shared["move"] += 1
        if self.think:
            Clock.more += self.think[(k + self.shared["game"]) % len(self.think)][1]
        if k >= len(p.script):
            raise Failure("given up")
        return p.script[k][1]

    def final(self, state):
        if self.sore:
            raise Failure("cannot take the result")  # the result stands all the same


def check_series(case, ctx):
    rows, seeds, mds, limit, training, record, ghosts, sore, think = case
    b = ref_pac.Board(rows)
    have = min(ghosts, b.ghosts) if ghosts else b.ghosts
    total = len(seeds)
    training = min(training, total)
    plans = [Plan(rows, s, mds, limit, have) for s in seeds]
    shared = {"game": -1, "move": 0}
    pac = SeriesPlayer(0, plans, shared, sore == 0, think)
    others = [SeriesPlayer(i + 1, plans, shared, sore == i + 1, think) for i in range(have if ghosts else b.ghosts + 1)]
    screen = Screen()
    catch = sore is not None or not all(p.ended for p in plans) or bool(think)
    for k, p in enumerate(plans):
        p.late, p.script = None, p.moves
        if think:
            turn = k % len(think)
            p.late = out_of_time(p.moves, p.next, True, think[turn:] + think[:turn], [0] * 9, 0)
            if p.late == "close":
                return
        if p.late is not None:  # the game ends there
            p.moves, p.states, p.ended = p.moves[:p.late], p.states[:p.late + 1], False
    home = os.getcwd()
    d = tempfile.mkdtemp(prefix="series", dir=home)
    os.chdir(d)
    lay = layout.Layout(list(rows))
    NullGraphics.made.clear()
    try:
        with silent() as (out, err):
            gs = pacman.runGames(lay, pac, others, screen, total, record, training, catch, LIMIT)
        files = {f: pickle.load(open(f, "rb")) for f in os.listdir(d)}
    finally:
        Clock.more = 0.0
        os.chdir(home)
        shutil.rmtree(d)
        forget()
    text = out.getvalue()
    counted = plans[training:]
    expect_eq(shared["game"], total - 1, "number of games played")
    expect_eq(len(gs), len(counted), "number of games returned")
    for g, p in zip(gs, counted):
        compare(g.state, p.states[-1], "final state of a game of the series", full=False)
        expect_eq([tuple(m) for m in g.moveHistory], p.moves, "moves of a game of the series")
        expect_eq(bool(g.agentTimeout), p.late is not None, f"game of the series reported as out of time, thinking {think}")
        if sore is None:
            expect_eq(bool(g.agentCrashed), not p.ended, "game of the series reported as crashed")
    if counted:
        scores = [float(p.states[-1].score) for p in counted]
        wins = [p.states[-1].win for p in counted]

        def line(label):
            found = re.findall(rf"^{label}:\s*(.*)$", text, re.M)
            expect_eq(len(found), 1, f"lines {label!r} in the report {text!r}")
            return found[0].strip()
        expect_close(float(line("Average Score")), sum(scores) / len(scores), "average score")
        expect_eq([float(x) for x in line("Scores").split(",")], scores, "reported scores")
        expect_eq(line("Win Rate"), "%d/%d (%.2f)" % (sum(wins), len(wins), sum(wins) / len(wins)), "win rate")
        expect_eq([x.strip() for x in line("Record").split(",")], ["Win" if w else "Loss" for w in wins], "record")
    else:
        expect("Average Score" not in text, "report without counted games", text)
    expect_eq(len(files), total if record else 0, "number of recorded games")
    if record:
        got = []
        for f, comp in files.items():
            expect(f.startswith("recorded-game-"), "name of a recorded game", f)
            s = pacman.GameState()
            s.initialize(comp["layout"], len(others))
            for i, m in comp["actions"]:
                s = s.generateSuccessor(i, m)
            k = int(f[len("recorded-game-")]) - 1
            compare(s, plans[k].states[-1], f"replay of recorded game {k + 1}", full=False)
            got.append(k)
        expect_eq(sorted(got), list(range(total)), "recorded games")
        forget()
    ends = [c for c in screen.calls if c[0] == "initialize"]
    expect_eq(len(ends), len(counted), "games shown on the display")
    expect_eq(len(NullGraphics.made), training, "training games, not shown")
    expect_eq(text.count("Pacman emerges victorious!") + text.count("Pacman died!"), sum(p.ended for p in counted),
              "announced results")
    ctx.nontrivial = total > 1 and any(p.ended for p in plans)
    ctx.tag("recorded" if record else "not recorded", f"training={training}", "mixed results" if len(
        {p.states[-1].win for p in counted}) > 1 else "same results")


# ---- time limit -----------------------------------------------------------------------------------------------------

def check_limit(case, ctx):
    kinds, own = case
    before = signal.getsignal(signal.SIGALRM)
    mine = (lambda *a: None) if own else before
    signal.signal(signal.SIGALRM, mine)
    try:
        for kind, v in kinds:
            def fn(*a, **k):
                left = signal.getitimer(signal.ITIMER_REAL)[0]
                if not 0 < left <= 20:
                    raise Violation(f"no time limit is running inside the timed function ({left})")
                if kind == "nested":
                    raise util.TimeoutFunctionException()
                if kind == "raise":
                    raise Failure(v)
                if kind == "exit":
                    raise SystemExit(v)
                return a, k
            t = util.TimeoutFunction(fn, 20)
            try:
                got = t(v, 2, key=v)
                expect(kind == "ok", f"the failure of the timed function should be passed on ({kind})")
                expect_eq(got, ((v, 2), {"key": v}), "result of the timed function")
            except Failure as e:
                expect(kind == "raise" and e.args == (v,), "failure of the timed function", e)
            except SystemExit:
                expect(kind == "exit", "exit of the timed function")
            except util.TimeoutFunctionException:
                expect(kind == "nested", "time limit reported although there was time left")
            expect_eq(signal.getitimer(signal.ITIMER_REAL)[0], 0.0, f"time limit still running after {kind!r}")
            expect(signal.getsignal(signal.SIGALRM) is mine, f"handler not put back after {kind!r}")
            ctx.tag(kind)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, before)
    ctx.nontrivial = False


def check_slow(case, ctx):
    for attempt in range(3):  # a stalled machine is not a violation
        try:
            return slow_once(case, ctx)
        except Violation:
            if attempt == 2:
                raise


def slow_once(case, ctx):
    if case[0] == "function":
        t0 = time.time()
        before = signal.getsignal(signal.SIGALRM)
        try:
            util.TimeoutFunction(lambda: time.sleep(2.5), 1)()
        except util.TimeoutFunctionException:
            expect(time.time() - t0 >= 0.9, "time limit fired too early")
        else:
            raise Violation("a function over its time limit should be stopped")
        expect_eq(signal.getitimer(signal.ITIMER_REAL)[0], 0.0, "time limit still running")
        expect(signal.getsignal(signal.SIGALRM) is before, "handler not put back")
        return
    run_and_judge(case[1], ctx, 1)


BOARD = ("%%%%%%", "%P.. %", "%.%%.%", "%. .G%", "%%%%%%")
ROOM = ("%%%%%%%%", "%P  %G %", "%. .%  %", "%%%%%%%%")
SLOW = [
    ("function",),
    ("game", (BOARD, 7, ("food",), 9, "slow", 3, True, False, 3, 0)),
    ("game", (BOARD, 8, ("food",), 9, "slow observe", 2, True, False, 0, 0)),
    ("game", (BOARD, 9, ("food",), 9, "slow start", 1, True, False, 0, 0)),
    ("game", (ROOM, 10, ("pace",), 12, "lazy", 0, True, False, 1, 0)),
    ("game", (ROOM, 11, ("pace",), 12, "slow", 4, True, True, 1, 1)),
    ("game", (BOARD, 13, ("any",), 9, "slow start", 0, True, True, 3, 0)),
    ("game", (ROOM, 15, ("any",), 9, "slow observe", 1, True, True, 3, 0)),
]
kinds = st.lists(st.tuples(st.sampled_from(["ok", "ok", "raise", "exit", "nested"]), st.integers(0, 9)), min_size=1,
                 max_size=5).map(tuple)
SUBS = [
    Sub("game", games, check_game, 500, 12000),
    Sub("clock", clocks, check_clock, 250, 6000),
    Sub("series", series, check_series, 120, 2500),
    Sub("limit", st.tuples(kinds, st.booleans()), check_limit, 60, 600),
] + [Sub(f"slow{k}", st.just(c), check_slow, 1, 1, shards=[k]) for k, c in enumerate(SLOW)]
