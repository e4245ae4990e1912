"""C27: keyboard and mouse input reaches the players: nothing invented, nothing lost, nothing reported twice"""
import random
import sys
import types

from hypothesis import strategies as st

from harness import core, fake_tk, ref_pac
from harness.core import Sub, Violation, expect, expect_eq

fake_tk.install()
if core.DEMO not in sys.path:
    sys.path.append(core.DEMO)
import graphicsUtils as gu  # noqa: E402  the real one, on the fake window
from harness.pac import boards, forget, keyboardAgents, new_state, silent  # noqa: E402

desk = fake_tk.desk
ID = "C27"
RULE = "a history with at least two keys held at once, a released key, a lost focus or two clicks before they are asked for"

KEYS = ["a", "d", "w", "s", "q", "Left", "Right", "Up", "Down", "x", "j", "l", "i", "k", "u",
        "A", "D", "W", "S", "Q", "X", "space", "Return", "Shift_L", "1"]
event = st.one_of(
    st.tuples(st.just("press"), st.integers(0, len(KEYS) - 1)),
    st.tuples(st.just("press"), st.integers(0, 9)),
    st.tuples(st.just("release"), st.integers(0, 9)),
    st.tuples(st.just("release"), st.integers(0, len(KEYS) - 1)),
    st.tuples(st.just("repeat"), st.integers(0, 9)),
    st.tuples(st.sampled_from(("press", "release")), st.sampled_from((0, 1, 2, 3, 4, 15, 16, 17, 18, 19))),
    st.tuples(st.sampled_from(("out", "in", "other")), st.just(0)),
    st.tuples(st.sampled_from(("left", "right", "middle", "ctrl")), st.integers(0, 400)))
SEQ = {"press": "<KeyPress>", "release": "<KeyRelease>", "out": "<FocusOut>", "in": "<FocusIn>", "left": "<Button-1>",
       "right": "<Button-3>", "middle": "<Button-2>", "ctrl": "<Control-Button-1>", "other": "<Configure>"}
actions = st.one_of(st.tuples(st.just("event"), event), st.tuples(st.just("event"), event),
                    st.tuples(st.just("queue"), event), st.tuples(st.just("queue"), event),
                    st.tuples(st.sampled_from(("pressed", "waiting", "drain")), st.just(0)),
                    st.tuples(st.sampled_from(("pressed", "waiting", "click", "wait")), st.just(0)),
                    st.tuples(st.sampled_from(("circle", "move", "recolour", "write", "remove", "pause")),
                              st.integers(1, 90)))
SIZES = st.sampled_from(((300, 200), (200, 300), (640, 480), (150, 150), (90, 700)))


def make(kind, arg):
    if kind in ("press", "release"):
        name = KEYS[arg]
        return SEQ[kind], types.SimpleNamespace(keysym=name, char=name if len(name) == 1 else "", keycode=0)
    return SEQ[kind], types.SimpleNamespace(x=arg, y=(arg * 7) % 300)


class Model:
    def __init__(self):
        self.down, self.fresh = set(), set()
        self.clicks = {}
        self.seen = 0

    def follow(self):
        """Catches up with what the window has delivered"""
        for seq, ev in desk.delivered[self.seen:]:
            if seq == "<KeyPress>":
                self.down.add(ev.keysym)
                self.fresh.add(ev.keysym)
            elif seq == "<KeyRelease>":
                self.down.discard(ev.keysym)
            elif seq in ("<FocusOut>", "<FocusIn>"):
                self.down, self.fresh = set(), set()
            elif seq == "<Button-1>":
                self.clicks["left"] = (ev.x, ev.y)
            elif seq in ("<Button-2>", "<Button-3>"):
                self.clicks["right"] = (ev.x, ev.y)
            elif seq == "<Control-Button-1>":
                self.clicks["ctrl_left"] = (ev.x, ev.y)
        self.seen = len(desk.delivered)


def push(kind, arg):
    """Events of one action of the user, in the order in which the window system reports them"""
    if kind == "repeat":
        return [make("release", arg), make("press", arg)]
    return [make(kind, arg)]


def check_input(case, ctx):
    desk.reset()
    gu._root_window = None
    two, lost, released = False, False, False
    size, case = case
    drawn = []
    gu.begin_graphics(size[0], size[1], gu.formatColor(0, 0, 0), "input")
    try:
        m = Model()
        for kind in ("left", "right", "ctrl"):  # use up what an earlier, failed case may have left
            desk.events.append(make(kind, 1))
            desk.deliver()
        first = [gu.wait_for_click() for _ in range(3)]
        expect_eq(sorted(side for _, side in first), ["ctrl_left", "left", "right"], "three clicks, one per button")
        m.seen = len(desk.delivered)
        for k, (what, arg) in enumerate(case):
            where = f"step {k} ({what})"
            if what == "event":  # happens while the game is drawing
                for e in push(*arg):
                    desk.events.append(e)
                while desk.events:
                    desk.deliver()
                m.follow()
            elif what == "queue":
                desk.events += push(*arg)
            elif what == "drain":
                while desk.events:
                    desk.deliver()
                m.follow()
            elif what == "pressed":
                waiting_release = list(desk.events[:2])
                n = len(desk.events)
                got = list(gu.keys_pressed())
                m.follow()
                expect_eq(sorted(got), sorted(m.down), f"{where}: keys held down")
                if n:
                    expect(len(desk.events) < n, f"{where}: asking for keys does not look at new events")
                if len(waiting_release) == 2 and [s for s, _ in waiting_release] == ["<KeyRelease>", "<KeyPress>"] and \
                        waiting_release[0][1].keysym == waiting_release[1][1].keysym:
                    expect(waiting_release[0][1].keysym in got, f"{where}: a repeated key is not reported as let go")
            elif what == "waiting":
                got = list(gu.keys_waiting())
                m.follow()
                expect_eq(sorted(got), sorted(m.fresh), f"{where}: keys pressed since the last question")
                m.fresh = set()
            elif what == "wait":
                if not any(s == "<KeyPress>" for s, _ in desk.events) and not m.down:
                    desk.events.append(make("press", 9))
                if m.down and not desk.events:
                    pass
                elif not any(s == "<KeyPress>" for s, _ in desk.events):
                    desk.events.append(make("press", 8))
                if any(s == "<KeyPress>" and desk.events[i + 1:i + 2] and desk.events[i + 1][0] != "<KeyPress>"
                       for i, (s, _) in enumerate(desk.events)):
                    desk.events.append(make("press", 7))  # the last one stays down
                got = list(gu.wait_for_keys())
                m.follow()
                expect(got, f"{where}: waiting for a key ends without a key")
                expect(set(got) <= {ev.keysym for s, ev in desk.delivered if s == "<KeyPress>"},
                       f"{where}: waited for keys, got one nobody pressed", got)
            elif what == "click":
                if not m.clicks and not any(s in (SEQ["left"], SEQ["right"], SEQ["middle"], SEQ["ctrl"])
                                            for s, _ in desk.events):
                    desk.events.append(make("left", 17 + k))
                got = gu.wait_for_click()
                m.follow()
                side = next(s for s in ("left", "right", "ctrl_left") if s in m.clicks)
                expect(isinstance(got, tuple) and len(got) == 2 and got[1] in m.clicks and
                       m.clicks[got[1]] == got[0], f"{where}: click reported", got, m.clicks)
                _ = side
                del m.clicks[got[1]]
            elif what == "circle":  # what the game draws must not touch what the user did
                drawn.append(gu.circle((arg, arg + 3), 4, gu.formatColor(1, 0, 0)))
            elif what == "write":
                gu.text((arg, 5), gu.formatColor(1, 1, 1), "SCORE: 1")
            elif what == "pause":
                gu.sleep(0.05 * (arg % 4))
            elif drawn and what == "move":
                gu.move_by(drawn[arg % len(drawn)], arg, -3)
            elif drawn and what == "recolour":
                gu.changeColor(drawn[arg % len(drawn)], gu.formatColor(0, 1, 0))
            elif drawn and what == "remove":
                gu.remove_from_screen(drawn.pop(arg % len(drawn)))
            m.follow()
            two |= len(m.down) > 1 or len(m.clicks) > 1
            lost |= what in ("event", "queue") and arg[0] in ("out", "in")
            released |= what in ("event", "queue") and arg[0] in ("release", "repeat")
            ctx.tag(what)
        ctx.nontrivial = two and (lost or released) or lost and released
    finally:
        desk.events = []
        gu.end_graphics()
        expect(not desk.windows, "window still open")
        expect_eq(list(gu.keys_waiting()), [], "keys left over after the window was closed")
        desk.reset()


# ---- the whole way: from the keyboard to the move -------------------------------------------------------------------

FIRST = {"a": "West", "d": "East", "w": "North", "s": "South", "Left": "West", "Right": "East", "Up": "North",
         "Down": "South"}
SECOND = {"j": "West", "l": "East", "i": "North", "k": "South"}
turns = st.tuples(st.one_of(boards(max_w=5, max_h=4, chars="     ...oo%%%G", max_ghosts=1),
                            boards(max_w=6, max_h=5, chars="       ..o%", max_ghosts=1)), st.booleans(),
                  st.lists(st.lists(event, max_size=4).map(tuple), min_size=1, max_size=20).map(tuple),
                  st.integers(0, 10 ** 6))


def check_player(case, ctx):
    rows, second, batches, seed = case
    b = ref_pac.Board(rows)
    s, r = new_state(rows), ref_pac.start(b)
    desk.reset()
    gu._root_window = None
    gu.begin_graphics(*((300, 200), (200, 400))[seed % 2])
    try:
        m = Model()
        agent = (keyboardAgents.KeyboardAgent2 if second else keyboardAgents.KeyboardAgent)()
        meaning, stop = (SECOND, "u") if second else (FIRST, "q")
        held, last = [], "Stop"
        rnd = random.Random(seed)
        several = 0
        for k, batch in enumerate(batches):
            if r.win or r.lose:
                break
            for e in batch:
                for ev in push(*e):
                    desk.events.append(ev)
            lazy = (seed + k) % 3 == 0  # the events come in while the player is asked
            if not lazy:
                while desk.events:
                    desk.deliver()
            m.follow()
            fresh = set(m.fresh)
            random.seed(rnd.randrange(10 ** 6))
            with silent():
                got = agent.getAction(s)
            m.follow()
            keys = fresh | m.down
            m.fresh -= fresh
            if keys:
                held = keys
            legal = ref_pac.legal(r, 0)
            expect(got in legal, "move of the keyboard player is not legal", got, legal)
            possible = {meaning[x] for x in held if x in meaning} & legal
            where = f"turn {k}, keys {sorted(held)}, legal {sorted(legal)}, last move {last}"
            if stop in held:
                expect_eq(got, "Stop", f"stop key: {where}")
            elif possible:
                expect(got in possible, f"pressed direction: {where}", got)
            elif last in legal:
                expect_eq(got, last, f"keeps going: {where}")
            else:
                expect_eq(got, "Stop", f"stays when blocked: {where}")
            several += len(held) > 1
            last = got
            ctx.tag("stop key" if stop in held else "moved" if possible else "keeps going")
            for j in range(len(r.agents)):
                mv = got if j == 0 else ref_pac.pick(r, j, "any", rnd)
                if mv is not None and not (r.win or r.lose) and mv in ref_pac.legal(r, j):
                    s, r = s.generateSuccessor(j, mv), ref_pac.move(r, j, mv)
        ctx.nontrivial = several > 0
    finally:
        desk.events = []
        gu.end_graphics()
        desk.reset()
        forget()


SUBS = [
    Sub("input", st.tuples(SIZES, st.lists(actions, min_size=1, max_size=40).map(tuple)), check_input, 400, 12000),
    Sub("player", turns, check_player, 150, 4000),
]
_ = Violation
