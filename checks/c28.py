"""C28: a command line starts exactly the games it asks for, or is refused (generated commands, agents, boards)"""
import os
import random
import shutil
import sys
import tempfile
import types

from hypothesis import strategies as st

from harness import core, fake_tk, ref_pac
from harness.core import Sub, Violation, expect, expect_eq

fake_tk.install()
if core.DEMO not in sys.path:
    sys.path.append(core.DEMO)
import graphicsUtils as gu  # noqa: E402
import graphicsDisplay  # noqa: E402
from checks.c22 import same_layout  # noqa: E402
from harness import pac  # noqa: E402
from harness.pac import NullGraphics, boards, forget, ghostAgents, keyboardAgents, new_state, pacman, silent  # noqa: E402
import textDisplay  # noqa: E402

desk = fake_tk.desk
ID = "C28"
RULE = "a command of at least three options that is accepted, or one that is refused"

AGENT = '''from game import Agent, Directions
class {name}(Agent):
    def __init__(self, index=0, **options):
        self.index, self.options, self.asked = index, options, 0
    def getAction(self, state):
        self.asked += 1
        legal = [m for m in state.getLegalActions(self.index) if m != Directions.STOP] or [Directions.STOP]
        return legal[self.asked % len(legal)]
'''
LONG = {"n": "numGames", "l": "layout", "p": "pacman", "t": "textGraphics", "q": "quietTextGraphics", "g": "ghosts",
        "k": "numghosts", "z": "zoom", "f": "fixRandomSeed", "r": "recordActions", "a": "agentArgs", "x": "numTraining",
        "F": "frameTime", "c": "catchExceptions", "T": "timeout"}
FLAGS = "tqfrc"
PACMEN = ["KeyboardAgent", "KeyboardAgent2", "WalkerAgent", "Runner", "Nobody"]
GHOSTS = ["RandomGhost", "DirectionalGhost", "Chaser", "Nobody"]
LAYOUTS = ["one", "two", "one.lay", "plain", "missing", "mediumClassic"]
names = st.sampled_from(["a", "bb", "depth", "fn", "numTrain", "numTraining", "x1", "indexes"])
values = st.sampled_from(["1", "0", "", "abc", "3.5", "-2", "True", "a b", "x:y"] * 3 + ["p=q", "=", "u=v=w"])
args = st.lists(st.tuples(names, st.one_of(st.none(), values)), min_size=1, max_size=4).map(tuple)
option = st.one_of(
    st.tuples(st.just("n"), st.integers(0, 5)), st.tuples(st.just("l"), st.sampled_from((0, 1, 2, 3, 0, 1, 2, 3, 0, 1, 4, 5))),
    st.tuples(st.just("p"), st.sampled_from((0, 1, 2, 3, 2, 3, 2, 3, 2, 3, 2, 4))),
    st.tuples(st.just("g"), st.sampled_from((0, 1, 2, 0, 1, 2, 0, 1, 2, 3))),
    st.tuples(st.just("k"), st.integers(0, 6)), st.tuples(st.just("z"), st.sampled_from((0.5, 1.0, 2.0, 1.5))),
    st.tuples(st.just("a"), args), st.tuples(st.just("x"), st.integers(0, 3)),
    st.tuples(st.just("F"), st.sampled_from((0.0, 0.1, 0.2, -1.0))), st.tuples(st.just("T"), st.integers(1, 99)),
    st.tuples(st.sampled_from("tqfrc"), st.none()), st.tuples(st.sampled_from("tqfrc"), st.none()))
BAD = ("extra", "--unknown", "-n=x", "-k", "two words", "-Z", "--numGames=many", "--zoom=big")
commands = st.tuples(st.tuples(boards(max_w=4, max_h=3), boards(max_w=5, max_h=3), boards(max_w=3, max_h=2)),
                     st.lists(st.tuples(option, st.integers(0, 3)), max_size=9).map(tuple),
                     st.sampled_from((None,) * 30 + tuple(range(len(BAD)))), st.integers(0, 10 ** 6))


def spell(key, value, style):
    if key in FLAGS:
        return ["-" + key] if style % 2 and key != "F" else ["--" + LONG[key]]
    v = str(value)
    if key in "FT" or style % 2 == 0:
        return ["--" + LONG[key], v] if style < 2 else [f"--{LONG[key]}={v}"]
    return ["-" + key, v] if style < 2 or v == "" else [f"-{key}{v}"]


class Scene:
    """A folder with boards and players of its own, in which the command is given"""

    def __init__(self, texts):
        self.home = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="command", dir=self.home)
        self.deep = os.path.join(self.dir, "work")
        os.makedirs(os.path.join(self.deep, "layouts"))
        self.players = os.path.join(self.dir, "players")
        os.makedirs(self.players)
        self.texts = dict(zip(("one", "two", "plain"), texts))
        self.write("layouts/one.lay", "\n".join(texts[0]) + "\n")
        self.write("layouts/two.lay", "\n".join(texts[1]))
        self.write("plain.lay", "\n".join(texts[2]) + "\n")
        tag = os.path.basename(self.dir).replace("command", "").replace("-", "_")
        self.modules = []
        for name, place in (("WalkerAgent", "."), ("Runner", self.players), ("Chaser", self.players)):
            mod = f"z{tag}{name.lower()}Agents"
            with open(os.path.join(self.deep, place, mod + ".py"), "w") as f:
                f.write(AGENT.format(name=name))
            self.modules.append(mod)
        self.write("brokenAgents.py", "import no_such_module_at_all\n")  # is passed over
        self.path, self.env = list(sys.path), os.environ.get("PYTHONPATH")

    def write(self, name, text):
        with open(os.path.join(self.deep, name), "w") as f:
            f.write(text)

    def __enter__(self):
        os.chdir(self.deep)
        os.environ["PYTHONPATH"] = os.pathsep.join([core.DEMO, self.players, os.path.join(self.dir, "nowhere")])
        sys.path += [self.deep, self.players]
        desk.reset()
        gu._root_window = None
        textDisplay.SLEEP_TIME = None
        return self

    def __exit__(self, *exc):
        os.chdir(self.home)
        sys.path[:] = self.path
        if self.env is None:
            os.environ.pop("PYTHONPATH", None)
        else:
            os.environ["PYTHONPATH"] = self.env
        for m in self.modules + ["brokenAgents"]:
            sys.modules.pop(m, None)
        sys.path_importer_cache.clear()
        shutil.rmtree(self.dir)
        desk.reset()
        gu._root_window = None
        forget()


def understand(opts):
    """What the command means, or the reason to refuse it"""
    d = dict(n=1, l="mediumClassic", p="KeyboardAgent", g="RandomGhost", k=4, z=1.0, a=None, x=0, F=.1, T=30, t=False,
             q=False, f=False, r=False, c=False)
    for key, v in opts:
        d[key] = True if key in FLAGS else v
    if d["l"] in ("missing", "mediumClassic"):
        return d, "no such board"
    for who in (d["p"], d["g"]):
        if who == "Nobody":
            return d, "no such player"
        if who.startswith("Keyboard") and (d["t"] or d["q"]):
            return d, "keyboard without a window"
    agent = {}
    for name, v in d["a"] or ():
        agent[name] = 1 if v is None else v
    if d["x"] > 0:
        agent.setdefault("numTraining", d["x"])
    d["agent"] = agent
    if agent and d["p"].startswith("Keyboard"):
        return d, "the keyboard player takes no options"
    if "numTrain" in agent:
        try:
            int(agent["numTrain"])
        except ValueError:
            return d, "numTrain is not a number"
    return d, None


def check_command(case, ctx):
    texts, raw, bad, seed = case
    opts, argv = [], []
    for (key, v), style in raw:
        if key == "l":
            v = LAYOUTS[v]
        elif key == "p":
            v = PACMEN[v]
        elif key == "g":
            v = GHOSTS[v]
        opts.append((key, v))
        text = ",".join(n if x is None else f"{n}={x}" for n, x in v) if key == "a" else v
        argv += spell(key, text, style)
    if not any(k == "l" for k, _ in opts) and seed % 8:  # mostly a board that exists
        opts.append(("l", "one"))
        argv += spell("l", "one", seed % 4)
    for key, v in ((), (("p", "Runner"),), (("p", "WalkerAgent"), ("q", None)), (("p", "Runner"), ("t", None)))[seed // 8 % 4]:
        opts.append((key, v))
        argv += spell(key, v, seed % 4)
    if bad is not None:
        extra = BAD[bad]
        argv = argv + [extra] if extra in ("-k", "-n=x") else [extra] + argv
    d, reason = understand(opts)
    with Scene(texts) as scene:
        given = list(argv)
        if bad is not None or reason:
            why = BAD[bad] if bad is not None else reason
            with silent():
                try:
                    got = pacman.readCommand(argv)
                except SystemExit as e:
                    expect(e.code == 2, f"refused command {given} ends with code {e.code}")
                    got = None
                except Exception:
                    got = None
            expect(got is None, f"command {given} is not understood ({why}) but accepted", got)
            expect_eq(os.path.realpath(os.getcwd()), os.path.realpath(scene.deep), "folder after a refused command")
            ctx.nontrivial = True
            ctx.tag("refused")
            return
        random.seed(seed)
        before = random.getstate()
        double = any("=" in (v or "") for _, v in d["a"] or ())  # may be refused, but not be misread
        with silent():
            try:
                got = pacman.readCommand(argv)
            except Exception:
                if not double:
                    raise
                ctx.tag("two equals signs refused")
                return
        expect_eq(argv, given, "arguments changed by reading them")
        expect_eq(os.path.realpath(os.getcwd()), os.path.realpath(scene.deep), "folder after reading a command")
        accepted(d, got, scene, given, before, seed)
        ctx.nontrivial = len(opts) >= 3
        ctx.tag("accepted", "quiet" if d["q"] else "text" if d["t"] else "window", f"player {d['p']}",
                *(["options for the player"] if d["agent"] else []), *(["fixed seed"] if d["f"] else []))
        if d["q"] and d["n"] and not d["p"].startswith("Keyboard"):
            play(d, got, scene, given)
            ctx.tag("played")


def accepted(d, got, scene, argv, before, seed):
    what = f"command {argv}"
    keys = {"layout", "pacman", "ghosts", "display", "numGames", "record", "catchExceptions", "timeout"}
    expect_eq(set(got), keys | ({"numTraining"} if d["x"] > 0 else set()), f"{what}: what is started")
    board = ref_pac.Board(scene.texts[d["l"].replace(".lay", "")])
    same_layout(got["layout"], board, what)
    for k, v in (("numGames", d["n"]), ("record", d["r"]), ("catchExceptions", d["c"]), ("timeout", d["T"]),
                 *([("numTraining", d["x"])] if d["x"] > 0 else [])):
        expect_eq((type(got[k]), got[k]), (type(v), v), f"{what}: {k}")
    who = got["pacman"]
    expect_eq(type(who).__name__, d["p"], f"{what}: player")
    if d["p"].startswith("Keyboard"):
        expect(isinstance(who, keyboardAgents.KeyboardAgent), f"{what}: player is not the keyboard player", type(who))
    else:
        expect_eq(who.options, d["agent"], f"{what}: options of the player")
        expect_eq({k: type(v) for k, v in who.options.items()}, {k: type(v) for k, v in d["agent"].items()},
                  f"{what}: kinds of options")
    expect_eq(who.index, 0, f"{what}: index of the player")
    ghosts = got["ghosts"]
    expect_eq([type(g).__name__ for g in ghosts], [d["g"]] * d["k"], f"{what}: ghosts")
    expect_eq([g.index for g in ghosts], list(range(1, d["k"] + 1)), f"{what}: numbers of the ghosts")
    expect_eq(len({id(g) for g in ghosts}), len(ghosts), f"{what}: every ghost is a player of its own")
    if d["f"]:
        first = [random.random() for _ in range(3)]
        random.seed(seed + 1)
        with silent():
            pacman.readCommand(list(argv))
        expect_eq([random.random() for _ in range(3)], first, f"{what}: the same game every time")
    else:
        expect(random.getstate() == before, f"{what}: the random numbers are not fixed, but were set")
    shown = got["display"]
    if d["q"]:
        expect(isinstance(shown, NullGraphics) and not isinstance(shown, textDisplay.PacmanGraphics),
               f"{what}: minimal output", type(shown))
    elif d["t"]:
        expect(isinstance(shown, textDisplay.PacmanGraphics), f"{what}: text output", type(shown))
        expect_eq(textDisplay.SLEEP_TIME, d["F"], f"{what}: time between frames")
    else:
        expect(isinstance(shown, graphicsDisplay.PacmanGraphics), f"{what}: window", type(shown))
        s = new_state(scene.texts[d["l"].replace(".lay", "")])
        with silent():
            shown.initialize(s.data)
        c = desk.canvas
        expect_eq(c.opts["width"], (board.w + 1) * 30.0 * d["z"], f"{what}: width of the window")
        legal = s.getLegalActions(0)
        if d["F"] >= 0 and legal:
            t0 = desk.clock
            with silent():
                shown.update(s.generateSuccessor(0, legal[0]).data)
            want = d["F"] * 1000 if d["F"] > .01 else 0
            expect(abs(desk.clock - t0 - want) <= 5, f"{what}: paused {desk.clock - t0} ms for a frame", want)
        with silent():
            shown.finish()


class Referee:
    """Counts the games"""

    def __init__(self, board):
        self.board, self.starts, self.ends = board, 0, 0


def play(d, got, scene, argv):
    """The games of an accepted command are played as asked for"""
    what = f"games of {argv}"
    board = ref_pac.Board(scene.texts[d["l"].replace(".lay", "")])
    agents = min(d["k"], board.ghosts)
    limit = 60
    # players that give up after a while, so that every game ends
    who = got["pacman"]
    real = who.getAction
    asked = [0]

    def give_up(state):
        asked[0] += 1
        if asked[0] > limit:
            asked[0] = 0
            raise RuntimeError("given up")
        return real(state)
    who.getAction = give_up
    before = set(os.listdir("."))
    NullGraphics.made.clear()
    done = None
    quiet = d["x"]
    with silent() as (out, err):
        try:
            done = pacman.runGames(**got)
        except (RuntimeError, ZeroDivisionError):
            expect(not d["c"], f"{what}: exceptions were to be caught")
        except Exception:
            # a walled in ghost cannot move
            expect(not d["c"], f"{what}: exceptions were to be caught")
    if done is None:
        return
    expect_eq(len(done), max(0, d["n"] - quiet), f"{what}: number of games")
    new = set(os.listdir(".")) - before
    new = {f for f in new if f.startswith("recorded-game")}
    expect_eq(len(new), d["n"] if d["r"] else 0, f"{what}: recorded games")
    for g in done:
        expect_eq(g.state.getNumAgents(), 1 + min(agents, board.ghosts), f"{what}: characters on the board")
        expect(g.moveHistory == [] or g.moveHistory[0][0] == 0, f"{what}: Pacman moves first")
    expect_eq("Average Score" in out.getvalue(), d["n"] > quiet, f"{what}: report")


# ---- the demo -------------------------------------------------------------------------------------------------------

class Enough(Exception):
    """Long enough played"""


demos = st.tuples(st.lists(st.tuples(st.sampled_from("wasdwasdqx"), st.integers(1, 12)), min_size=1, max_size=30).map(tuple),
                  st.integers(0, 10 ** 6))


def check_demo(case, ctx):
    """The demo program: one keyboard game against two random ghosts on its board, by the rules, in a window"""
    keys, seed = case
    import demo
    home = os.getcwd()
    seen, real = [], demo.runGames
    pic = []

    def watched(**args):
        who, queue = args["pacman"], [k for k, n in keys for _ in range(n)]
        act = who.getAction

        def play_on(state):
            if not queue:
                raise Enough
            key = queue.pop(0)
            for kind in ("<KeyPress>", "<KeyRelease>"):
                desk.events.append((kind, types.SimpleNamespace(keysym=key, char=key, keycode=0)))
            while desk.events:
                desk.deliver()
            legal = state.getLegalActions(0)
            got = act(state)
            asked = {"w": "North", "s": "South", "a": "West", "d": "East", "q": "Stop"}.get(key)
            expect(got == asked or asked not in legal, f"demo: key {key}, legal {legal}", got)
            seen.append((0, got))
            pic.append(desk.canvas)
            return got
        who.getAction = play_on
        for g in args["ghosts"]:
            g.getAction = (lambda g, f: lambda state: seen.append((g.index, f(state))) or seen[-1][1])(g, g.getAction)
        seen.append(args)
        return real(**args)
    desk.reset()
    gu._root_window = None
    demo.runGames = watched
    done = False
    try:
        os.chdir(core.DEMO)
        random.seed(seed)
        with silent():
            try:
                demo.main()
                done = True
            except Enough:
                pass
        args, moves = seen[0], seen[1:]
        with open(os.path.join(core.DEMO, "layouts", "mediumClassic.lay")) as f:
            b = ref_pac.Board(tuple(x for x in f.read().split("\n") if x))
        same_layout(args["layout"], b, "board of the demo")
        expect_eq(args["numGames"], 1, "demo: games")
        expect(not args["record"] and not args["catchExceptions"], "demo: records nothing and hides no errors")
        r = ref_pac.start(b, 2)
        for k, (i, m) in enumerate(moves):
            expect_eq(i, k % 3, f"demo: turn of move {k}")
            expect(not (r.win or r.lose), "demo: game goes on after its end")
            expect(m in ref_pac.legal(r, i), f"demo: move {k} of {i}", m)
            r = ref_pac.move(r, i, m)
        expect_eq(done, bool(r.win or r.lose), "demo: ended")
        expect(len(set(map(id, pic))) <= 1 and all(c is not None for c in pic), "demo: one window")
        if done:
            expect(not desk.windows, "demo: window still open at the end")
        ctx.nontrivial = len(moves) >= 9
        ctx.tag("ended" if done else "stopped")
    finally:
        os.chdir(home)
        demo.runGames = real
        desk.reset()
        gu._root_window = None
        gu._canvas = None
        forget()


SUBS = [Sub("command", commands, check_command, 250, 8000), Sub("demo", demos, check_demo, 6, 150)]
_ = Violation, ghostAgents, pac
