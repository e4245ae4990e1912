"""A window without a screen: stands in for tkinter's Tk and Canvas, keeps what is drawn and delivers queued events

It follows the real canvas where the game depends on it: numbering of items, stacking order, colours must be valid,
deleting an item that is gone is harmless, naming one that never existed is refused by tag_lower.
"""
import re
import sys
import types

try:
    import tkinter
except ImportError:  # no Tk here: an empty module with what the game uses
    tkinter = types.ModuleType("tkinter")
    tkinter.TclError = type("TclError", (Exception,), {})
    tkinter._tkinter = types.SimpleNamespace(DONT_WAIT=2)
    tkinter.NW = "nw"
    sys.modules["tkinter"] = tkinter


ALIAS = {"<Key>": "<KeyPress>", "<1>": "<Button-1>", "<2>": "<Button-2>", "<3>": "<Button-3>",
         "<ButtonPress-1>": "<Button-1>", "<ButtonPress-2>": "<Button-2>", "<ButtonPress-3>": "<Button-3>",
         "<Control-ButtonPress-1>": "<Control-Button-1>", "<Control-1>": "<Control-Button-1>"}


class Stuck(Exception):
    """The game waits although nothing will ever happen"""


class Desk:
    """What the user sees and does"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.windows = []  # open ones
        self.opened = 0
        self.events = []  # (sequence, event) still to be delivered
        self.delivered = []
        self.clock = 0  # milliseconds
        self.idle = 0
        self.patience = 400
        self.on_idle = None

    def deliver(self):
        if self.events:
            self.idle = 0
            seq, ev = self.events.pop(0)
            self.delivered.append((seq, ev))
            for w in list(self.windows):
                h = w.handlers.get(seq)
                if h is not None:
                    h(ev)
            return 1
        self.idle += 1
        if self.idle > self.patience and self.on_idle is None:
            raise Stuck("waits for ever")
        return 0

    @property
    def canvas(self):
        return self.windows[-1].canvases[-1] if self.windows and self.windows[-1].canvases else None


desk = Desk()


class Tk:
    def __init__(self, *a, **k):
        self.handlers, self.canvases, self.timers = {}, [], []
        self.protocols, self.names = {}, None
        self.alive = True
        desk.windows.append(self)
        desk.opened += 1

    def protocol(self, name=None, func=None):
        self.protocols[name] = func

    def title(self, text=None):
        self.names = text

    wm_title = title
    wm_protocol = protocol

    def resizable(self, *a, **k):
        pass

    wm_resizable = resizable

    def bind(self, sequence=None, func=None, add=None):
        self.handlers[ALIAS.get(sequence, sequence)] = func

    bind_all = bind

    def destroy(self):
        if not self.alive:
            raise tkinter.TclError("can't invoke \"destroy\" command: application has been destroyed")
        self.alive = False
        if self in desk.windows:
            desk.windows.remove(self)

    def _live(self):
        if not self.alive:
            raise tkinter.TclError("application has been destroyed")

    def update_idletasks(self):
        self._live()

    def update(self):
        self._live()
        while desk.deliver():
            pass

    def after(self, ms, func=None, *args):
        self._live()
        if int(ms) != ms or ms < 0:
            raise tkinter.TclError(f"bad argument {ms}")
        if func is None:
            desk.clock += ms
            return None
        self.timers.append((desk.clock + ms, func, args))
        return f"after#{len(self.timers)}"

    def quit(self):
        self.running = False

    def mainloop(self, n=0):
        self._live()
        self.running = True
        while self.running:
            self._live()
            if desk.deliver():
                continue
            if not self.timers:
                raise Stuck("main loop without anything that ends it")
            self.timers.sort(key=lambda t: t[0])
            when, func, args = self.timers.pop(0)
            desk.clock = max(desk.clock, when)
            func(*args)

    def dooneevent(self, flags=0):
        self._live()
        return desk.deliver()


COLOUR = re.compile(r"^(#[0-9a-fA-F]{6}|)$")


class Canvas:
    def __init__(self, master=None, **opts):
        self.master, self.opts = master, opts
        self.items, self.order, self.count = {}, [], 0
        self.packed = False
        master.canvases.append(self)

    # -- drawing
    def _create(self, kind, args, opts):
        self.master._live()
        flat = []

        def walk(x):
            if isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
            else:
                flat.append(float(x))
        walk(args)
        self._valid(opts)
        self.count += 1
        self.items[self.count] = {"kind": kind, "coords": flat, **opts}
        self.order.append(self.count)
        return self.count

    def _valid(self, opts):
        for k in ("fill", "outline"):
            if k in opts and not COLOUR.match(opts[k]):
                raise tkinter.TclError(f"unknown color name {opts[k]!r}")

    def create_polygon(self, *a, **k):
        return self._create("polygon", a, k)

    def create_arc(self, *a, **k):
        return self._create("arc", a, k)

    def create_line(self, *a, **k):
        return self._create("line", a, k)

    def create_text(self, *a, **k):
        return self._create("text", a, k)

    def create_oval(self, *a, **k):
        return self._create("oval", a, k)

    def create_rectangle(self, *a, **k):
        return self._create("rectangle", a, k)

    def create_image(self, *a, **k):
        return self._create("image", a, k)

    # -- changing
    def coords(self, item, *new):
        self.master._live()
        desk.idle = 0
        if item not in self.items:
            return []
        if not new:
            return list(self.items[item]["coords"])
        if len(new) == 1 and isinstance(new[0], (list, tuple)):
            new = new[0]
        self.items[item]["coords"] = [float(x) for x in new]
        return []

    def move(self, item, dx, dy):
        if item in self.items:
            c = self.items[item]["coords"]
            self.items[item]["coords"] = [v + (dx if i % 2 == 0 else dy) for i, v in enumerate(c)]

    def itemconfigure(self, item, cnf=None, **opts):
        self.master._live()
        opts = {**(cnf or {}), **opts}
        self._valid(opts)
        if item in self.items:
            self.items[item].update(opts)

    itemconfig = itemconfigure

    def itemcget(self, item, option):
        return self.items.get(item, {}).get(option, "")

    def delete(self, *items):
        self.master._live()
        for item in items:
            if item == "all":
                self.items, self.order = {}, []
            elif item in self.items:
                del self.items[item]
                self.order.remove(item)

    def tag_lower(self, item, below=None):
        if below is not None and below not in self.items:
            raise tkinter.TclError(f"tagOrId {below} doesn't match any items")
        if item in self.items:
            self.order.remove(item)
            self.order.insert(0 if below is None else self.order.index(below), item)

    lower = tag_lower

    def tag_raise(self, item, above=None):
        if item in self.items:
            self.order.remove(item)
            self.order.insert(len(self.order) if above is None else self.order.index(above) + 1, item)

    lift = tag_raise

    def find_all(self):
        return tuple(self.order)

    def pack(self, *a, **k):
        self.packed = True

    def update(self):
        self.master._live()

    def update_idletasks(self):
        self.master._live()
        desk.idle = 0

    def postscript(self, **k):
        return "%!PS\n" + repr(self.drawn())

    # -- for the checks
    def drawn(self):
        return [dict(self.items[i], id=i) for i in self.order]


def install():
    tkinter.Tk, tkinter.Canvas = Tk, Canvas
    tkinter.PhotoImage = lambda *a, **k: "image"
