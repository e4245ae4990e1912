#!/usr/bin/env python3
"""Plants the bugs described in tools/bugs/*.py in scratch copies, confirms them and writes seeded/<id>/.

usage: plant.py [ID-prefix ...] [--jobs N] [--all-checks]   (never touches /repo)
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, threading, queue, importlib.util

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
PRE = {
    "relnet": """from scripts.relnet.graph_components import *
from scripts.relnet.relation_graph import RelationGraphBuilder, RelationGraph
from scripts.relnet.sample_graph import SampleGraphBuilder, SampleGraph
from scripts.relnet.sample_set import SampleSet, SampleSetBuilder


def fs(*edges):
    return frozenset((frozenset(e), r) for e, r in edges)


def refused(f):
    try:
        f()
    except AssertionError:
        return True
    return False

""",
    "demo": """import sys, os, io, random
import util, game, layout, pacman, ghostAgents
from game import Directions, Actions, Grid


def board(*rows):
    return layout.Layout(list(rows))


def start(*rows):
    s = pacman.GameState()
    s.initialize(board(*rows))
    return s

""",
}
PRE["window"] = """import tkinter, types


class Canvas:  # keeps what is drawn
    def __init__(self, root, **o):
        self.items, self.order, self.n, self.opts, self.track = {}, [], 0, o, []
        Canvas.last = self
    def __getattr__(self, name):
        if name.startswith("create_"):
            def make(*a, **k):
                flat = [float(v) for v in (a[0] if isinstance(a[0], (list, tuple)) else a)]
                self.n += 1
                self.items[self.n] = dict(k, kind=name[7:], c=flat)
                self.order.append(self.n)
                return self.n
            return make
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None
    def tag_lower(self, i, below):
        self.order.remove(i)
        self.order.insert(self.order.index(below), i)
    def coords(self, i, *new):
        if not new:
            return list(self.items[i]["c"]) if i in self.items else []
        self.items[i]["c"] = list(new)
        self.track.append((i, list(new)))
    def itemconfigure(self, i, **k):
        if i in self.items:
            self.items[i].update(k)
    def delete(self, i):
        self.items.pop(i, None)
        if i in self.order:
            self.order.remove(i)
    def of(self, kind):
        return [dict(self.items[i], id=i) for i in self.order if self.items[i]["kind"] == kind]


class Tk:
    now, queue, open = 0, [], []
    def __init__(self):
        self.h, self.spins = {}, 0
        Tk.open.append(self)
    def bind(self, s, f):
        self.h[s] = f
    def destroy(self):
        Tk.open.remove(self)
    def after(self, ms, f=None):
        Tk.now += ms
    def dooneevent(self, *a):
        if Tk.queue:
            s, e = Tk.queue.pop(0)
            self.h.get(s, lambda e: None)(e)
    def mainloop(self):
        self.spins += 1
        assert self.spins < 3000, "waits for ever"
        self.dooneevent()
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


tkinter.Tk, tkinter.Canvas = Tk, Canvas


def key(name, up=False):
    return ("<KeyRelease>" if up else "<KeyPress>"), types.SimpleNamespace(keysym=name, char=name, keycode=0)


def click(button, x, y):
    return {1: "<Button-1>", 2: "<Button-2>", 3: "<Button-3>", 0: "<Control-Button-1>"}[button], types.SimpleNamespace(x=x, y=y)


def happen(*events):
    for s, e in events:
        Tk.open[-1].h[s](e)


def discs(r, g=30.0):
    "centres of the discs of radius r"
    out = []
    for i in Canvas.last.of("arc"):
        x0, y0, x1, y1 = i["c"]
        if i.get("style") != "arc" and abs((x1 - x0 - 1) / 2 - r * g) < .2:
            out.append(((x0 + x1 + 1) / 2, (y0 + y1 + 1) / 2))
    return sorted(out)


def bodies():
    return [i for i in Canvas.last.of("polygon") if len(i["c"]) > 8]


""" + PRE["demo"] + """import graphicsUtils, graphicsDisplay


def show(s, *a, **k):
    d = graphicsDisplay.PacmanGraphics(*a, **k)
    d.initialize(s.data)
    return d


"""
SH = """#!/bin/bash
# run with cwd = root of the repository
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD/Python/research
T=$(mktemp -d)
cd "$T" || exit 2
PYTHONPATH="$R:$R/scripts/demo" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=%(hs)s BROWSER=true \\
  timeout 200 /opt/venv/bin/python "$D/demo.py" >"$T/.out" 2>&1
rc=$?
tail -5 "$T/.out"
rm -rf "$T"
exit $rc
"""


def bugs():
    out = []
    for f in sorted(glob.glob(os.path.join(VERIF, "tools/bugs/*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        out += m.BUGS
    assert len({b["id"] for b in out}) == len(out)
    return out


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def trial(b, repo, verif, only_check):
    root = os.path.join(repo, "Python/research/scripts")
    res = {"id": b["id"], "property": b["property"]}
    sh(["git", "checkout", "-q", "--", "."], repo)
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(root, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                res["error"] = f"edit target occurs {s.count(old)} times: {old[:80]!r}"; return res
            open(p, "w", newline="").write(s.replace(old, new))
        patch = subprocess.run(["git", "diff", "--no-color"], cwd=repo, capture_output=True).stdout
        rc, out = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "scripts/test"],
                     os.path.join(repo, "Python/research"),
                     {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "BROWSER": "true"})
        m = re.search(r"(\d+) passed", out)
        res["tests"] = m.group(1) if m else out[-300:]
        if res["tests"] != "153":
            res["failing"] = re.findall(r"FAILED (\S+)", out)[:6]
            return res
        d = os.path.join(W, "demo_" + b["id"]); os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.py"), "w").write(PRE[b.get("pre", "relnet")] + b["demo"].strip("\n") + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(SH % {"hs": b.get("hashseed", 0)})
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        rc1, o1 = sh(["bash", os.path.join(d, "demo.sh")], repo)
        rc0, o0 = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
        res["demo_patched"], res["demo_clean"] = rc1, rc0
        if rc0 != 0 or rc1 == 0:
            res["demo_out"] = (o0 if rc0 else o1)[-800:]
            return res
        sd = os.path.join(VERIF, "seeded", b["id"])
        os.makedirs(sd, exist_ok=True)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(d, f), sd)
        open(os.path.join(sd, "patch.diff"), "wb").write(patch)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(sd, "meta.json"), "w"), indent=1)
        res["caught"] = {}
        for pid in [b["property"]] + (b.get("also") or []):
            rc, out = sh(["python3", "harness/run.py", pid, "--tier", "quick"], verif,
                         {"VERIF_REPO": repo, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
            res["caught"][pid] = rc
            res.setdefault("msg", {})[pid] = (out[:260] if rc else "")
        return res
    finally:
        sh(["git", "checkout", "-q", "--", "."], repo)
        shutil.rmtree(os.path.join(W, "demo_" + b["id"]), ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*"); ap.add_argument("--jobs", type=int, default=4)
    a = ap.parse_args()
    todo = queue.Queue()
    sel = [b for b in bugs() if not a.ids or any(b["id"].startswith(i) for i in a.ids)]
    for b in sel:
        todo.put(b)
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    path = os.path.join(VERIF, "tools/bugs/results.json")
    results = json.load(open(path)) if os.path.exists(path) else {}
    lock = threading.Lock()

    def work(k):
        repo, verif = f"{W}/repo{k}", f"{W}/verif{k}"
        shutil.copytree("/repo", repo, symlinks=True)
        shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns("seeded", "evidence", "replays", ".git"))
        while True:
            try:
                b = todo.get_nowait()
            except queue.Empty:
                return
            try:
                r = trial(b, repo, verif, False)
            except Exception as e:
                r = {"id": b["id"], "property": b["property"], "error": repr(e)}
            with lock:
                ok = r.get("caught", {}).get(b["property"])
                v = "CAUGHT" if ok == 1 else ("MISSED" if ok == 0 else "INVALID")
                if ok == 2: v = "CHECK-ERROR"
                r["verdict"] = v
                results[b["id"]] = r
                print(v, b["id"], {k2: v2 for k2, v2 in r.items() if k2 not in ("id", "verdict", "msg", "property")} if v == "INVALID"
                      else "", (r.get("msg", {}).get(b["property"], "") or "").replace("\n", " ")[:230], flush=True)
                json.dump(results, open(path, "w"), indent=1, sort_keys=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(min(a.jobs, max(1, len(sel))))]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(W, ignore_errors=True)


if __name__ == "__main__":
    main()
