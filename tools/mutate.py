#!/usr/bin/env python3
"""Mutation sweep: makes one small change after the other in scratch copies, keeps those that pass the repository's
tests and lists the ones that no check notices (to be judged by hand: equal behaviour, outside every property, or a gap).

usage: mutate.py FILE (relative to scripts/) [--jobs N] [--scale S] [--only K,K..] [--out FILE]
"""
import argparse, ast, copy, json, os, queue, shutil, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ALL = {"relnet": [f"C{k:02}" for k in range(1, 20)], "demo": [f"C{k:02}" for k in range(20, 29)]}
FIRST = {
    "relnet/graph_components.py": "C02 C01 C03", "relnet/sample_graph.py": "C01 C04 C05 C06 C07 C03 C02 C19 C11 C09 C13",
    "relnet/sample_set.py": "C08 C07 C09 C02 C11 C13 C18", "relnet/sample_space.py": "C14 C18 C15 C19 C02 C03",
    "relnet/relation_graph.py": "C18 C11 C13 C10 C16 C15 C12", "relnet/conditional_graph.py": "C17 C10 C12 C19",
    "relnet/activation_graph.py": "C17 C19 C02 C03", "relnet/folded_graph.py": "C14 C19 C02 C03",
    "relnet/variables_graph.py": "C02 C14 C17 C19 C03",
    "demo/game.py": "C22 C21 C20 C25 C24", "demo/pacman.py": "C20 C21 C25 C28", "demo/util.py": "C23 C22 C24 C25",
    "demo/layout.py": "C22 C20", "demo/ghostAgents.py": "C24 C20", "demo/keyboardAgents.py": "C24 C27",
    "experiments/comparing_with_bayes_network.py": "C30", "experiments/comparing_with_markov_network.py": "C30",
    "experiments/outcomes_space_power.py": "C30", "playaround/number_of_subgraphs.py": "C29",
    "demo/graphicsDisplay.py": "C26", "demo/graphicsUtils.py": "C26 C27",
}
SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitOr: ast.BitAnd,
       ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}
ATTR = {"union": "intersection", "intersection": "union", "issubset": "issuperset", "isdisjoint": "issubset",
        "update": "intersection_update", "difference": "union", "symmetric_difference": "difference",
        "keys": "values", "add": "discard", "extend": "append", "append": "extend"}
NAME = {"min": "max", "max": "min", "any": "all", "all": "any", "sorted": "list", "abs": "float", "floor": "ceil"}
UNWRAP = {"set", "frozenset", "list", "dict", "sorted", "tuple", "int", "float", "abs", "bool"}


def sites(tree):
    """Yields (description, apply) where apply changes the tree in place"""
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.While, ast.With, ast.Try, ast.Module)):
            for field in ("body", "orelse", "finalbody"):
                block = getattr(node, field, None)
                if not isinstance(block, list):
                    continue
                for i, st in enumerate(block):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                        continue
                    if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Assert, ast.Continue, ast.Break, ast.Raise,
                                       ast.Delete)):
                        if isinstance(node, (ast.ClassDef, ast.Module)):
                            continue
                        yield st, "delete", (lambda b=block, i=i: b.__setitem__(i, ast.Pass()))
        if isinstance(node, ast.Compare) and len(node.ops) >= 1:
            for k, op in enumerate(node.ops):
                if type(op) in SWAP:
                    yield node, "compare", (lambda n=node, k=k, o=op: n.ops.__setitem__(k, SWAP[type(o)]()))
        if isinstance(node, ast.BoolOp):
            new = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            yield node, "and/or", (lambda n=node, o=new: setattr(n, "op", o))
            if len(node.values) >= 2:
                for k in range(len(node.values)):
                    yield node, f"drop operand {k}", (lambda n=node, k=k: n.values.pop(k))
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            if not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)) and \
                    not isinstance(node.left, ast.JoinedStr) and not isinstance(node.right, ast.JoinedStr):
                yield node, "arith", (lambda n=node: setattr(n, "op", BIN[type(n.op)]()))
        if isinstance(node, ast.AugAssign) and type(node.op) in BIN:
            yield node, "arith", (lambda n=node: setattr(n, "op", BIN[type(n.op)]()))
        if isinstance(node, ast.UnaryOp):
            if isinstance(node.op, ast.Not):
                yield node, "not", (lambda n=node: (setattr(n, "op", ast.UAdd()),
                                                    setattr(n, "operand", ast.Call(ast.Name("bool"), [n.operand], []))))
            elif isinstance(node.op, ast.USub):
                yield node, "minus", (lambda n=node: setattr(n, "op", ast.UAdd()))
        if isinstance(node, (ast.If, ast.IfExp)):
            yield node, "if true", (lambda n=node: setattr(n, "test", ast.Constant(True)))
            yield node, "if false", (lambda n=node: setattr(n, "test", ast.Constant(False)))
        if isinstance(node, ast.comprehension) and node.ifs:
            yield node.ifs[0], "filter dropped", (lambda n=node: n.ifs.pop(0))
        if isinstance(node, ast.Constant) and not isinstance(node.value, (str, bytes)) and node.value is not None \
                and node.value is not Ellipsis:
            if isinstance(node.value, bool):
                yield node, "bool", (lambda n=node: setattr(n, "value", not n.value))
            else:
                yield node, "const+1", (lambda n=node: setattr(n, "value", n.value + 1))
                if node.value == 1 or isinstance(node.value, float):
                    yield node, "const-", (lambda n=node: setattr(n, "value", n.value - 1 if n.value == 1 else n.value / 2))
        if isinstance(node, ast.Call):
            if isinstance(node.func, ast.Attribute):
                if node.func.attr in ATTR:
                    yield node, "method", (lambda n=node: setattr(n.func, "attr", ATTR[n.func.attr]))
                if node.func.attr in ("copy", "deepCopy") and not node.args:
                    yield node, "copy dropped", ("replace", node, node.func.value)
                if node.func.attr == "get" and len(node.args) == 2 and isinstance(node.args[1], ast.Constant) and \
                        not isinstance(node.args[1].value, (int, float)):
                    yield node, "get default", (lambda n=node: n.args.pop(1))
            if isinstance(node.func, ast.Name):
                if node.func.id in NAME:
                    yield node, "function", (lambda n=node: setattr(n.func, "id", NAME[n.func.id]))
                if node.func.id in UNWRAP and len(node.args) == 1 and not node.keywords:
                    yield node, "unwrap", ("replace", node, node.args[0])
            if len(node.args) == 2 and not node.keywords and ast.dump(node.args[0]) != ast.dump(node.args[1]):
                yield node, "args swapped", (lambda n=node: n.args.reverse())
            for k, kw in enumerate(node.keywords):
                if kw.arg in ("label", "color", "key", "reverse", "title", "shape", "value"):
                    yield node, "keyword dropped", (lambda n=node, k=k: n.keywords.pop(k))
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            yield node, "slice dropped", ("replace", node, node.value)
        if isinstance(node, ast.Return) and node.value is not None and isinstance(node.value, (ast.Name, ast.Call)):
            yield node, "return none", (lambda n=node: setattr(n, "value", ast.Constant(None)))
        if isinstance(node, ast.Tuple) and isinstance(node.ctx, ast.Load) and len(node.elts) == 2 and \
                ast.dump(node.elts[0]) != ast.dump(node.elts[1]):
            yield node, "pair swapped", (lambda n=node: n.elts.reverse())


def skipped(tree):
    """Nodes inside messages of asserts, annotations and prints"""
    out = set()

    def all_of(n):
        if n is not None:
            out.update(id(m) for m in ast.walk(n))
    for n in ast.walk(tree):
        if isinstance(n, ast.Assert):
            all_of(n.msg)
        elif isinstance(n, ast.Raise):
            if isinstance(n.exc, ast.Call):
                for a in n.exc.args:
                    all_of(a)
        elif isinstance(n, ast.AnnAssign):
            all_of(n.annotation)
        elif isinstance(n, ast.arg):
            all_of(n.annotation)
        elif isinstance(n, ast.FunctionDef):
            all_of(n.returns)
        elif isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and ast.unparse(n.test).startswith("__name__"):
            all_of(n)
    return out


class Replace(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, node):
        if node is self.old:
            return self.new
        return self.generic_visit(node)


def mutants(src):
    base = ast.parse(src)
    skip = skipped(base)
    n = sum(1 for _ in sites(base))
    live = [k for k, (node, _, _) in enumerate(sites(base)) if id(node) not in skip]
    lines = src.split("\n")
    for k in live:
        tree = ast.parse(src)
        node, what, apply = next(s for j, s in enumerate(sites(tree)) if j == k)
        line = getattr(node, "lineno", 0)
        before = ast.unparse(node)[:120] if not isinstance(node, (ast.If,)) else ast.unparse(node.test)[:120]
        if isinstance(apply, tuple):
            tree = Replace(apply[1], apply[2]).visit(tree)
            after = ast.unparse(apply[2])[:120]
        else:
            apply()
            after = ast.unparse(node)[:120] if not isinstance(node, (ast.If,)) else what
        ast.fix_missing_locations(tree)
        try:
            text = ast.unparse(tree)
            compile(text, "m", "exec")
        except Exception:
            continue
        yield {"k": k, "line": line, "what": what, "before": before, "after": after,
               "text": text, "source": lines[line - 1].strip() if line else ""}


RUN = r'''
import importlib, json, os, sys
sys.path.insert(0, %r)
from harness import core
sys.path.insert(0, core.RESEARCH)
core.SHRINK_LIMIT_S = 0
core.CASE_LIMIT_S = 100
scale = float(sys.argv[1])
import random
def one(pid):
    m = importlib.import_module("checks." + pid.lower())
    for sub in m.SUBS:
        if sub.quick:
            sub.quick = max(3, int(sub.quick * scale * getattr(m, "SCALE", core.QUICK_SCALE)))
        sub.shards = None
    m.SCALE = 1
    out = sys.argv[2] + pid
    s = core.Shard(m, 1, 0, out)
    s.run()
    r = s.result
    if r["failure"]:
        print("KILLED", pid, r["failure"]["sub"], r["failure"]["message"][:150].replace("\n", " "), flush=True)
        os._exit(1)
    if r["error"]:
        print("ERROR", pid, r["error"][-300:].replace("\n", " "), flush=True)
        os._exit(1)
    os._exit(0)


for pid in sys.argv[3:]:  # a process of its own for each check
    child = os.fork()
    if not child:
        try:
            one(pid)
        except BaseException as e:
            print("ERROR", pid, repr(e)[:300].replace("\n", " "), flush=True)
        os._exit(1)
    if os.waitpid(child, 0)[1]:
        os._exit(0)
print("SURVIVED", flush=True)
os._exit(0)
'''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--scale", type=float, default=0.2)
    ap.add_argument("--only")
    ap.add_argument("--out")
    ap.add_argument("--every", action="store_true", help="every check of the family, not only the nearest ones")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    rel = "Python/research/scripts/" + a.file
    src = open(os.path.join("/repo", rel)).read()
    todo = list(mutants(src))
    if a.only:
        ks = {int(x) for x in a.only.split(",")}
        todo = [m for m in todo if m["k"] in ks]
    if a.list:
        for m in todo:
            print(m["k"], m["line"], m["what"], "|", m["before"], "=>", m["after"])
        return
    family = a.file.split("/")[0]
    ids = FIRST.get(a.file, "").split()
    if a.every:
        ids += [i for i in ALL[family] if i not in ids]
    W = "/tmp/mutate"
    os.makedirs(W, exist_ok=True)
    tag = a.file.replace("/", "_").replace(".py", "")
    out = open(a.out or f"/tmp/mut_{tag}.log", "w")
    q = queue.Queue()
    for m in todo:
        q.put(m)
    lock = threading.Lock()
    count = {}

    def note(m, verdict, extra=""):
        with lock:
            count[verdict] = count.get(verdict, 0) + 1
            out.write(f"{verdict} #{m['k']} L{m['line']} {m['what']} | {m['before']} => {m['after']} | {m['source'][:90]} {extra}\n")
            out.flush()

    def worker(w):
        root = f"{W}/{tag}_{w}"
        shutil.rmtree(root, ignore_errors=True)
        shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        scratch = root + "_run"
        os.makedirs(scratch, exist_ok=True)
        env = dict(os.environ, VERIF_REPO=root, PYTHONDONTWRITEBYTECODE="1", BROWSER="true", PYTHONPATH="",
                   VERIF_TIER="quick", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        tests = f"{root}/Python/research"
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            with open(os.path.join(root, rel), "w") as f:
                f.write(m["text"])
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--deselect", DESEL, "scripts/test"] if DESEL else
                                   [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "scripts/test"],
                                   cwd=tests, env=env, capture_output=True, text=True, timeout=120)
                tail = r.stdout.strip().split("\n")[-1]
            except subprocess.TimeoutExpired:
                note(m, "TESTS")
                continue
            if "153 passed" not in tail:
                note(m, "TESTS")
                continue
            try:
                r = subprocess.run([PY, "-c", RUN % VERIF, str(a.scale), scratch + "/o", *ids], cwd=scratch, env=env,
                                   capture_output=True, text=True, timeout=1500, stdin=subprocess.DEVNULL)
                last = (r.stdout.strip().split("\n") or [""])[-1]
                if not last.startswith(("KILLED", "SURVIVED", "ERROR")):
                    hits = [x for x in r.stdout.split("\n") if x.startswith(("KILLED", "SURVIVED", "ERROR"))]
                    last = hits[-1] if hits else "ERROR no answer " + r.stderr[-200:].replace("\n", " ")
            except subprocess.TimeoutExpired:
                last = "ERROR timeout"
            note(m, last.split()[0], last[len(last.split()[0]):][:170])
        shutil.rmtree(root, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)

    ts = [threading.Thread(target=worker, args=(w,)) for w in range(a.jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    out.write(f"END {a.file} {count}\n")
    out.close()
    print(a.file, count)


DESEL = ""
if __name__ == "__main__":
    main()
