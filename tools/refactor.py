#!/usr/bin/env python3
"""Behaviour preserving rewrites of a scratch copy of /repo; every check has to stay quiet on them.

usage: refactor.py KIND [Cnn ...]     KIND: private delegate shape reorder locals all-in-one
"""
import ast, os, shutil, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Private(ast.NodeTransformer):
    """_name attributes, functions and globals get other names"""

    def __init__(self, tree):
        self.skip = {"_tkinter", "_getframe", "_Windows"}

    def new(self, n):
        if n.startswith("_") and not n.startswith("__") and len(n) > 1 and n not in self.skip:
            return n + "_renamed"
        return n

    def visit_Attribute(self, node):
        self.generic_visit(node)
        node.attr = self.new(node.attr)
        return node

    def visit_Name(self, node):
        node.id = self.new(node.id)
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.name = self.new(node.name)
        return node

    def visit_Global(self, node):
        node.names = [self.new(n) for n in node.names]
        return node

    def visit_arg(self, node):
        self.generic_visit(node)
        node.arg = self.new(node.arg)
        return node

    def visit_keyword(self, node):
        self.generic_visit(node)
        if node.arg:
            node.arg = self.new(node.arg)
        return node


class Delegate(ast.NodeTransformer):
    """The body of every method moves to a helper method"""

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        body = []
        for f in node.body:
            if not isinstance(f, ast.FunctionDef) or f.name.startswith("__") and f.name != "__eq__" or f.decorator_list \
                    or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)) or not f.args.args \
                    or f.args.args[0].arg != "self" or any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(f)):
                body.append(f)
                continue
            name = f"_do_{f.name.strip('_')}_of_{node.name}"
            helper = ast.FunctionDef(name=name, args=f.args, body=f.body, decorator_list=[], returns=f.returns,
                                     type_params=[])
            a = f.args
            pos = [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args][1:]
            if a.vararg:
                pos.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
            kws = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]
            if a.kwarg:
                kws.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
            call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()), pos, kws)
            body.append(helper)
            body.append(ast.FunctionDef(name=f.name, args=f.args, body=[ast.Return(call)], decorator_list=[],
                                        returns=f.returns, type_params=[]))
        node.body = body
        return node


class Shape(ast.NodeTransformer):
    """if/else turned round, results named before they are returned, comprehensions over lists of their source"""
    n = 0

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is None or isinstance(node.value, (ast.Name, ast.Constant)):
            return node
        Shape.n += 1
        v = f"result_{Shape.n}"
        return [ast.Assign([ast.Name(v, ast.Store())], node.value), ast.Return(ast.Name(v, ast.Load()))]

    def visit_ListComp(self, node):
        self.generic_visit(node)
        return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(node.elt, node.generators)], [])

    def visit_For(self, node):
        self.generic_visit(node)
        if isinstance(node.iter, ast.Call) and getattr(node.iter.func, "id", "") in ("range", "enumerate", "zip"):
            return node
        node.iter = ast.Call(ast.Name("iter", ast.Load()), [node.iter], [])
        return node


class While(ast.NodeTransformer):
    """for loops without else as while loops over an iterator; += written out for names"""
    n = 0

    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        While.n += 1
        it = f"cursor_{While.n}"
        get = ast.Assign([node.target], ast.Call(ast.Name("next", ast.Load()), [ast.Name(it, ast.Load())], []))
        end = ast.ExceptHandler(ast.Name("StopIteration", ast.Load()), None, [ast.Break()])
        return [ast.Assign([ast.Name(it, ast.Store())], ast.Call(ast.Name("iter", ast.Load()), [node.iter], [])),
                ast.While(ast.Constant(True), [ast.Try([get], [end], [], []), *node.body], [])]

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Name) and isinstance(node.op, (ast.Sub, ast.Mult, ast.Div)):
            return ast.Assign([node.target], ast.BinOp(ast.Name(node.target.id, ast.Load()), node.op, node.value))
        return node


class Unsorted(ast.NodeTransformer):
    """Sets and frozensets are made from sorted or reversed lists where possible: another insertion order"""

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("set", "frozenset") and len(node.args) == 1 and not \
                node.keywords:
            node.args = [ast.Subscript(ast.Call(ast.Name("list", ast.Load()), node.args, []), ast.Slice(
                None, None, ast.UnaryOp(ast.USub(), ast.Constant(1))), ast.Load())]
        return node

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.Call(ast.Name("set", ast.Load()), [ast.Subscript(ast.ListComp(node.elt, node.generators), ast.Slice(
            None, None, ast.UnaryOp(ast.USub(), ast.Constant(1))), ast.Load())], [])


KINDS = {"private": [Private], "delegate": [Delegate], "shape": [Shape], "while": [While], "order": [Unsorted],
         "all": [Private, Delegate, Shape, While, Unsorted]}


def rewrite(kind, repo):
    root = os.path.join(repo, "Python/research/scripts")
    for d, _, fs in os.walk(root):
        if "/test" in d or "playaround" in d:
            continue
        for f in fs:
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            t = ast.parse(open(p).read())
            for k in KINDS[kind]:
                t = (k(t) if k is Private else k()).visit(t)
            ast.fix_missing_locations(t)
            open(p, "w").write(ast.unparse(t) + "\n")


def main():
    kind, ids = sys.argv[1], sys.argv[2:]
    ids = ids or [f"C{k:02}" for k in range(1, 30)]
    repo = f"/tmp/refactor_{kind}"
    shutil.rmtree(repo, ignore_errors=True)
    shutil.copytree("/repo", repo, symlinks=True)
    verif = f"/tmp/refactor_{kind}_verif"
    shutil.rmtree(verif, ignore_errors=True)
    shutil.copytree(VERIF, verif, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
    for x in ("evidence", "replays"):
        os.makedirs(os.path.join(verif, x), exist_ok=True)
    rewrite(kind, repo)
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "scripts/test"],
                       cwd=os.path.join(repo, "Python/research"), capture_output=True, text=True)
    print(kind, "tests:", r.stdout.strip().splitlines()[-1])
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
    bad = 0
    for i in ids:
        r = subprocess.run(["python3", "harness/run.py", i, "--tier", "quick"], cwd=verif, env=env, capture_output=True,
                           text=True)
        if r.returncode:
            bad += 1
            print("ALARM", kind, i, r.returncode, (r.stdout + r.stderr).strip()[-700:], flush=True)
        else:
            print("quiet", kind, i, flush=True)
    if not bad:
        shutil.rmtree(repo)
        shutil.rmtree(verif)
    print(kind, "alarms:", bad)


main()
