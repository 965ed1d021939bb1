#!/usr/bin/env python3
"""mutate.py FILE[:function] [-n MAX] [--only OB,OB] [--seed S]

Sensitivity survey: applies small syntactic changes to one source file of the repository (in a scratch copy) and lists
the changes that no obligation reports.  Many surviving mutants are equivalent or outside every stated property; the
list is read by hand to find gaps.
"""
import argparse
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.And: ast.Or, ast.Or: ast.And}
ATTR = {"x": "y", "y": "x", "longitude": "latitude", "latitude": "longitude", "row": "col", "col": "row", "r": "c", "c": "r", "RasterXSize": "RasterYSize", "RasterYSize": "RasterXSize", "min": "max", "max": "min", "floor": "ceil", "ceil": "floor"}


def sites(tree, only):
    out = []

    def walk(node, inside):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            inside = inside or only is None or node.name == only
        for f, val in ast.iter_fields(node):
            if f in ("returns", "annotation", "decorator_list"):
                continue
            if isinstance(node, ast.FunctionDef) and f == "args":
                for d in node.args.defaults:
                    walk(d, inside)
                continue
            for c in val if isinstance(val, list) else [val]:
                if isinstance(c, ast.AST):
                    walk(c, inside)
        if inside or only is None:
            out.append(node)

    walk(tree, False)
    return out


def is_log(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("logger", "logging")


def mutants(src, only):
    tree = ast.parse(src)
    logs = set()
    for n in ast.walk(tree):
        if is_log(n) or isinstance(n, ast.Raise):
            logs.update(id(k) for k in ast.walk(n) if k is not n)
    nodes = [n for n in sites(tree, only) if id(n) not in logs]
    for n in nodes:
        def emit(desc):
            return getattr(n, "lineno", 0), desc, ast.unparse(ast.fix_missing_locations(tree))

        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            o = n.op
            n.op = SWAP[type(o)]()
            yield emit(f"{type(o).__name__}->{type(n.op).__name__}")
            n.op = o
        if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
            o = n.ops[0]
            n.ops[0] = SWAP[type(o)]()
            yield emit(f"{type(o).__name__}->{type(n.ops[0]).__name__} in {ast.unparse(n)}")
            n.ops[0] = o
        if isinstance(n, ast.BoolOp):
            o = n.op
            n.op = SWAP[type(o)]()
            yield emit(f"boolop {ast.unparse(n)[:60]}")
            n.op = o
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            o = n.value
            n.value = o + 1
            yield emit(f"const {o}->{n.value}")
            n.value = o
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            n.value = not n.value
            yield emit(f"const -> {n.value}")
            n.value = not n.value
        if isinstance(n, ast.Attribute) and n.attr in ATTR:
            o = n.attr
            n.attr = ATTR[o]
            yield emit(f"attr {o}->{n.attr} in {ast.unparse(n)}")
            n.attr = o
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            n.args[0], n.args[1] = n.args[1], n.args[0]
            yield emit(f"swap args {ast.unparse(n)[:60]}")
            n.args[0], n.args[1] = n.args[1], n.args[0]
        if isinstance(n, ast.Call) and n.keywords:
            k = n.keywords.pop()
            yield emit(f"drop kw {k.arg} in {ast.unparse(n)[:60]}")
            n.keywords.append(k)
        if isinstance(n, (ast.If, ast.While)):
            o = n.test
            n.test = ast.UnaryOp(ast.Not(), o)
            yield emit(f"negate {ast.unparse(o)[:60]}")
            n.test = o
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            o = n.op
            n.op = ast.UAdd()
            yield emit(f"drop minus {ast.unparse(n)[:50]}")
            n.op = o
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.ClassDef, ast.Module)):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.Return, ast.Raise)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not (isinstance(s, ast.Expr) and is_log(s.value)):
                        b[i] = ast.Pass()
                        yield s.lineno, f"drop {ast.unparse(s)[:70]!r}", ast.unparse(ast.fix_missing_locations(tree))
                        b[i] = s
        if isinstance(n, ast.List) and len(n.elts) >= 2 or isinstance(n, ast.Tuple) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load):
            n.elts[0], n.elts[1] = n.elts[1], n.elts[0]
            yield emit(f"swap elts {ast.unparse(n)[:60]}")
            n.elts[0], n.elts[1] = n.elts[1], n.elts[0]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("target")
    ap.add_argument("-n", type=int, default=60)
    ap.add_argument("--only", default="")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=4)
    o = ap.parse_args()
    path, _, fn = o.target.partition(":")
    full = "/repo/src/aws/osml/" + path
    src = open(full).read()
    ms = [(l, d, t) for l, d, t in mutants(src, fn or None)]
    random.Random(o.seed).shuffle(ms)
    ms = ms[: o.n]
    tmp = tempfile.mkdtemp(prefix="mut")

    def run(k):
        l, d, t = ms[k]
        root = os.path.join(tmp, str(k))
        shutil.copytree("/repo/src", root + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        with open(root + "/src/aws/osml/" + path, "w") as f:
            f.write(t)
        cmd = [sys.executable, HERE + "/check.py", "all"]
        if o.only:
            cmd += ["--only", o.only]
        r = subprocess.run(cmd, env=dict(os.environ, VGA_REPO=root, VGA_JOBS="2", VGA_EVIDENCE=root), capture_output=True, text=True)
        shutil.rmtree(root)
        return r.returncode, r.stdout

    with ThreadPoolExecutor(o.jobs) as ex:
        res = list(ex.map(run, range(len(ms))))
    shutil.rmtree(tmp)
    caught = sum(1 for rc, _ in res if rc == 1)
    print(f"{caught}/{len(ms)} reported")
    for (l, d, t), (rc, out) in sorted(zip(ms, res), key=lambda z: z[0][0]):
        if rc != 1:
            und = [x for x in out.splitlines() if x.startswith("UNDECIDED")]
            print(f"  {path}:{l}: {d}   [rc {rc}{'; ' + und[0][:100] if und else ''}]")


main()
