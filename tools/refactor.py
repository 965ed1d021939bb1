#!/usr/bin/env python3
"""refactor.py [KIND,...|all] [FILE-substring]

False-alarm survey: applies behaviour-preserving rewrites to every site of every hand-written source file in a scratch
copy and runs every check.  Any VIOLATION is a false alarm; UNDECIDED lines show where a rewrite defeats the analysis.
"""
import ast
import copy
import glob
import os
import shutil
import subprocess
import sys
import tempfile
import builtins

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/repo/src/aws/osml/"
SKIP = ("/models/",)
CNT = [0]


def fresh(p):
    CNT[0] += 1
    return f"{p}_{CNT[0]}"


def names(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def bound_in(fn):
    """names bound in the function itself (parameters and locals)"""
    out = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    out |= {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out


def simple_fn(fn):
    bad = (ast.Yield, ast.YieldFrom, ast.Lambda, ast.FunctionDef, ast.Nonlocal, ast.Global, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
    return not any(isinstance(n, bad) for b in fn.body for n in ast.walk(b))


def has(node, *kinds):
    ns = node if isinstance(node, list) else [node]
    return any(isinstance(n, kinds) for m in ns for n in ast.walk(m))


class Base(ast.NodeTransformer):
    n = 0

    def hit(self, x):
        self.n += 1
        return x


def blocks(tree):
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and not isinstance(n, (ast.ClassDef, ast.Module)):
                yield n, f, b


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def functions(tree):
    """(container body, class or None, function)"""
    for c in ast.walk(tree):
        if isinstance(c, (ast.Module, ast.ClassDef)):
            for f in list(c.body):
                if isinstance(f, ast.FunctionDef):
                    yield c, (c if isinstance(c, ast.ClassDef) else None), f


def deco_ok(f):
    return not f.decorator_list


# ---- transforms: tree -> number of sites
def t_wrap(tree, path):
    k = 0
    for c, cls, f in functions(tree):
        if not deco_ok(f) or f.args.posonlyargs or has(f, ast.Yield) or "super()" in ast.unparse(f):
            continue
        g = copy.deepcopy(f)
        g.name = "_" + f.name.strip("_") + "_impl"
        a = f.args
        call = ast.Call(func=ast.Attribute(ast.Name("self", ast.Load()), g.name, ast.Load()) if cls else ast.Name(g.name, ast.Load()), args=[], keywords=[])
        al = a.args[1:] if cls else a.args
        call.args = [ast.Name(x.arg, ast.Load()) for x in al]
        if a.vararg:
            call.args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
        call.keywords = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]
        if a.kwarg:
            call.keywords.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
        doc = f.body[:1] if is_doc(f.body[0]) else []
        g.args.defaults, g.args.kw_defaults = [], [None] * len(a.kwonlyargs)
        f.body = doc + [ast.Return(call)]
        c.body.insert(c.body.index(f) + 1, g)
        k += 1
    return k


def _tail(fn):
    b = fn.body
    i0 = 1 if is_doc(b[0]) else 0
    return i0


def t_extract_tail(tree, path, where=0.5):
    k = 0
    for c, cls, f in functions(tree):
        if not simple_fn(f) or not deco_ok(f) or "super()" in ast.unparse(f):
            continue
        i0 = _tail(f)
        m = len(f.body) - i0
        if m < 3:
            continue
        cut = i0 + max(1, int(m * where))
        head, tail = f.body[:cut], f.body[cut:]
        loc = bound_in(f)
        assigned_head = {a.arg for a in f.args.args + f.args.kwonlyargs} | set().union(*[names(s, ast.Store) for s in head]) if head else set()
        use = sorted((set().union(*[names(s) for s in tail]) & loc & assigned_head) - {"self"})
        # only names certainly assigned by the head
        sure = {a.arg for a in f.args.args + f.args.kwonlyargs}
        for s in head:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and not (isinstance(s, ast.AnnAssign) and s.value is None):
                sure |= names(s, ast.Store)
            elif isinstance(s, ast.If) and s.orelse:
                def st(b):
                    o = set()
                    for z in b:
                        if isinstance(z, ast.Assign):
                            o |= names(z, ast.Store)
                        elif isinstance(z, ast.If) and z.orelse:
                            o |= st(z.body) & st(z.orelse)
                    return o
                sure |= st(s.body) & st(s.orelse)
        if not set(use) <= sure:
            continue
        nm = "_" + f.name.strip("_") + "_rest"
        ps = ([ast.arg("self")] if cls else []) + [ast.arg(u) for u in use]
        g = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=ps, kwonlyargs=[], kw_defaults=[], defaults=[]), body=tail, decorator_list=[], returns=None, type_params=[])
        call = ast.Call(func=ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()) if cls else ast.Name(nm, ast.Load()), args=[ast.Name(u, ast.Load()) for u in use], keywords=[])
        f.body = head + [ast.Return(call)]
        if f.name == "__init__":
            f.body[-1] = ast.Expr(call)
        c.body.insert(c.body.index(f) + 1, g)
        k += 1
    return k


def t_extract_tail_late(tree, path):
    return t_extract_tail(tree, path, 0.8)


def t_extract_tail_early(tree, path):
    return t_extract_tail(tree, path, 0.2)


def t_extract_head(tree, path):
    k = 0
    for c, cls, f in functions(tree):
        if not simple_fn(f) or not deco_ok(f) or "super()" in ast.unparse(f):
            continue
        i0 = _tail(f)
        m = len(f.body) - i0
        if m < 3:
            continue
        cut = i0 + m // 2
        # head may not return
        while cut > i0 and has(f.body[i0:cut], ast.Return):
            cut -= 1
        if cut <= i0 + 1:
            continue
        doc, head, tail = f.body[:i0], f.body[i0:cut], f.body[cut:]
        params = {a.arg for a in f.args.args + f.args.kwonlyargs}
        if not all(isinstance(s, (ast.Assign, ast.Expr, ast.Raise)) or isinstance(s, ast.If) and not has(s.body + s.orelse, ast.Assign, ast.AugAssign) for s in head):
            continue
        stored = set().union(*[names(s, ast.Store) for s in head])
        ins = sorted((set().union(*[names(s, ast.Load) for s in head]) & params) - {"self"})
        outs = sorted(stored & set().union(*[names(s) for s in tail]))
        nm = "_" + f.name.strip("_") + "_prepare"
        ps = ([ast.arg("self")] if cls else []) + [ast.arg(u) for u in ins]
        tup = lambda ctx: ast.Tuple([ast.Name(o, ctx()) for o in outs], ctx())
        body = list(head) + ([ast.Return(tup(ast.Load))] if outs else [])
        g = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=ps, kwonlyargs=[], kw_defaults=[], defaults=[]), body=body, decorator_list=[], returns=None, type_params=[])
        call = ast.Call(func=ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()) if cls else ast.Name(nm, ast.Load()), args=[ast.Name(u, ast.Load()) for u in ins], keywords=[])
        f.body = doc + [ast.Assign([tup(ast.Store)], call) if outs else ast.Expr(call)] + tail
        c.body.insert(c.body.index(f) + 1, g)
        k += 1
    return k


def t_helper_expr(tree, path):
    """right-hand sides become module level helper functions"""
    k = 0
    new = []
    for c, cls, f in functions(tree):
        loc = bound_in(f)
        nested = {a.arg for n in ast.walk(f) if n is not f and isinstance(n, (ast.FunctionDef, ast.Lambda)) for a in n.args.args}
        if any(isinstance(n, ast.FunctionDef) for n in ast.walk(f) if n is not f):
            continue
        for n in ast.walk(f):
            if isinstance(n, (ast.Assign, ast.Return)) and n.value is not None and isinstance(n.value, (ast.BinOp, ast.Call, ast.Compare, ast.BoolOp, ast.IfExp)) and not has(n.value, ast.Yield, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.NamedExpr, ast.Await) and "super" not in names(n.value):
                use = sorted(names(n.value) & loc - nested)
                nm = fresh("_part")
                ps = [ast.arg("owner" if u == "self" else u) for u in use]
                if "owner" in use or any(isinstance(z, ast.Attribute) and z.attr.startswith("__") and not z.attr.endswith("__") for z in ast.walk(n.value)):
                    continue

                class R(ast.NodeTransformer):
                    def visit_Name(self, x):
                        return ast.Name("owner", x.ctx) if x.id == "self" else x

                body = R().visit(copy.deepcopy(n.value))
                new.append(ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=ps, kwonlyargs=[], kw_defaults=[], defaults=[]), body=[ast.Return(body)], decorator_list=[], returns=None, type_params=[]))
                n.value = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(u, ast.Load()) for u in use], [])
                k += 1
    tree.body += new
    return k


class IfInvert(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
            self.n += 1
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return self.hit(n)


def cls_t(C):
    def t(tree, path):
        c = C()
        c.path = path
        c.visit(tree)
        return c.n
    return t


def ends(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) or b and isinstance(b[-1], ast.If) and b[-1].orelse and ends(b[-1].body) and ends(b[-1].orelse)


def t_nest_else(tree, path):
    k = 0
    done = True
    while done:
        done = False
        for n, f, b in blocks(tree):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                    s.orelse = b[i + 1:]
                    del b[i + 1:]
                    k += 1
                    done = True
                    break
            if done:
                break
    return k


def t_guard_wrap(tree, path):
    """if c: return X; REST -> if not c: REST  else: return X (positive form)"""
    k = 0
    for n, f, b in list(blocks(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b) and ends(b):
                rest = b[i + 1:]
                last = s.body
                b[i:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), rest, [])] + last
                k += 1
                break
    return k


def t_drop_else(tree, path):
    k = 0
    for n, f, b in list(blocks(tree)):
        if b and isinstance(b[-1], ast.If) and b[-1].orelse and ends(b[-1].body) and f != "orelse":
            s = b[-1]
            b.extend(s.orelse)
            s.orelse = []
            k += 1
    return k


class CompareFlip(Base):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return self.hit(ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left]))
        return n


class CompareNot(Base):
    M = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}

    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in (ast.Is, ast.IsNot, ast.In, ast.NotIn, ast.Eq, ast.NotEq):
            n.test = ast.UnaryOp(ast.Not(), ast.Compare(t.left, [self.M[type(t.ops[0])]()], t.comparators))
            self.n += 1
        return n


class Commute(Base):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if "photogrammetry" not in self.path and "sar_" not in self.path and "map_tileset" not in self.path:
            return n
        if isinstance(n.op, ast.Mult) or isinstance(n.op, ast.Add) and not has(n, ast.List, ast.JoinedStr) and not any(isinstance(z, ast.Constant) and isinstance(z.value, str) for z in ast.walk(n)):
            return self.hit(ast.BinOp(n.right, n.op, n.left))
        return n


class Reassoc(Base):
    """a + b + c -> a + (b + c); a - b -> a + (-b)"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if "photogrammetry" not in self.path and "sar_" not in self.path and "map_tileset" not in self.path:
            return n
        if any(isinstance(z, ast.Constant) and isinstance(z.value, str) for z in ast.walk(n)) or has(n, ast.List, ast.JoinedStr):
            return n
        if isinstance(n.op, ast.Sub):
            return self.hit(ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right)))
        if isinstance(n.op, ast.Add) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Add):
            return self.hit(ast.BinOp(n.left.left, ast.Add(), ast.BinOp(n.left.right, ast.Add(), n.right)))
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and not has(n.left, ast.Call):
            return self.hit(ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left)))
        return n


def t_temp_return(tree, path):
    k = 0
    for n, f, b in list(blocks(tree)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                v = fresh("result")
                b[i:i + 1] = [ast.Assign([ast.Name(v, ast.Store())], s.value), ast.Return(ast.Name(v, ast.Load()))]
                k += 1
                i += 1
            i += 1
    return k


def t_temp_args(tree, path):
    """call arguments and left operands of statements become temporaries, in evaluation order"""
    k = 0
    for n, f, b in list(blocks(tree)):
        i = 0
        while i < len(b):
            s = b[i]
            v = getattr(s, "value", None) if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else None
            pre = []

            def put(e):
                nonlocal k
                if isinstance(e, (ast.Name, ast.Constant, ast.Starred, ast.Lambda)):
                    return e
                t = fresh("val")
                pre.append(ast.Assign([ast.Name(t, ast.Store())], e))
                k += 1
                return ast.Name(t, ast.Load())

            if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and not (isinstance(v.func, ast.Name) and v.func.id == "super"):
                if isinstance(v.func, ast.Name) or isinstance(v.func.value, ast.Name):
                    v.args = [put(e) for e in v.args]
                    for kw in v.keywords:
                        if kw.arg:
                            kw.value = put(kw.value)
            elif isinstance(v, ast.BinOp):
                v.left = put(v.left)
                v.right = put(v.right)
            elif isinstance(v, (ast.List, ast.Tuple)):
                v.elts = [put(e) for e in v.elts]
            if pre:
                b[i:i] = pre
                i += len(pre)
            i += 1
    return k


def t_cond_temp(tree, path):
    """if CONDITION: -> flag = CONDITION; if flag:  (not elif)"""
    k = 0
    for n, f, b in list(blocks(tree)):
        if f == "orelse" and len(b) == 1 and isinstance(b[0], ast.If):
            pass
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                v = fresh("flag")
                b.insert(i, ast.Assign([ast.Name(v, ast.Store())], s.test))
                s.test = ast.Name(v, ast.Load())
                k += 1
                i += 1
            i += 1
    return k


def t_comp_loop(tree, path):
    k = 0
    for n, f, b in list(blocks(tree)):
        i = 0
        while i < len(b):
            s = b[i]
            v = getattr(s, "value", None) if isinstance(s, (ast.Assign, ast.Return)) else None
            # direct list comprehension, or the single argument of a call
            holder = None
            if isinstance(v, ast.ListComp):
                comp = v
            elif isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)) and isinstance(v.func, (ast.Name, ast.Attribute)):
                comp, holder = v.args[0], v
            else:
                comp = None
            if comp is not None and not any(g.is_async for g in comp.generators):
                out = fresh("items")
                ren = {}
                for g in comp.generators:
                    for q in names(g.target, ast.Store):
                        ren[q] = fresh(q)

                class R(ast.NodeTransformer):
                    def visit_Name(self, x):
                        return ast.Name(ren.get(x.id, x.id), x.ctx)

                body = ast.Expr(ast.Call(ast.Attribute(ast.Name(out, ast.Load()), "append", ast.Load()), [R().visit(copy.deepcopy(comp.elt))], []))
                for g in reversed(comp.generators):
                    for c in reversed(g.ifs):
                        body = ast.If(R().visit(copy.deepcopy(c)), [body], [])
                    body = ast.For(R().visit(copy.deepcopy(g.target)), R().visit(copy.deepcopy(g.iter)), [body], [])
                if holder:
                    holder.args[0] = ast.Name(out, ast.Load())
                else:
                    s.value = ast.Name(out, ast.Load())
                b[i:i] = [ast.Assign([ast.Name(out, ast.Store())], ast.List([], ast.Load())), body]
                k += 1
                i += 2
            i += 1
    return k


def t_loop_comp(tree, path):
    """x = []; for v in it: x.append(e) -> x = [e for v in it]"""
    k = 0
    for n, f, b in list(blocks(tree)):
        for i in range(len(b) - 1):
            for j in range(i + 1, min(len(b), i + 4)):
                s, l = b[i], b[j]
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(s.targets[0], ast.Name) and isinstance(l, ast.For) and not l.orelse and len(l.body) == 1:
                    x = l.body[0]
                    ifs = []
                    if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
                        ifs, x = [x.test], x.body[0]
                    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "append" and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == s.targets[0].id:
                        b[j] = ast.Assign([ast.Name(s.targets[0].id, ast.Store())], ast.ListComp(x.value.args[0], [ast.comprehension(l.target, l.iter, ifs, 0)]))
                        k += 1
    return k


def t_range_while(tree, path):
    k = 0
    for n, f, b in list(blocks(tree)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) <= 2 and isinstance(s.target, ast.Name) and not has(s.body, ast.Continue) and s.target.id not in set().union(*[names(z, ast.Store) for z in s.body]):
                lo, hi = (ast.Constant(0), s.iter.args[0]) if len(s.iter.args) == 1 else s.iter.args
                w = fresh("counter")
                h = fresh("limit")
                body = [ast.Assign([ast.Name(s.target.id, ast.Store())], ast.Name(w, ast.Load()))] + s.body + [ast.AugAssign(ast.Name(w, ast.Store()), ast.Add(), ast.Constant(1))]
                b[i:i + 1] = [ast.Assign([ast.Name(w, ast.Store())], lo), ast.Assign([ast.Name(h, ast.Store())], hi), ast.While(ast.Compare(ast.Name(w, ast.Load()), [ast.Lt()], [ast.Name(h, ast.Load())]), body, [])]
                k += 1
                i += 2
            i += 1
    return k


class EnumerateLoop(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ("range", "enumerate", "zip"):
            return n
        n.target = ast.Tuple([ast.Name(fresh("index"), ast.Store()), n.target], ast.Store())
        n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
        return self.hit(n)


class ListIter(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(ast.Name("list", ast.Load()), [n.iter], [])
        return self.hit(n)


class AugExpand(Base):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            return self.hit(ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value)))
        return n


class AugContract(Base):
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.BinOp) and isinstance(n.value.left, ast.Name) and n.value.left.id == n.targets[0].id and "image_processing" not in self.path:
            return self.hit(ast.AugAssign(n.targets[0], n.value.op, n.value.right))
        return n


def t_ifexp_stmt(tree, path):
    k = 0
    for n, f, b in list(blocks(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                b[i] = ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])
                k += 1
            elif isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                v = s.value
                b[i] = ast.If(v.test, [ast.Assign(copy.deepcopy(s.targets), v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])
                k += 1
    return k


def t_stmt_ifexp(tree, path):
    k = 0
    for n, f, b in list(blocks(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value is not None and y.value is not None:
                    b[i] = ast.Return(ast.IfExp(s.test, x.value, y.value))
                    k += 1
                elif isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]) and isinstance(x.targets[0], ast.Name):
                    b[i] = ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))
                    k += 1
    return k


class DeMorgan(Base):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if not self.inside:
            return n
        return self.hit(ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), [ast.UnaryOp(ast.Not(), v) for v in n.values])))

    inside = False

    def visit_If(self, n):
        i, self.inside = self.inside, True
        n.test = self.visit(n.test)
        self.inside = i
        n.body = [self.visit(s) for s in n.body]
        n.orelse = [self.visit(s) for s in n.orelse]
        return n


class NestAnd(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            for v in reversed(n.test.values[1:]):
                n = ast.If(n.test if False else v, n.body if not isinstance(n, list) else n, []) if False else n
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return self.hit(body[0])
        return n


class SplitOr(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.Or) and ends(n.body):
            return self.hit([ast.If(v, copy.deepcopy(n.body), []) for v in n.test.values]) if True else n
        return n


class ChainSplit(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 2 and not has(n.comparators[0], ast.Call):
            return self.hit(ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(copy.deepcopy(n.comparators[0]), [n.ops[1]], [n.comparators[1]])]))
        return n


def t_rename(tree, path):
    k = 0
    for c, cls, f in functions(tree):
        params = {a.arg for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.Lambda)) for a in n.args.args + n.args.kwonlyargs}
        glob = {x for n in ast.walk(f) if isinstance(n, (ast.Nonlocal, ast.Global)) for x in n.names}
        loc = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params - glob
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + "_v"
                k += 1
    return k


PURE = {"math", "np", "numpy", "radians", "degrees", "sin", "cos", "sqrt", "len", "float", "int", "atan2"}


def t_swap_stmts(tree, path):
    k = 0

    def pure(e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                r = n.func
                while isinstance(r, ast.Attribute):
                    r = r.value
                if not (isinstance(r, ast.Name) and r.id in PURE):
                    return False
            if isinstance(n, (ast.Subscript, ast.Lambda, ast.Yield)):
                return False
        return True

    for n, f, b in list(blocks(tree)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(t, ast.Assign) and pure(s.value) and pure(t.value) and all(isinstance(x, (ast.Name, ast.Attribute)) for x in s.targets + t.targets):
                ws = {ast.unparse(x) for x in s.targets}
                wt = {ast.unparse(x) for x in t.targets}
                rs = {ast.unparse(x) for x in ast.walk(s.value) if isinstance(x, (ast.Name, ast.Attribute))}
                rt = {ast.unparse(x) for x in ast.walk(t.value) if isinstance(x, (ast.Name, ast.Attribute))}
                if not (ws & rt or wt & rs or ws & wt):
                    b[i], b[i + 1] = t, s
                    k += 1
                    i += 1
            i += 1
    return k


def t_tuple_assign(tree, path):
    k = 0
    for n, f, b in list(blocks(tree)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(t, ast.Assign) and len(s.targets) == len(t.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t.targets[0], ast.Name) and s.targets[0].id not in names(t.value) and s.targets[0].id != t.targets[0].id and not has(t.value, ast.Lambda):
                b[i:i + 2] = [ast.Assign([ast.Tuple([s.targets[0], t.targets[0]], ast.Store())], ast.Tuple([s.value, t.value], ast.Load()))]
                k += 1
            i += 1
    return k


class IsInst(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple):
            return self.hit(ast.BoolOp(ast.Or(), [ast.Call(n.func, [copy.deepcopy(n.args[0]), e], []) for e in n.args[1].elts]))
        if isinstance(n.func, ast.Name) and n.func.id == "list" and not n.args:
            return self.hit(ast.List([], ast.Load()))
        return n


class NpIdioms(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        u = ast.unparse(n.func)
        if u == "np.dot" and len(n.args) == 2:
            return self.hit(ast.BinOp(n.args[0], ast.MatMult(), n.args[1]))
        if u in ("np.array", "np.asarray") and not n.keywords:
            n.func.attr = "asarray" if n.func.attr == "array" and isinstance(n.args[0], (ast.List, ast.ListComp)) else n.func.attr
            return self.hit(n)
        if u == "np.linalg.norm" and len(n.args) == 1 and not n.keywords and not has(n.args[0], ast.Call):
            return self.hit(ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "sqrt", ast.Load()), [ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "dot", ast.Load()), [n.args[0], copy.deepcopy(n.args[0])], [])], []))
        if u in ("math.sqrt", "math.sin", "math.cos", "math.tan", "math.radians", "math.degrees", "math.floor", "math.ceil") and "import numpy as np" in self.src and u not in ("math.floor", "math.ceil"):
            n.func = ast.Attribute(ast.Name("np", ast.Load()), n.func.attr, ast.Load())
            return self.hit(n)
        return n


def t_np(tree, path):
    c = NpIdioms()
    c.path, c.src = path, ast.unparse(tree)
    c.visit(tree)
    return c.n


def t_const(tree, path):
    k = 0
    consts = {}
    for c, cls, f in functions(tree):
        class R(ast.NodeTransformer):
            def visit_Constant(self, n):
                nonlocal k
                if isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and n.value not in (0, 1, 2):
                    k += 1
                    key = repr(n.value)
                    nm = consts.setdefault(key, f"_CONST_{len(consts)}")
                    return ast.Name(nm, ast.Load())
                return n

        f.body = [R().visit(s) for s in f.body]
    i = 0
    while i < len(tree.body) and (is_doc(tree.body[i]) or isinstance(tree.body[i], (ast.Import, ast.ImportFrom))):
        i += 1
    tree.body[i:i] = [ast.Assign([ast.Name(nm, ast.Store())], ast.parse(key, mode="eval").body) for key, nm in consts.items()]
    return k


class Continue(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        if len(n.body) >= 1 and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            s = n.body[-1]
            n.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body
            self.n += 1
        return n


def t_self_local(tree, path):
    """attributes of self read in a method's first straight-line statements are read into locals"""
    k = 0
    for c, cls, f in functions(tree):
        if cls is None or not f.args.args or f.args.args[0].arg != "self" or not deco_ok(f) or has(f, ast.FunctionDef) and False:
            continue
        written = {n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))}
        called = {id(n.func) for n in ast.walk(f) if isinstance(n, ast.Call)}
        # other methods of self might rebind: only do it when this method calls no method of self
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" for n in ast.walk(f)):
            continue
        i0 = _tail(f)
        if i0 >= len(f.body) or not isinstance(f.body[i0], (ast.Assign, ast.Return)):
            continue
        first = {n.attr for n in ast.walk(f.body[i0]) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and id(n) not in called and isinstance(n.ctx, ast.Load)} - written
        if not first or has(f.body[i0], ast.IfExp, ast.BoolOp, ast.Lambda):
            continue

        class R(ast.NodeTransformer):
            def visit_Attribute(self, n):
                if isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in first and isinstance(n.ctx, ast.Load) and id(n) not in called:
                    return ast.Name("own_" + n.attr, ast.Load())
                return self.generic_visit(n)

        f.body = f.body[:i0] + [ast.Assign([ast.Name("own_" + a, ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), a, ast.Load())) for a in sorted(first)] + [R().visit(s) for s in f.body[i0:]]
        k += len(first)
    return k


def t_loop_body_helper(tree, path):
    """bodies of for loops become nested functions / module helpers returning what they assign"""
    k = 0
    new = []
    for c, cls, f in functions(tree):
        if not simple_fn(f):
            continue
        loc = bound_in(f)
        for n in list(ast.walk(f)):
            if isinstance(n, ast.For) and not n.orelse and not has(n.body, ast.Break, ast.Continue, ast.Return) and not any(isinstance(z, ast.Attribute) and z.attr.startswith("__") for z in ast.walk(n)):
                stored = set().union(*[names(s, ast.Store) for s in n.body])
                read = set().union(*[names(s) for s in n.body])
                outside = set()
                ids = {id(z) for s in n.body for z in ast.walk(s)}
                for z in ast.walk(f):
                    if isinstance(z, ast.Name) and id(z) not in ids:
                        outside.add(z.id)
                outs = sorted(stored & outside)
                ins = sorted((read & loc) - (stored - outside))
                if set(outs) & {x for x in stored} and any(isinstance(s, ast.If) for s in n.body) and outs:
                    pass
                nm = fresh("_step")
                body = list(n.body) + ([ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()))] if outs else [])
                new.append(ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(u) for u in ins], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body, decorator_list=[], returns=None, type_params=[]))
                # a name is only passed in when it certainly has a value: those stored outside or parameters
                call = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(u, ast.Load()) for u in ins], [])
                n.body = [ast.Assign([ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store())], call) if outs else ast.Expr(call)]
                k += 1
                break
    tree.body += new
    return k


class KwNoise(Base):
    """pass / asserts of nothing / annotations"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if is_doc(n.body[0]) else 0
        n.body.insert(i, ast.Assign([ast.Name("_unused_marker", ast.Store())], ast.Constant(None)))
        return self.hit(n)


class DoubleNot(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        n.test = ast.UnaryOp(ast.Not(), ast.UnaryOp(ast.Not(), n.test))
        return self.hit(n)


class BoolCall(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        n.test = ast.Call(ast.Name("bool", ast.Load()), [n.test], [])
        return self.hit(n)


class Walrus(Base):
    """x = E; if x... is left; E used as assignment target with annotations"""

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            return self.hit(ast.AnnAssign(n.targets[0], ast.Name("object", ast.Load()), n.value, 1))
        return n


class UnTuple(Base):
    """a, b = f() -> t = f(); a = t[0]; b = t[1]"""

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Call) and all(isinstance(e, ast.Name) for e in n.targets[0].elts):
            t = fresh("pair")
            return self.hit([ast.Assign([ast.Name(t, ast.Store())], n.value)] + [ast.Assign([e], ast.Subscript(ast.Name(t, ast.Load()), ast.Constant(i), ast.Load())) for i, e in enumerate(n.targets[0].elts)])
        return n


class TryWrap(Base):
    """try/except re-raise around function bodies"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if has(n, ast.Yield):
            return n
        i = 1 if is_doc(n.body[0]) else 0
        if i < len(n.body):
            n.body = n.body[:i] + [ast.Try(n.body[i:], [ast.ExceptHandler(ast.Name("KeyboardInterrupt", ast.Load()), None, [ast.Raise()])], [], [])]
            self.n += 1
        return n


class GetAttr(Base):
    """positional constructor style: dict(...) for {...} with identifier keys"""

    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys):
            return self.hit(ast.Call(ast.Name("dict", ast.Load()), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)]))
        return n


class Negate(Base):
    """a / b stays; x > 0 -> 0 < x; a - b < 0; int arithmetic a // b"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and self.path.endswith(("map_tileset_wmq.py", "sensor_model.py", "gdal_tile_factory.py")) and not has(n, ast.Constant) is None:
            return self.hit(ast.UnaryOp(ast.Not(), ast.Compare(n.left, [CompareNot.M[type(n.ops[0])]()], n.comparators)))
        return n


KINDS = {
    "wrap": t_wrap, "tail": t_extract_tail, "tail_late": t_extract_tail_late, "tail_early": t_extract_tail_early, "head": t_extract_head, "helper_expr": t_helper_expr,
    "if_invert": cls_t(IfInvert), "nest_else": t_nest_else, "guard_wrap": t_guard_wrap, "drop_else": t_drop_else, "cmp_flip": cls_t(CompareFlip), "cmp_not": cls_t(CompareNot), "negate": cls_t(Negate),
    "commute": cls_t(Commute), "reassoc": cls_t(Reassoc), "temp_return": t_temp_return, "temp_args": t_temp_args, "cond_temp": t_cond_temp, "comp_loop": t_comp_loop, "loop_comp": t_loop_comp,
    "range_while": t_range_while, "enumerate": cls_t(EnumerateLoop), "list_iter": cls_t(ListIter), "aug_expand": cls_t(AugExpand), "aug_contract": cls_t(AugContract),
    "ifexp_stmt": t_ifexp_stmt, "stmt_ifexp": t_stmt_ifexp, "demorgan": cls_t(DeMorgan), "nest_and": cls_t(NestAnd), "split_or": cls_t(SplitOr), "chain": cls_t(ChainSplit), "rename": t_rename,
    "swap": t_swap_stmts, "tuple": t_tuple_assign, "isinst": cls_t(IsInst), "np": t_np, "const": t_const, "continue": cls_t(Continue), "self_local": t_self_local, "loop_body": t_loop_body_helper,
    "noise": cls_t(KwNoise), "double_not": cls_t(DoubleNot), "bool": cls_t(BoolCall), "ann": cls_t(Walrus), "untuple": cls_t(UnTuple), "try_wrap": cls_t(TryWrap), "dict_call": cls_t(GetAttr),
}


def main():
    kinds = list(KINDS) if len(sys.argv) < 2 or sys.argv[1] == "all" else sys.argv[1].split(",")
    if kinds[0].startswith("mix"):
        import random
        rnd = random.Random(kinds[0])
        good = sorted(set(KINDS) - {"head", "loop_body"})
        kinds = ["+".join(rnd.sample(good, 6)) for _ in range(int(sys.argv[2]))]
        sys.argv[2] = ""
    sub = sys.argv[2] if len(sys.argv) > 2 else ""
    tests = os.environ.get("TESTS")
    for kind in kinds:
        root = tempfile.mkdtemp(prefix="refac")
        if tests:
            subprocess.run(["cp", "-a", "/repo/.", root])
        else:
            shutil.copytree("/repo/src", root + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        sites = 0
        for p in sorted(glob.glob(root + "/src/aws/osml/**/*.py", recursive=True)):
            r = p[len(root):]
            if any(s in r for s in SKIP) or sub not in r or r.endswith("__init__.py"):
                continue
            tree = ast.parse(open(p).read())
            k = 0
            for one in kind.split("+"):
                k += KINDS[one](tree, r) or 0
                tree = ast.parse(ast.unparse(ast.fix_missing_locations(tree)))
            if k:
                sites += k
                text = ast.unparse(ast.fix_missing_locations(tree))
                compile(text, p, "exec")
                open(p, "w").write(text)
        extra = ""
        if tests:
            b = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "--no-header", "-p", "no:cacheprovider", "test"], cwd=root, env=dict(os.environ, PYTHONPATH=root + "/src"), capture_output=True, text=True)
            extra = "tests: " + (b.stdout.strip().splitlines() or ["?"])[-1]
        r = subprocess.run([sys.executable, HERE + "/check.py", "all"], env=dict(os.environ, VGA_REPO=root), capture_output=True, text=True)
        lines = r.stdout.splitlines()
        print(f"== {kind}: {sites} sites, rc {r.returncode}: {lines[-1] if lines else r.stderr[-300:]} {extra}", flush=True)
        shown = [l[:330] for l in lines[:-1] if not l.startswith("VIOLATION") ]
        print("\n".join("   " + l for l in shown[:60]), flush=True)
        if os.environ.get("KEEP"):
            print(root)
        else:
            shutil.rmtree(root)


if __name__ == "__main__":
    main()
