"""Obligations, comparison of value graphs with reference value graphs, and reporting."""
import os
import traceback
import json
import os
import sys
import time
import traceback
from fractions import Fraction

from . import values as v
from . import lib
from .interp import AnalysisError, Dead, HArr, HBox, HDict, HInst, HList, Interp, State, World
from .values import (
    CV,
    EnumM,
    Ext,
    FALSE,
    G,
    K,
    NONE,
    Obj,
    Ref,
    T,
    TRUE,
    Tup,
    V,
    Where,
    apply2,
    b_and,
    b_not,
    b_or,
    const_of,
    ite,
    leaves,
    linform,
    simplify,
    sym,
    term,
)

sys.setrecursionlimit(30000)
ROOT = os.environ.get("VGA_REPO", "/repo") + "/src"
REGISTRY = []


class AnchorGone(Exception):
    """a public name of the repository that an obligation is anchored to no longer resolves"""


class Obligation:
    def __init__(self, name, props, anchor, rule, fn, tier):
        self.name, self.props, self.anchor, self.rule, self.fn, self.tier = name, props, anchor, rule, fn, tier


def ob(props, anchor, rule, tier="quick"):
    """register an obligation: props = property ids it contributes to"""
    if isinstance(props, str):
        props = props.split()

    def deco(fn):
        REGISTRY.append(Obligation(fn.__name__, props, anchor, rule, fn, tier))
        return fn

    return deco


# ---------------------------------------------------------------- feasibility of condition assignments
NONNEG = ("len", "abs", "sqrt")


def _lin_ineqs(path, extra=None):
    """rows (coeffs, const, strict): sum(c*x)+const < 0 (strict) or <= 0"""
    rows, zeros = [], []
    atoms = {}

    def row(lf, sgn, off, strict):
        d = {}
        for k, (t, c) in lf[0].items():
            atoms[k] = t
            d[k] = sgn * c
        rows.append((d, sgn * lf[1] + off, strict))

    if extra is not None:
        for k, (t, c) in extra[0].items():
            atoms[k] = t
    for var, val in path:
        if var.kind not in ("neg", "pos"):
            continue
        lf = linform(var.arg)
        if lf is None:
            continue
        isint = var.arg.kind == "i"
        if var.kind == "neg":
            if val:
                row(lf, 1, 1 if isint else 0, not isint)
            else:
                row(lf, -1, 0, False)
        else:
            if val:
                row(lf, -1, 1 if isint else 0, not isint)
            else:
                row(lf, 1, 0, False)
    _close(rows, atoms)
    for var, val in path:
        if var.kind in ("neg", "pos"):
            y = _denominator(var.arg)
            if y is None:
                continue
            lf = linform(y)
            if lf is None:
                continue
            new = {}
            for k, (t, c) in lf[0].items():
                new[k] = t
            _close(rows, new)
            sg = 1 if not _fm_feasible(rows + [_row(lf, 1, 0, False)]) else -1 if not _fm_feasible(rows + [_row(lf, -1, 0, False)]) else 0
            z = _clear(var.arg, y) if sg else None
            lf = linform(z) if z is not None else None
            if lf is None:
                continue
            _close(rows, {k: t for k, (t, c) in lf[0].items() if k not in atoms and k not in new})
            # the condition times the denominator
            if (var.kind == "neg") == (sg > 0):
                rows.append(_row(lf, 1, 0, True) if val else _row(lf, -1, 0, False))
            else:
                rows.append(_row(lf, -1, 0, True) if val else _row(lf, 1, 0, False))
    fl = {k: linform(t.args[0]) for k, t in atoms.items() if isinstance(t, T) and t.op == "floor"}
    for k1, l1 in fl.items():
        for k2, l2 in fl.items():
            # floor(m x) is m floor(x) .. m floor(x) + m - 1
            if k1 == k2 or l1 is None or l2 is None or set(l1[0]) != set(l2[0]):
                continue
            q = {l1[0][z][1] / l2[0][z][1] for z in l1[0]}
            m = q.pop() if len(q) == 1 else 0
            if m > 1 and m.denominator == 1 and l1[1] == m * l2[1]:
                rows.append(({k1: Fraction(-1), k2: m}, Fraction(0), False))
                rows.append(({k1: Fraction(1), k2: -m}, 1 - m, False))
    truth = {var.arg.key: val for var, val in path if var.kind == "truthy"}
    if truth:
        for k, t in atoms.items():
            if isinstance(t, T) and t.op == "len" and t.args and t.args[0].key in truth:
                # a string or container is true exactly when it is not empty
                if truth[t.args[0].key]:
                    rows.append(({k: Fraction(-1)}, Fraction(1), False))
                elif t.args[0].kind == "s":
                    rows.append(({k: Fraction(1)}, Fraction(0), False))
    return rows


def _denominator(x):
    """a divisor that is not constant, among the summands of x"""
    if isinstance(x, T) and x.op in ("+", "-"):
        for y in x.args:
            d = _denominator(y)
            if d is not None:
                return d
    if isinstance(x, T) and x.op == "/" and const_of(x.args[1]) is None:
        return x.args[1]
    return None


def _clear(x, y):
    """x times y, cancelling divisions by y"""
    if isinstance(x, T) and x.op in ("+", "-"):
        a, b = (_clear(z, y) for z in x.args)
        return None if a is None or b is None else (v.add if x.op == "+" else v.sub)(a, b)
    if isinstance(x, T) and x.op == "/" and x.args[1].key == y.key:
        return x.args[0]
    return v.mul(x, y) if const_of(x) is not None else None


def _row(lf, sgn, off, strict):
    return ({k: sgn * c for k, (t, c) in lf[0].items()}, sgn * lf[1] + off, strict)


def _close(rows, atoms):
    """add the defining inequalities of floor/trunc/round/abs/... atoms, transitively"""
    done = set()
    while True:
        todo = [(k, t) for k, t in atoms.items() if k not in done]
        if not todo:
            return
        late = []
        for k, t in todo:
            done.add(k)
            if not isinstance(t, T):
                continue
            if t.op in NONNEG:
                rows.append(({k: Fraction(-1)}, Fraction(0), False))
            if t.op == "abs":
                lf = linform(t.args[0])
                if lf is not None:
                    for kk, (tt, c) in lf[0].items():
                        atoms.setdefault(kk, tt)
                    late.append((k, t, lf))
                continue
            if t.op == "pi":
                rows.append(({k: Fraction(-1)}, Fraction(3), True))
                rows.append(({k: Fraction(1)}, Fraction(-4), True))
            if t.op in ("minset", "maxset"):
                for z in t.args:
                    lf = linform(z)
                    if lf is None:
                        continue
                    for kk, (tt, c) in lf[0].items():
                        atoms.setdefault(kk, tt)
                    sg = 1 if t.op == "minset" else -1
                    d = {kk: -sg * c for kk, (tt, c) in lf[0].items()}
                    d[k] = d.get(k, 0) + sg
                    rows.append(({kk: c for kk, c in d.items() if c}, -sg * lf[1], False))
            if t.op in ("*", "/"):
                o = v.strip_scale(t)
                lf = linform(o)
                if lf is None or o.key == t.key:
                    continue
                for kk, (tt, c) in lf[0].items():
                    atoms.setdefault(kk, tt)
                late.append((k, t, lf))
            if t.op in ("floor", "trunc", "round") and t.args:
                lf = linform(t.args[0])
                if lf is None:
                    continue
                for kk, (tt, c) in lf[0].items():
                    atoms.setdefault(kk, tt)
                late.append((k, t, lf))
        # arguments first, so that signs are known
        pend = [(k, t) for k, t in atoms.items() if k not in done]
        if pend:
            sub = {k: t for k, t in pend}
            _close(rows, sub)
            atoms.update(sub)
            done.update(sub)
        for k, t, lf in reversed(late):
            base = {kk: c for kk, (tt, c) in lf[0].items()}

            def diff(sgn, off, strict, k=k, base=base, lf=lf):
                # sgn*(atom - arg) + off (<|<=) 0
                d = {k: Fraction(sgn)}
                for kk, c in base.items():
                    d[kk] = d.get(kk, 0) - sgn * c
                d = {kk: c for kk, c in d.items() if c}
                rows.append((d, -sgn * lf[1] + off, strict))

            neg_possible = _fm_feasible(rows + [_row(lf, 1, 0, True)])
            if t.op == "abs":
                if not neg_possible:
                    diff(1, 0, False)
                    diff(-1, 0, False)
                elif not _fm_feasible(rows + [_row(lf, -1, 0, True)]):
                    # |x| = -x
                    for sg in (1, -1):
                        d = {k: Fraction(sg)}
                        for kk, c in base.items():
                            d[kk] = d.get(kk, 0) + sg * c
                        rows.append(({kk: c for kk, c in d.items() if c}, sg * lf[1], False))
                else:
                    diff(-1, 0, False)
                    d = {k: Fraction(-1)}
                    for kk, c in base.items():
                        d[kk] = d.get(kk, 0) - c
                    rows.append(({kk: c for kk, c in d.items() if c}, -lf[1], False))
                continue
            if t.op in ("*", "/"):
                if not neg_possible:
                    rows.append(({k: Fraction(-1)}, Fraction(0), False))
                elif not _fm_feasible(rows + [_row(lf, -1, 0, True)]):
                    rows.append(({k: Fraction(1)}, Fraction(0), False))
                continue
            if t.op == "round":
                nd = const_of(t.args[1]) if len(t.args) > 1 else 0
                if nd is None:
                    continue
                h = Fraction(1, 2) / Fraction(10) ** int(nd)
                diff(1, -h, False)
                diff(-1, -h, False)
                if not neg_possible:
                    rows.append(({k: Fraction(-1)}, Fraction(0), False))
                elif not _fm_feasible(rows + [_row(lf, -1, 0, True)]):
                    rows.append(({k: Fraction(1)}, Fraction(0), False))
            elif t.op == "floor" or not neg_possible:
                diff(1, 0, False)
                diff(-1, -1, True)
                if not neg_possible:
                    rows.append(({k: Fraction(-1)}, Fraction(0), False))
            elif not _fm_feasible(rows + [_row(lf, -1, 0, True)]):
                diff(-1, 0, False)
                diff(1, -1, True)
                rows.append(({k: Fraction(1)}, Fraction(0), False))
            else:
                diff(1, -1, True)
                diff(-1, -1, True)


def entails(path, d, strict):
    """does the path imply d < 0 (strict) or d <= 0?"""
    lf = linform(d)
    if lf is None:
        return None
    rows = _lin_ineqs(path, extra=lf)
    rows.append(_row(lf, -1, 0, not strict))
    return not _fm_feasible(rows, 3000)


def _fm_feasible(rows, limit=300):
    rows = list(rows)
    while True:
        for d, c, s in rows:
            if not d and (c > 0 or (s and c == 0)):
                return False
        vars_ = {}
        for d, c, s in rows:
            for k in d:
                vars_[k] = vars_.get(k, 0) + 1
        if not vars_:
            return True
        k = min(vars_, key=lambda q: vars_[q])
        pos = [r for r in rows if r[0].get(k, 0) > 0]
        neg = [r for r in rows if r[0].get(k, 0) < 0]
        rest = [r for r in rows if not r[0].get(k, 0)]
        if len(pos) * len(neg) + len(rest) > limit:
            return True
        for p in pos:
            for n in neg:
                a, b = -n[0][k], p[0][k]
                d = {}
                for q in set(p[0]) | set(n[0]):
                    if q == k:
                        continue
                    c = a * p[0].get(q, 0) + b * n[0].get(q, 0)
                    if c:
                        d[q] = c
                rest.append((d, a * p[1] + b * n[1], p[2] or n[2]))
        rows = rest


def feasible(path):
    eqtrue, eqfalse = {}, {}
    truthy = {}
    for var, val in path:
        if var.kind == "eq":
            a, b = var.arg
            for x, y in ((a, b), (b, a)):
                if isinstance(y, (K, EnumM, Ref)):
                    if val:
                        if x.key in eqtrue and eqtrue[x.key] != y.key:
                            return False
                        eqtrue[x.key] = y.key
                    else:
                        eqfalse.setdefault(x.key, set()).add(y.key)
        elif var.kind == "truthy":
            truthy[var.arg.key] = val
    for k, y in eqtrue.items():
        if y in eqfalse.get(k, ()):
            return False
        if k in truthy:
            falsy = y in (NONE.key, K("").key, FALSE.key, K(0).key)
            if truthy[k] == falsy:
                return False
    rows = _lin_ineqs(path)
    return _fm_feasible(rows) if rows else True


def paths_true(g, limit=4000):
    """assignments of condition atoms under which the boolean diagram holds"""
    out = []

    def go(x, p):
        if len(out) >= limit:
            return
        if isinstance(x, G):
            go(x.hi, p + [(x.var, True)])
            go(x.lo, p + [(x.var, False)])
        elif x.val:
            out.append(p)

    go(g, [])
    return out


def zero_forms(path):
    neg, pos = {}, {}
    for var, val in path:
        if var.kind == "neg" and not val:
            neg[var.arg.key] = var.arg
        if var.kind == "pos" and not val:
            pos[var.arg.key] = var.arg
    z = [a for k, a in neg.items() if k in pos]
    # integer equalities: not (d<0) and (d-1<0)
    for var, val in path:
        if var.kind == "neg" and not val and var.arg.kind == "i":
            for var2, val2 in path:
                if var2.kind == "neg" and val2 and var2.arg.kind == "i":
                    if const_of(v.sub(var.arg, var2.arg)) == 1:
                        z.append(var.arg)
    return z


def _occurs(t, x, depth=0):
    if x.key == t.key:
        return True
    if isinstance(x, T):
        return any(_occurs(t, a) for a in x.args)
    if isinstance(x, Tup):
        return any(_occurs(t, a) for a in x.items)
    return isinstance(x, G)


def equal_under(a, b, path):
    """are numeric leaves a and b equal given the equalities on the path?"""
    if not (isinstance(a, (K, T)) and isinstance(b, (K, T))):
        return False
    if not (v._isnumlike(a) and v._isnumlike(b)):
        return False
    for x, y in ((a, b), (b, a)):
        if isinstance(y, T) and y.op in ("minset", "maxset"):
            if not any(z.key == x.key for z in y.args):
                continue
            if all(z.key == x.key or entails(path, v.sub(x, z) if y.op == "minset" else v.sub(z, x), False) for z in y.args):
                return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, T) and x.op == "abs":
            for sg in (1, -1):
                z = x.args[0] if sg > 0 else v.neg(x.args[0])
                if entails(path, v.neg(z), False):
                    return equal_under(z, y, path)
    d = v.sub(a, b)
    if isinstance(d, K):
        return d.val == 0
    for z in zero_forms(path):
        r = v.f_rational(v.f_mul(d.vn, v.f_inv(z.vn)), 1 << 20)
        if r is not None or _vanishes(d, z):
            return True
    return False


def _vanishes(d, z):
    """is the polynomial d zero where z is, z being linear in one of its unknowns?"""
    p, q = v._poly(d), v._poly(z)
    if not p or not q:
        return False
    for m, c in q.items():
        if len(m) != 1 or m[0][1] != 1 or any(k == m[0][0] for n in q if n != m for k, e in n):
            continue
        x = m[0][0]
        sub = {n: -e / c for n, e in q.items() if n != m}
        out = {}
        for n, e in p.items():
            deg = dict(n).get(x, 0)
            if deg < 0 or deg > 4:
                break
            acc = {tuple((k, g) for k, g in n if k != x): e}
            for _ in range(deg):
                nxt = {}
                for n1, e1 in acc.items():
                    for n2, e2 in sub.items():
                        k = v._mmul(n1, n2, 1)
                        nxt[k] = nxt.get(k, 0) + e1 * e2
                acc = nxt
            for k, g in acc.items():
                out[k] = out.get(k, 0) + g
        else:
            if not any(out.values()):
                return True
    return False


def evalterm(x, env):
    """value of a closed-form term at an assignment of its symbols (only used to refute bounds)"""
    import math

    if isinstance(x, G):
        return evalterm(x.hi if evalcv(x.var, env) else x.lo, env)
    if isinstance(x, K):
        if isinstance(x.val, str) or x.val is None:
            raise ValueError(x)
        return x.py()
    if not isinstance(x, T):
        raise ValueError(x)
    if x.op.startswith("sym:"):
        if x.op[4:] not in env:
            raise ValueError(x.op)
        return env[x.op[4:]]
    if x.op == "pi":
        return math.pi
    if x.op.startswith("a:") and "a:*" in env:
        return env["a:*"]
    if x.op in ("minset", "maxset"):
        return (min if x.op == "minset" else max)(evalterm(y, env) for y in x.args)
    a = [evalterm(y, env) for y in x.args]
    f = {
        "+": lambda p, q: p + q,
        "-": lambda p, q: p - q,
        "*": lambda p, q: p * q,
        "/": lambda p, q: p / q,
        "**": lambda p, q: p**q,
        "floor": math.floor,
        "trunc": int,
        "abs": abs,
        "round": lambda p, n=None: round(p) if n is None else round(p, int(n)),
        "sqrt": math.sqrt,
        "sin": math.sin,
        "cos": math.cos,
        "exp": math.exp,
    }.get(x.op)
    if f is None:
        raise ValueError(x.op)
    return f(*a)


def evalcv(c, env):
    if c.kind == "neg":
        return evalterm(c.arg, env) < 0
    if c.kind == "pos":
        return evalterm(c.arg, env) > 0
    raise ValueError(c.kind)


def evalcond(g, env):
    while isinstance(g, G):
        g = g.hi if evalcv(g.var, env) else g.lo
    return bool(g.val)


# ---------------------------------------------------------------- vocabulary of a value graph
UNKNOWN_PREFIX = ("x:", "m:", "TOP:", "rec:", "typeerr", "missing-import", "decorated", "deep", "uninit", "bm:", "fn:", "call", "getattr", "star", "ref?", "obj", "phi", "fold", "sum", "first", "whilecount", "untilcount", "stored", "upd", "mask", "nan")
UNKNOWN_ATTR = ("a:shape", "a:size", "a:ndim", "a:dtype", "a:real", "a:imag", "a:kind", "a:itemsize", "a:__dict__")
NO_MODEL = ("TOP:", "x:", "rec:", "missing-import", "decorated", "deep", "star", "bm:")
UNKNOWN_CV = ("isclose", "hasattr", "callable", "incomp", "all", "any", "isfinite", "isnan", "lt", "some")


def vocabulary(x, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    todo = [x]
    while todo:
        y = todo.pop()
        if y.key in seen:
            continue
        seen.add(y.key)
        if isinstance(y, T):
            acc.setdefault(y.op, y)
            todo.extend(y.args)
        elif isinstance(y, G):
            acc.setdefault("cv:" + y.var.kind, y.var)
            a = y.var.arg if isinstance(y.var.arg, (tuple, list)) else (y.var.arg,)
            todo.extend(z for z in a if isinstance(z, V))
            todo.extend((y.hi, y.lo))
        elif isinstance(y, Tup):
            todo.extend(y.items)
    return acc


def unknown_ops(actual, expected):
    va, ve = vocabulary(actual), vocabulary(expected)
    out = []
    for o, y in va.items():
        if o.startswith("TOP:"):
            out.append(o)
        elif o in ve:
            continue
        elif o.startswith(UNKNOWN_PREFIX) or o in UNKNOWN_ATTR:
            out.append(o)
        elif o.startswith("cv:") and o[3:] in UNKNOWN_CV:
            out.append(o)
    return out


def subterms(x):
    acc, todo = {}, [x]
    while todo:
        y = todo.pop()
        if y.key in acc:
            continue
        acc[y.key] = y
        if isinstance(y, T):
            todo.extend(y.args)
        elif isinstance(y, G):
            a = y.var.arg if isinstance(y.var.arg, (tuple, list)) else (y.var.arg,)
            todo.extend(z for z in a if isinstance(z, V))
            todo.extend((y.hi, y.lo))
        elif isinstance(y, Tup):
            todo.extend(y.items)
    return acc


def divergence(actual, expected):
    """source constructs where the actual value graph first departs from the reference"""
    sa, se = subterms(actual), subterms(expected)
    front, other = [], []
    for k, y in sa.items():
        if k in se or not isinstance(y, T) or y.src is None:
            continue
        (front if all(a.key in se or isinstance(a, K) for a in y.args) else other).append(y.src)
    for k, y in sa.items():
        if isinstance(y, G) and k not in se and y.var.src:
            other.append(y.var.src)
    out = []
    for s in front + other:
        if s[0].startswith(ROOT) and s not in out:
            out.append(s)
    return out[:8]


# ---------------------------------------------------------------- the analyser given to obligations
class Mismatch:
    def __init__(self, what, status, detail, where, actual=None, expected=None):
        self.what, self.status, self.detail, self.where = what, status, detail, where
        self.actual, self.expected = actual, expected


class A:
    """helper handed to an obligation"""

    def __init__(self, world, obl, tier):
        self.w, self.obl, self.tier = world, obl, tier
        self.I = Interp(world)
        self.mism = []
        self.checked = 0
        self.anchor_src = None
        self.dead = None
        self.prefix = ""
        world.contracts = {}
        world.aliases = {}
        install_contracts(self)

    # ---- names and inputs
    def get(self, qual):
        try:
            return self.I.lookup_qual(qual)
        except (AnalysisError, Dead) as e:
            raise AnchorGone(f"{qual}: {e}")

    def sym(self, name, kind="num", cls=None):
        if isinstance(cls, str):
            cls = self.get(cls)
        return sym(self.prefix + name, kind, cls)

    def syms(self, names, kind="num"):
        return [sym(self.prefix + n, kind) for n in names.split()]

    def assume(self, st, *conds):
        for c in conds:
            st.pc = b_and(st.pc, c)

    def obj(self, name, cls):
        """an arbitrary instance of an analysed class"""
        return sym(self.prefix + name, "o", self.get(cls) if isinstance(cls, str) else cls)

    def state(self, assume=TRUE, flags=()):
        self.I.flags = set(flags)
        self.I.pending = [[]]
        self.I.callstack = []
        self.I.frames = []
        self.dead = None
        return State(pc=assume)

    def arr(self, st, data):
        a = lib.stack_arr(self.I, [self._seq(st, d) for d in data], st)
        return self.I.new(st, a)

    def _seq(self, st, d):
        return Tup([self._seq(st, x) for x in d]) if isinstance(d, (list, tuple)) else v.lift_const(d)

    def lst(self, st, items):
        return self.I.new_list(st, [v.lift_const(i) if not isinstance(i, list) else self.lst(st, i) for i in items])

    def dict(self, st, d):
        return self.I.new(st, HDict({K(k).key: (TRUE, K(k), v.lift_const(x)) for k, x in d.items()}))

    def ref(self, src):
        """functions of a reference program: ref(src)(name) -> callable value"""
        import hashlib
        import textwrap

        src = textwrap.dedent(src)
        m = self.I.source_module("ref_" + hashlib.sha1(src.encode()).hexdigest()[:10], src)
        return lambda n: self.I.modattr(State(), m, n)

    def stub(self, name, f):
        """calls of an external function are answered by a function of a reference program"""
        self.w.contracts[("ext", name)] = lambda I, st, args, kw, ctx: I.call(f, args, kw, st, ctx)

    # ---- running the analysis
    def new(self, st, qual, *args, **kw):
        return self.call(st, self.get(qual), *args, **kw)

    def call(self, st, f, *args, **kw):
        """abstract call; returns the value or None when no normal outcome exists"""
        try:
            return self.I.call(f, [v.lift_const(a) for a in args], {k: v.lift_const(x) for k, x in kw.items()}, st, None)
        except Dead:
            self._died(st)
            return None

    def _died(self, st):
        if os.environ.get("VGA_DEBUG"):
            traceback.print_exc()
        if self.dead is None and self.raises():
            self.dead = st
        st.pc = FALSE

    def m(self, st, obj, name, *args, **kw):
        try:
            f = self.I.getattr(obj, name, st, None)
        except Dead:
            self._died(st)
            return None
        return self.call(st, f, *args, **kw)

    def attr(self, st, obj, path):
        try:
            for p in path.split("."):
                obj = self.I.getattr(obj, p, st, None)
            return lib.unbox(self.I, obj, st)
        except Dead:
            self._died(st)
            return None

    def raises(self):
        return list(self.I.pending[0])

    def comps(self, st, x, n=None):
        """components of an array / sequence / coordinate"""
        if isinstance(x, list):
            return x
        x = lib.unbox(self.I, x, st)
        if isinstance(x, K) and not isinstance(x.val, str):
            return [x]
        if isinstance(x, Ref):
            h = self.I.deref(st, x)
            if isinstance(h, HInst) and "coordinate" in h.attrs:
                return self.comps(st, h.attrs["coordinate"], n)
        if isinstance(x, G):
            return self.I.unpack(x, n, st)
        if isinstance(x, Tup) and not any(isinstance(i, (Tup, Ref)) for i in x.items):
            return list(x.items)
        if isinstance(x, Tup) and len(x.items) == n and any(isinstance(i, Ref) and isinstance(self.I.deref(st, i), HInst) for i in x.items):
            return list(x.items)
        a = lib.as_arr(self.I, x, st)
        if isinstance(a, HArr):
            return list(a.data) if len(a.shape) == 1 else lib.nested(a)
        it = self.I.items_of(x, st)
        if it is not None:
            return it
        if n is not None:
            return [lib.getitem(self.I, x, K(i), st, None) for i in range(n)]
        return [x]

    def items(self, st, x):
        """elements of a list or tuple, as they are"""
        it = self.I.items_of(lib.unbox(self.I, x, st), st) if x is not None else []
        if it is None:
            a = lib.as_arr(self.I, x, st)
            if not isinstance(a, HArr):
                raise AnalysisError("not a sequence of known length: " + repr(x)[:200])
            it = list(a.data) if len(a.shape) == 1 else lib.nested(a)
        return list(it)

    def coord(self, st, x, n):
        """components of a coordinate object, reading through its public .coordinate"""
        if x is None:
            return None
        c = self.attr(st, x, "coordinate")
        return self.comps(st, c, n) if c is not None else None

    # ---- verdicts
    def fail(self, what, detail, where=None, undecided=False):
        self.checked += 1
        self.mism.append(Mismatch(what, "undecided" if undecided else "violation", detail, where or []))

    def ok(self):
        self.checked += 1

    def check(self, cond, what, detail, where=None):
        if cond:
            self.ok()
        else:
            self.fail(what, detail, where)

    def eq(self, st, actual, expected, what, care=None):
        """the actual value graph equals the reference on every reachable input"""
        self.checked += 1
        I = self.I
        if actual is None:
            self._no_value(what, st)
            return False
        care = st.pc if care is None else care
        if isinstance(expected, (list, tuple)):
            got = self.comps(st, actual, len(expected)) if not isinstance(actual, (list, tuple)) else list(actual)
            if len(got) != len(expected):
                fz = I.freeze(actual, st) if isinstance(actual, V) else Tup([I.freeze(a, st) if isinstance(a, V) else NONE for a in actual])
                unk = unknown_ops(fz, NONE)
                self.mism.append(Mismatch(what, "undecided" if unk else "violation", f"has {len(got)} components, expected {len(expected)}", divergence(fz, NONE), fz))
                return False
            self.checked -= 1
            r = True
            for i, (g, e) in enumerate(zip(got, expected)):
                r = self.eq(st, g, e, f"{what}[{i}]", care) and r
            return r
        expected = v.lift_const(expected)
        if isinstance(expected, K) and expected.val is None and isinstance(actual, V):
            x = simplify(actual, care)
            if isinstance(x, Ref) and isinstance(I.deref(st, x), (HInst, HList, HDict)):
                self.mism.append(Mismatch(what, "violation", f"is always an object ({getattr(getattr(I.deref(st, x), 'cls', None), 'name', 'a container')}) but must be None", []))
                return False
        af = I.freeze(simplify(lib.unbox(I, actual, st), care), st) if isinstance(actual, V) else self._freeze_list(st, actual)
        ef = I.freeze(lib.unbox(I, expected, st), st)
        af, ef = simplify(af, care), simplify(ef, care)
        if af.key == ef.key:
            return True
        bad = self.differs(af, ef, care)
        if bad is None:
            return True
        path, la, le = bad
        unk = unknown_ops(la, le)
        cond = [c for c, _ in path]
        vocab_e = vocabulary(ef)
        for c in cond:
            if c.kind in UNKNOWN_CV and "cv:" + c.kind not in vocab_e:
                unk.append("cv:" + c.kind)
            for a in c.arg if isinstance(c.arg, (tuple, list)) else (c.arg,):
                if isinstance(a, V):
                    va = vocabulary(a)
                    unk += [o for o in va if o.startswith(UNKNOWN_PREFIX) and o not in vocab_e]
        if unk:
            self.mism.append(Mismatch(what, "undecided", "value involves unmodelled operations: " + ", ".join(sorted(set(unk))[:6]), divergence(af, ef), la, le))
        else:
            pc = " and ".join(f"{'' if val else 'not '}({c!r})" for c, val in path[:8])
            self.mism.append(Mismatch(what, "violation", (f"when {pc}: " if pc else "") + f"value is {v.show(la)[:600]} but must be {v.show(le)[:600]}", divergence(af, ef), la, le))
        return False

    def _freeze_list(self, st, xs):
        return self.I.opq("seq", *[self.I.freeze(x, st) if isinstance(x, V) else self._freeze_list(st, x) for x in xs])

    def _no_value(self, what, st):
        rs = self.raises()
        det = "no normal result: the analysed code always raises"
        wh = []
        if rs:
            names = []
            for s, exc, w in rs:
                o = self.I.deref(s, exc)
                names.append(getattr(getattr(o, "cls", None), "name", "?"))
                if w:
                    wh.append(w)
            det += " " + ",".join(names)
        self.mism.append(Mismatch(what, "violation" if rs else "undecided", det, wh))

    def differs(self, a, b, care):
        """None if equal on every feasible assignment, else (path, leaf a, leaf b)"""
        pairs = {}

        def f(x, y):
            if x.key == y.key:
                return FALSE
            pairs[(x.key, y.key)] = (x, y)
            return Tup([x, y])

        d = apply2(f, a, b)
        if care is not TRUE:
            d = ite(care, d, FALSE)
        tot = 0
        for g, leaf in leaves(d):
            if not isinstance(leaf, Tup):
                continue
            x, y = leaf.items
            for p in paths_true(g, 3000):
                tot += 1
                if not feasible(p):
                    continue
                if equal_under(x, y, p):
                    continue
                if self._struct_equal(x, y, p):
                    continue
                if self._equal_where(x, y, p):
                    continue
                return p, x, y
        return None

    def _equal_where(self, x, y, p):
        """equal once the equations of the path are solved and put into both values"""
        known = []

        def put(q):
            for one in known:
                q = lib.substitute(self.I, q, one, State())
            return q

        for z in zero_forms(p):
            z = put(z)
            lf = v.linform(z) if isinstance(z, T) else None
            if not lf or not lf[0]:
                continue
            for k, (t, c) in sorted(lf[0].items(), key=lambda q: (not q[1][0].op.startswith("sym:"), str(q[0]))):
                val = K(-lf[1] / c)
                for k2, (t2, c2) in lf[0].items():
                    if k2 != k:
                        q = t2 if c2 == -c else v.mul(t2, K(-c2 / c))
                        val = q if v.const_of(val) == 0 else v.add(val, q)
                if not _occurs(t, val):
                    known.append({t.key: val})
                    break
        if not known:
            return False
        x, y = put(x), put(y)
        return x.key == y.key or equal_under(x, y, [])

    def _struct_equal(self, x, y, p):
        """recursive comparison of container terms whose gates were kept inside"""
        if isinstance(x, T) and isinstance(y, T) and x.op == y.op and len(x.args) == len(y.args) and x.args:
            if x.op in ("+", "-", "*", "/", "**", "sqrt", "sin", "cos"):
                return False
            care = TRUE
            for var, val in p:
                c = v.bvar(var)
                care = b_and(care, c if val else b_not(c))
            for a, b in zip(x.args, y.args):
                a, b = simplify(a, care), simplify(b, care)
                if a.key == b.key:
                    continue
                if self.differs(a, b, care) is not None:
                    return False
            return True
        return False

    def within(self, st, x, lo, hi, what, strict_hi=False, witnesses=()):
        """lo <= x <= hi (or < hi) on every reachable input, from linear facts and the meaning of rounding.
        A bound that cannot be derived is refuted only by a witness assignment of the inputs."""
        self.checked += 1
        if x is None:
            self._no_value(what, st)
            return False
        x = simplify(lib.unbox(self.I, x, st), st.pc)
        for g, leaf in leaves(x):
            for p in paths_true(b_and(g, st.pc), 500):
                if not feasible(p):
                    continue
                bad = None
                if not v._isnumlike(leaf):
                    bad = None, "is not a number"
                else:
                    for e, t in ((None if lo is None else (v.sub(v.lift_const(lo), leaf), False)), "may be below " + v.show(v.lift_const(lo)) if lo is not None else ""), ((None if hi is None else (v.sub(leaf, v.lift_const(hi)), strict_hi)), "may exceed " + v.show(v.lift_const(hi)) if hi is not None else ""):
                        if e is None:
                            continue
                        r = entails(p, *e)
                        if not r:
                            bad = r, t
                            break
                if bad:
                    wit = None
                    for w in witnesses:
                        try:
                            env = dict(w)
                            if not evalcond(st.pc, env):
                                continue
                            val = evalterm(x, env)
                            l_, h_ = (None if b is None else evalterm(v.lift_const(b), env) for b in (lo, hi))
                        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                            continue
                        if (l_ is not None and val < l_) or (h_ is not None and (val >= h_ if strict_hi else val > h_)):
                            wit = (w, val)
                            break
                    if wit:
                        self.mism.append(Mismatch(what, "violation", f"value {v.show(leaf)[:500]} {bad[1]}: for {wit[0]} it is {wit[1]}", divergence(leaf, NONE), leaf))
                    else:
                        self.mism.append(Mismatch(what, "undecided", f"cannot derive the bound: value {v.show(leaf)[:300]} {bad[1]}", divergence(leaf, NONE), leaf))
                    return False
        return True

    def cond_eq(self, st, actual, expected, what):
        return self.eq(st, actual, expected, what)

    def never_raises(self, what, care=TRUE, allow=()):
        """no raise outcome is feasible under care"""
        self.checked += 1
        for s, exc, w in self.raises():
            o = self.I.deref(s, exc)
            nm = getattr(getattr(o, "cls", None), "name", "?").split(".")[-1]
            if nm in allow:
                continue
            g = b_and(s.pc, care)
            dark = None
            for p in paths_true(g, 500):
                if feasible(p):
                    un = sorted({o for c, _ in p for a in (c.arg if isinstance(c.arg, (tuple, list)) else (c.arg,)) if isinstance(a, V) for o in vocabulary(a) if o.startswith(NO_MODEL)})
                    if un:
                        dark = dark or un
                        continue
                    pc = " and ".join(f"{'' if val else 'not '}({c!r})" for c, val in p[:6])
                    self.mism.append(Mismatch(what, "violation", f"raises {nm}" + (f" when {pc}" if pc else ""), [w] if w else []))
                    return False
            if dark:
                self.mism.append(Mismatch(what, "undecided", f"raises {nm} under a condition with unmodelled operations: " + ", ".join(dark[:4]), [w] if w else []))
                return False
        return True

    def raise_guard(self, name=None):
        """condition under which an exception (of the named type) escapes"""
        g = FALSE
        for s, exc, w in self.raises():
            o = self.I.deref(s, exc)
            nm = getattr(getattr(o, "cls", None), "name", "?").split(".")[-1]
            if name is None or nm == name or (name in BUILTINS and nm in BUILTINS and issubclass(BUILTINS[nm], BUILTINS[name])):
                g = b_or(g, s.pc)
        return g

    def must_raise(self, st, names, cond, what):
        """exception of one of the given types escapes exactly under cond"""
        g = FALSE
        for n in names:
            g = b_or(g, self.raise_guard(n))
        return self.eq(st, g, cond, what, care=TRUE)


import builtins as _b

BUILTINS = {n: o for n, o in vars(_b).items() if isinstance(o, type) and issubclass(o, BaseException)}


# ---------------------------------------------------------------- contracts of the abstract interfaces
def install_contracts(a):
    """an arbitrary ElevationModel / SensorModel implementation behaves as its documentation says"""
    C = a.w.contracts

    def arg(args, kw, i, name, default=NONE):
        if len(args) > i:
            return args[i]
        return kw.get(name, default)

    def set_elevation(I, st, recv, args, kw):
        c = arg(args, kw, 0, "geodetic_world_coordinate", None)
        if c is None and kw:
            c = list(kw.values())[0]

        def one(x, s):
            x0, y0, z0 = [I.getattr(x, n, s, None) for n in ("longitude", "latitude", "elevation")]
            new = v.applyN(lambda m, p, q, r: term("elev", m, p, q, r, kind="num"), [recv, x0, y0, z0])
            I.setattr(x, "elevation", new, s, None)
            I.log_event(s, "set_elevation", [recv, x0, y0, z0], {}, NONE)
            return v.pred("elev_found", recv, x0, y0)

        return I.split(c, st, one)

    C[("ElevationModel", "set_elevation")] = set_elevation

    def describe_region(I, st, recv, args, kw):
        return I.opq("region", recv, I.freeze(args[0] if args else list(kw.values())[0], st))

    C[("ElevationModel", "describe_region")] = describe_region

    def i2w(I, st, recv, args, kw):
        ic = arg(args, kw, 0, "image_coordinate", None)
        em = arg(args, kw, 1, "elevation_model")
        op = arg(args, kw, 2, "options")
        x, y = I.getattr(ic, "x", st, None), I.getattr(ic, "y", st, None)
        parts = [v.applyN(lambda *q, n=n: term("i2w." + n, *q, kind="num"), [recv, x, y, I.freeze(em, st), I.freeze(op, st)]) for n in ("lon", "lat", "elev")]
        I.log_event(st, "image_to_world", [recv, x, y, em, op], {}, NONE)
        return I.call(a.get("aws.osml.photogrammetry.GeodeticWorldCoordinate"), [I.new_list(st, parts)], {}, st, None)

    def w2i(I, st, recv, args, kw):
        wc = arg(args, kw, 0, "world_coordinate", None)
        g = [I.getattr(wc, n, st, None) for n in ("x", "y", "z")]
        parts = [v.applyN(lambda *q, n=n: term("w2i." + n, *q, kind="num"), [recv] + g) for n in ("x", "y")]
        I.log_event(st, "world_to_image", [recv] + g, {}, NONE)
        return I.call(a.get("aws.osml.photogrammetry.ImageCoordinate"), [I.new_list(st, parts)], {}, st, None)

    from . import contracts

    contracts.install(a)
    from . import xmlmodel

    xmlmodel.install(a)
    C[("SensorModel", "image_to_world")] = i2w
    C[("SensorModel", "world_to_image")] = w2i


def i2w(model, x, y, em=NONE, op=NONE):
    return [term("i2w." + n, model, v.lift_const(x), v.lift_const(y), em, op, kind="num") for n in ("lon", "lat", "elev")]


def w2i(model, g):
    return [term("w2i." + n, model, *g, kind="num") for n in ("x", "y")]


def elev(model, lon, lat, z):
    return v.applyN(lambda m, p, q, r: term("elev", m, p, q, r, kind="num"), [model, v.lift_const(lon), v.lift_const(lat), v.lift_const(z)])
