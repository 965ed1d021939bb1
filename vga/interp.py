"""Abstract interpreter over the Python AST computing gated value numbers.

The analysed modules are parsed, never imported.  Branches are joined with gates, loops with a
constant trip count are unrolled, all other loops are summarised by one generic iteration.
"""
import ast
import builtins
import os

from fractions import Fraction

from . import values as v
from .desugar import desugar
from .values import (
    CV,
    Ext,
    EnumM,
    FALSE,
    G,
    K,
    NONE,
    Obj,
    Ref,
    T,
    TRUE,
    Tup,
    UNDEF,
    V,
    Where,
    apply1,
    applyN,
    b_and,
    b_not,
    b_or,
    bvar,
    ite,
    leaves,
    simplify,
    term,
    top,
    vnof,
)


class Dead(Exception):
    """the current abstract path has no continuation"""


class AnalysisError(Exception):
    """the analysis cannot find an anchor it needs"""


# ---------------------------------------------------------------- heap objects (immutable; replaced on write)
class HEnv:
    __slots__ = ("vars",)

    def __init__(self, vars):
        self.vars = vars


LRU = """
def remember(function):
    table = {}
    def call(*args, **kwargs):
        k = args + tuple(kwargs.items())
        if k not in table:
            table[k] = function(*args, **kwargs)
        return table[k]
    return call
"""


class HInst:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class HList:
    """entries: tuple of (guard, value, loop) ; loop None or a loop-count value"""

    __slots__ = ("entries", "kind")

    def __init__(self, entries, kind="list"):
        self.entries = tuple(entries)
        self.kind = kind


class HDict:
    """entries: {key: (guard, keyvalue, value)}, base: opaque mapping or None, comps: (count, guard, key, value)"""

    __slots__ = ("entries", "base", "comps")

    def __init__(self, entries, base=None, comps=()):
        if any(isinstance(e[1], EnumM) and e[1].isstr for e in entries.values()):
            # members of a str enumeration hash and compare as their string
            n = {}
            for k, (g, kk, x) in entries.items():
                if isinstance(kk, EnumM) and kk.isstr:
                    kk = kk.value
                n[kk.key] = (g, kk, x) if g is TRUE or kk.key not in n else (TRUE, kk, ite(g, x, n[kk.key][2]))
            entries = n
        self.entries, self.base, self.comps = entries, base, tuple(comps)


class HArr:
    __slots__ = ("shape", "data")

    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), tuple(data)


class HView:
    """an array that shares the cells idx (flat positions) of the array at addr"""

    __slots__ = ("shape", "addr", "idx")

    def __init__(self, shape, addr, idx):
        self.shape, self.addr, self.idx = tuple(shape), addr, tuple(idx)


class HBox:
    """a mutable cell holding an opaque (array) value"""

    __slots__ = ("val",)

    def __init__(self, val):
        self.val = val


class HOv:
    """attribute/item writes on an opaque object"""

    __slots__ = ("attrs", "items")

    def __init__(self, attrs, items):
        self.attrs, self.items = attrs, items


class State:
    __slots__ = ("heap", "pc", "events", "depth")

    def __init__(self, heap=None, pc=TRUE, events=(), depth=0):
        self.heap = heap if heap is not None else {}
        self.pc, self.events, self.depth = pc, tuple(events), depth

    def fork(self, cond=TRUE):
        return State(dict(self.heap), b_and(self.pc, cond), self.events, self.depth)

    def become(self, o):
        self.heap, self.pc, self.events, self.depth = o.heap, o.pc, o.events, o.depth


class Ctx:
    __slots__ = ("mod", "envs", "cls", "selfv", "fname", "file", "depth", "body", "outer")

    def __init__(self, mod, envs, cls, selfv, fname, file, depth):
        self.outer = None  # the scope around a comprehension
        self.body = None  # the block of the with statement, inside its context manager's generator
        self.mod, self.envs, self.cls, self.selfv, self.fname, self.file, self.depth = mod, envs, cls, selfv, fname, file, depth


class Out:
    def __init__(self):
        self.rets, self.brks, self.conts = [], [], []


class Event:
    __slots__ = ("guard", "name", "args", "kwargs", "result", "where", "loop")

    def __init__(self, guard, name, args, kwargs, result, where, loop=None):
        self.guard, self.name, self.args, self.kwargs, self.result, self.where, self.loop = guard, name, args, kwargs, result, where, loop

    def __repr__(self):
        return f"{self.name}{self.args}"


RECORD = Ext("metadata.Record")  # parsed metadata with exactly the given fields
BUILTIN_EXC = {n: o for n, o in vars(builtins).items() if isinstance(o, type) and issubclass(o, BaseException)}


class World:
    """Module table and base heap shared by all runs"""

    def __init__(self, root="/repo/src", package="aws"):
        self.root, self.package = root, package
        self.modules = {}
        self.base = {}
        self.naddr = 0
        self.contracts = {}
        self.funcs_seen = set()
        self.models = None
        self.closed_names = set()
        self.aliases = {}  # external names answered by a reference program

    def alloc(self):
        self.naddr += 1
        return self.naddr

    def module_file(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            return f if os.path.exists(f) else None
        f = p + ".py"
        return f if os.path.exists(f) else None

    def is_internal(self, name):
        if name.split(".")[0] != self.package:
            return False
        p = os.path.join(self.root, *name.split("."))
        return os.path.isdir(p) or os.path.exists(p + ".py")


class Interp:
    MAXDEPTH = 60

    def __init__(self, world):
        self.w = world
        self.pending = [[]]
        self.flags = set()
        self.max_unroll = 300
        self.max_while = 24
        self.trace_calls = []
        self.callstack = []
        self.frames = []
        self.memo_calls = {}
        self.notes = []
        from . import lib

        self.lib = lib

    # ------------------------------------------------------------ heap access
    def hget(self, st, addr):
        r = st.heap.get(addr)
        if r is None:
            r = self.w.base.get(addr)
        if r.__class__ is HView:
            b = self.hget(st, r.addr)
            if b.__class__ is HArr:
                d = b.data
                return HArr(r.shape, [d[i] for i in r.idx])
            return HBox(top("view of an array changed as a whole"))
        return r

    def hset(self, st, addr, obj):
        r = st.heap.get(addr) or self.w.base.get(addr)
        if r.__class__ is HView:
            b = self.hget(st, r.addr)
            if obj.__class__ is HArr and b.__class__ is HArr and len(obj.data) == len(r.idx):
                d = list(b.data)
                for i, x in zip(r.idx, obj.data):
                    d[i] = x
                self.hset(st, r.addr, HArr(b.shape, d))
                if obj.shape != r.shape:
                    st.heap[addr] = HView(obj.shape, r.addr, r.idx)
                return
            self.hset(st, r.addr, HBox(top("array changed through a view")))
            return
        st.heap[addr] = obj

    def view(self, st, ref, shape, idx):
        """a new array object sharing cells of the array ref"""
        r = st.heap.get(ref.addr) or self.w.base.get(ref.addr)
        if r.__class__ is HView:
            return self.new(st, HView(shape, r.addr, [r.idx[i] for i in idx]))
        return self.new(st, HView(shape, ref.addr, idx))

    def new(self, st, obj):
        a = self.w.alloc()
        st.heap[a] = obj
        return Ref(a)

    def new_list(self, st, items, kind="list"):
        return self.new(st, HList([(TRUE, i, None) for i in items], kind))

    def deref(self, st, val):
        return self.hget(st, val.addr) if isinstance(val, Ref) else None

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.w.modules.get(name)
        if m is not None:
            return m
        f = self.w.module_file(name)
        env = self.w.alloc()
        m = Obj(("mod", name), name=name, env=env, file=f)
        self.w.modules[name] = m
        st = State(self.w.base)
        st.heap[env] = HEnv({"__name__": K(name)})
        if f is None:
            return m
        with open(f) as fh:
            src = fh.read()
        return self._exec_module(m, env, st, src, f)

    def source_module(self, name, src):
        """a reference program given as text, evaluated by the same abstract semantics"""
        m = self.w.modules.get(name)
        if m is not None:
            return m
        env = self.w.alloc()
        m = Obj(("mod", name), name=name, env=env, file="<" + name + ">")
        self.w.modules[name] = m
        st = State(self.w.base)
        st.heap[env] = HEnv({"__name__": K(name)})
        return self._exec_module(m, env, st, src, m.file)

    def _exec_module(self, m, env, st, src, f):
        tree = desugar(ast.parse(src, f))
        if not any(isinstance(n, ast.ImportFrom) and any(x.name == "*" for x in n.names) for n in ast.walk(tree)):
            self.w.closed_names.add(m.name)
        ctx = Ctx(m, (env,), None, None, "<module>", f, 0)
        save = (self.pending, self.flags, Where.cur)
        self.pending, self.flags = [[]], set()
        try:
            self.exec_block(tree.body, st, ctx, Out())
        except Dead:
            pass
        finally:
            self.pending, self.flags, Where.cur = save
        if st.heap is not self.w.base:
            # a branch at module level replaced the heap: fold it back
            self.w.base.update(st.heap)
        return m

    def modattr(self, st, m, name):
        env = self.hget(st, m.env)
        r = env.vars.get(name)
        if r is not None:
            return r
        sub = m.name + "." + name
        if self.w.is_internal(sub):
            return self.module(sub)
        return None

    def lookup_qual(self, qual):
        """'aws.osml.photogrammetry.RPCSensorModel' -> value"""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:i])
            if self.w.is_internal(mn):
                m = self.module(mn)
                val = self.modattr(State(), m, parts[i])
                if val is None:
                    break
                for p in parts[i + 1 :]:
                    val = self.getattr(val, p, State(dict()), None)
                return val
        raise AnalysisError(f"public name {qual} not found in the analysed sources")

    # ------------------------------------------------------------ state merging
    def merge_val(self, c, a, b, care):
        if a.key == b.key:
            return a if not (isinstance(a, K) and isinstance(b, K) and a.kind != b.kind) else a
        return simplify(ite(c, a, b), care)

    def merge(self, s1, s2):
        """join of two states (or None)"""
        if s1 is None or s1.pc is FALSE:
            return s2
        if s2 is None or s2.pc is FALSE:
            return s1
        pc = b_or(s1.pc, s2.pc)
        sel = simplify(s1.pc, pc)
        heap = {}
        h1, h2 = s1.heap, s2.heap
        for a, o1 in h1.items():
            o2 = h2.get(a)
            if o2 is None:
                o2 = self.w.base.get(a)
            heap[a] = o1 if (o2 is None or o1 is o2) else self.merge_obj(sel, o1, o2, pc)
        for a, o2 in h2.items():
            if a not in h1:
                o1 = self.w.base.get(a)
                heap[a] = o2 if (o1 is None or o1 is o2) else self.merge_obj(sel, o1, o2, pc)
        n = 0
        e1, e2 = s1.events, s2.events
        while n < len(e1) and n < len(e2) and e1[n] is e2[n]:
            n += 1
        return State(heap, pc, e1[:n] + e1[n:] + e2[n:], s1.depth)

    def merge_obj(self, c, o1, o2, care):
        if type(o1) is not type(o2):
            return HBox(top("merge of different heap objects"))
        mv = lambda a, b: self.merge_val(c, a, b, care)
        if isinstance(o1, (HEnv, HInst, HOv)):
            d1 = o1.vars if isinstance(o1, HEnv) else o1.attrs
            d2 = o2.vars if isinstance(o2, HEnv) else o2.attrs
            keys = list(d1) + [k for k in d2 if k not in d1]
            if isinstance(o1, HOv):
                at = {}
                for k in keys:
                    at[k] = mv(d1.get(k, UNDEF), d2.get(k, UNDEF))
                ik = list(o1.items) + [k for k in o2.items if k not in o1.items]
                it = {}
                for k in ik:
                    e1, e2 = o1.items.get(k), o2.items.get(k)
                    kv = (e1 or e2)[0]
                    it[k] = (kv, mv(e1[1] if e1 else UNDEF, e2[1] if e2 else UNDEF))
                return HOv(at, it)
            d = {k: mv(d1.get(k, UNDEF), d2.get(k, UNDEF)) for k in keys}
            return HEnv(d) if isinstance(o1, HEnv) else HInst(o1.cls, d)
        if isinstance(o1, HList):
            e1, e2 = o1.entries, o2.entries
            n = 0
            out = []
            if len(e1) == len(e2) and all((x[2] is None) == (y[2] is None) for x, y in zip(e1, e2)) and all(
                x[0] is TRUE and y[0] is TRUE and x[2] is None for x, y in zip(e1, e2)
            ):
                return HList([(TRUE, mv(x[1], y[1]), None) for x, y in zip(e1, e2)], o1.kind)
            while n < len(e1) and n < len(e2) and e1[n][2] is e2[n][2] and e1[n][0].key == e2[n][0].key and (
                e1[n][1].key == e2[n][1].key or (e1[n][2] is None and e1[n][0] is TRUE)
            ):
                out.append((e1[n][0], mv(e1[n][1], e2[n][1]), e1[n][2]))
                n += 1
            nc = b_not(c)
            r1 = [(simplify(b_and(c, g), care), x, l) for g, x, l in e1[n:]]
            r2 = [(simplify(b_and(nc, g), care), x, l) for g, x, l in e2[n:]]
            return HList(out + r1 + r2, o1.kind)
        if isinstance(o1, HDict):
            ks = list(o1.entries) + [k for k in o2.entries if k not in o1.entries]
            d = {}
            nc = b_not(c)
            for k in ks:
                a, b = o1.entries.get(k), o2.entries.get(k)
                if a and b:
                    d[k] = (simplify(ite(c, a[0], b[0]), care), a[1], mv(a[2], b[2]))
                elif a:
                    d[k] = (simplify(b_and(c, a[0]), care), a[1], a[2])
                else:
                    d[k] = (simplify(b_and(nc, b[0]), care), b[1], b[2])
            base = o1.base if o1.base is o2.base or (o1.base is not None and o2.base is not None and o1.base.key == o2.base.key) else top("dict base merge")
            comps = o1.comps if o1.comps == o2.comps else o1.comps + tuple(x for x in o2.comps if x not in o1.comps)
            return HDict(d, base, comps)
        if isinstance(o1, HView):
            if o1.shape == o2.shape and o1.addr == o2.addr and o1.idx == o2.idx:
                return o1
            return HBox(top("merge of different views"))
        if isinstance(o1, HArr):
            if o1.shape == o2.shape:
                return HArr(o1.shape, [mv(a, b) for a, b in zip(o1.data, o2.data)])
            return HBox(top("merge of differently shaped arrays"))
        if isinstance(o1, HBox):
            return HBox(mv(o1.val, o2.val))
        return HBox(top("merge"))

    def split(self, val, st, fn):
        """run fn(leaf, state) for every leaf of val, joining states and results"""
        val = simplify(val, st.pc)
        if not isinstance(val, G):
            return fn(val, st)
        res_s, res_v = None, None
        for g, leaf in leaves(val):
            s = st.fork(g)
            if s.pc is FALSE:
                continue
            try:
                r = fn(leaf, s)
            except Dead:
                continue
            if res_s is None:
                res_s, res_v = s, r
            else:
                pc = b_or(res_s.pc, s.pc)
                sel = simplify(res_s.pc, pc)
                res_v = self.merge_val(sel, res_v, r, pc)
                res_s = self.merge(res_s, s)
        if res_s is None:
            st.pc = FALSE
            raise Dead()
        st.become(res_s)
        return res_v

    # ------------------------------------------------------------ raising
    def do_raise(self, st, exc, cond=TRUE):
        """record a raise under cond; the state continues under not cond"""
        s = st.fork(cond)
        if s.pc is FALSE:
            return
        self.pending[-1].append((s, exc, Where.cur))
        st.pc = b_and(st.pc, b_not(cond))
        if st.pc is FALSE:
            raise Dead()

    def mkexc(self, st, name, *args):
        return self.new(st, HInst(Ext("builtins." + name), {"args": Tup(args)}))

    def raise_builtin(self, st, name, cond=TRUE, *args):
        cond = simplify(cond, st.pc)
        if cond is FALSE:
            return
        self.do_raise(st, self.mkexc(st, name, *args), cond)

    def exc_matches(self, st, exc, cls):
        """True / False / None(unknown)"""
        o = self.deref(st, exc)
        ecls = o.cls if isinstance(o, HInst) else None
        if ecls is None:
            return None
        if isinstance(cls, Tup):
            rs = [self.exc_matches(st, exc, c) for c in cls.items]
            return True if True in rs else (None if None in rs else False)
        return self.subclass(ecls, cls)

    def subclass(self, c, d):
        if c.key == d.key:
            return True
        if isinstance(c, Ext):
            if isinstance(d, Ext):
                a, b = BUILTIN_EXC.get(c.name.split(".")[-1]), BUILTIN_EXC.get(d.name.split(".")[-1])
                if a is None and d.name in ("builtins.Exception", "builtins.BaseException"):
                    return True
                if a is None and c.name.endswith("LinAlgError"):
                    a = ValueError
                    if c.name == d.name:
                        return True
                if a and b:
                    return issubclass(a, b)
                return False if (a or b) else None
            return False
        if isinstance(c, Obj) and c.key[0] == "cls":
            return any(self.subclass(b, d) for b in c.bases)
        return None

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, ctx, out):
        """True if control falls through (st updated in place)"""
        for s in stmts:
            try:
                if not self.exec_stmt(s, st, ctx, out):
                    return False
            except Dead:
                return False
            if st.pc is FALSE:
                return False
        return True

    def at(self, node, ctx):
        Where.cur = (ctx.file, node.lineno, ctx.fname)

    def exec_stmt(self, s, st, ctx, out):
        self.at(s, ctx)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.notes.append(f"unsupported statement {type(s).__name__} at {ctx.file}:{s.lineno}")
            raise AnalysisError(f"unsupported statement {type(s).__name__} at {ctx.file}:{s.lineno}")
        r = m(s, st, ctx, out)
        return True if r is None else r

    def s_Expr(self, s, st, ctx, out):
        if isinstance(s.value, ast.Constant):
            return
        if ctx.body is not None and isinstance(s.value, ast.Yield):
            return ctx.body(NONE if s.value.value is None else self.ev(s.value.value, st, ctx), st)
        self.ev(s.value, st, ctx)

    def s_Pass(self, s, st, ctx, out):
        pass

    def s_Assert(self, s, st, ctx, out):
        c = self.cond(s.test, st, ctx)
        self.raise_builtin(st, "AssertionError", b_not(c))

    def s_Assign(self, s, st, ctx, out):
        val = self.ev(s.value, st, ctx)
        for t in s.targets:
            self.assign(t, val, st, ctx)

    def s_AnnAssign(self, s, st, ctx, out):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, ctx), st, ctx)

    def s_AugAssign(self, s, st, ctx, out):
        load = ast.copy_location(self.as_load(s.target), s.target)
        old = self.ev(load, st, ctx)
        rhs = self.ev(s.value, st, ctx)
        o = self.deref(st, old)
        if isinstance(o, HList) and isinstance(s.op, ast.Add):
            self.call(self.getattr(old, "extend", st, ctx), [rhs], {}, st, ctx)
            if not isinstance(s.target, ast.Name):
                self.assign(s.target, old, st, ctx)
            return
        new = self.binop(type(s.op).__name__, old, rhs, st)
        if isinstance(o, HArr):
            n = self.deref(st, new)
            if isinstance(n, HArr) and n.shape == o.shape:
                self.hset(st, old.addr, n)
                new = old
        elif isinstance(o, HBox):
            n = self.deref(st, new)
            self.hset(st, old.addr, HBox(n.val if isinstance(n, HBox) else new))
            new = old
        elif isinstance(old, T) and old.kind == "arr":
            self.log_event(st, "inplace", [old], {}, NONE)
        self.assign(s.target, new, st, ctx)

    def as_load(self, t):
        import copy

        n = copy.copy(t)
        n.ctx = ast.Load()
        return n

    def s_Delete(self, s, st, ctx, out):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(t.id, UNDEF, st, ctx)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, ctx)
                k = self.ev(t.slice, st, ctx)
                self.delitem(o, k, st)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st, ctx)
                self.setattr(o, t.attr, UNDEF, st, ctx)

    def delitem(self, o, k, st):
        h = self.deref(st, o)
        if isinstance(h, HDict):
            d = dict(h.entries)
            d.pop(k.key, None)
            self.hset(st, o.addr, HDict(d, h.base, h.comps))
        elif isinstance(h, HList):
            plain = all(g is TRUE and l is None for g, _, l in h.entries)
            sl = self.lib._sl(self, k, len(h.entries)) if isinstance(k, Obj) and k.key[0] == "slice" and plain else None
            c = self.lib.const_of(k) if plain and sl is None and not isinstance(k, Obj) else None
            if sl is None and c is None:
                self.hset(st, o.addr, HList([(TRUE, top("element removed"), None)], h.kind))
                return
            e = list(h.entries)
            if sl is not None:
                del e[slice(sl[0], sl[1] if sl[1] >= 0 else None, sl[2])]
            elif -len(e) <= int(c) < len(e):
                del e[int(c)]
            else:
                self.raise_builtin(st, "IndexError")
                raise Dead()
            self.hset(st, o.addr, HList(e, h.kind))
        elif isinstance(o, T):
            self.log_event(st, "delitem", [o, k], {}, NONE)

    def s_Return(self, s, st, ctx, out):
        val = self.ev(s.value, st, ctx) if s.value is not None else NONE
        out.rets.append((st.fork(), val))
        st.pc = FALSE
        return False

    def s_Raise(self, s, st, ctx, out):
        if s.exc is None:
            e = self.getvar("__current_exc__", st, ctx, soft=True)
            if e is None:
                e = self.mkexc(st, "RuntimeError")
        else:
            e = self.ev(s.exc, st, ctx)
            self.at(s, ctx)
            if (isinstance(e, Ext) or (isinstance(e, Obj) and e.key[0] == "cls")):
                e = self.call(e, [], {}, st, ctx)
            if not isinstance(e, Ref):
                e = self.mkexc(st, "Exception", e)
        self.do_raise(st, e)
        return False

    def s_If(self, s, st, ctx, out):
        c = self.cond(s.test, st, ctx)
        return self.branch(c, st, lambda x: self.exec_block(s.body, x, ctx, out), lambda x: self.exec_block(s.orelse, x, ctx, out))

    def branch(self, c, st, f1, f2):
        c = simplify(c, st.pc)
        if c is TRUE:
            return f1(st)
        if c is FALSE:
            return f2(st)
        s1, s2 = st.fork(c), st.fork(b_not(c))
        l1 = s1.pc is not FALSE and f1(s1)
        l2 = s2.pc is not FALSE and f2(s2)
        if l1 and l2:
            st.become(self.merge(s1, s2))
            return True
        if l1:
            st.become(s1)
            return True
        if l2:
            st.become(s2)
            return True
        st.pc = FALSE
        return False

    def s_For(self, s, st, ctx, out):
        it = self.ev(s.iter, st, ctx)
        return self.split_iter(it, s, st, ctx, out)

    def split_iter(self, it, s, st, ctx, out):
        it = simplify(it, st.pc)
        if isinstance(it, G):
            res = None
            for g, leaf in leaves(it):
                x = st.fork(g)
                if x.pc is FALSE:
                    continue
                if self.split_iter(leaf, s, x, ctx, out):
                    res = self.merge(res, x)
            if res is None:
                st.pc = FALSE
                return False
            st.become(res)
            return True
        d = self.iter_desc(it, st)
        if d[0] == "concrete":
            o = self.hget(st, it.addr) if isinstance(it, Ref) else None
            if isinstance(o, HList) and o.kind == "iter":
                return self.loop_concrete(self.drain(it.addr, st), s, st, ctx, out)
            return self.loop_concrete(d[1], s, st, ctx, out)
        return self.loop_opaque(d[1], d[2], s, st, ctx, out)

    def drain(self, addr, st):
        """the items of an iterator, each removed from it before it is used"""
        while st.pc is not FALSE:
            o = self.hget(st, addr)
            if not o.entries or any(l is not None for _, _, l in o.entries):
                return
            g, x, _ = o.entries[0]
            st.heap[addr] = HList(o.entries[1:], o.kind)
            g = simplify(g, st.pc)
            if g is not FALSE:
                yield g, x

    def loop_concrete(self, items, s, st, ctx, out):
        brk = []
        for g, item in items:
            if g is not TRUE:
                skip = st.fork(b_not(g))
                st.pc = b_and(st.pc, g)
                if st.pc is FALSE:
                    st.become(skip)
                    continue
            else:
                skip = None
            inner = Out()
            self.assign(s.target, item, st, ctx)
            live = self.exec_block(s.body, st, ctx, inner)
            out.rets.extend(inner.rets)
            brk.extend(inner.brks)
            cur = st.fork() if live else None
            for c in inner.conts:
                cur = self.merge(cur, c)
            if skip is not None and skip.pc is not FALSE:
                cur = self.merge(cur, skip)
            if cur is None:
                st.pc = FALSE
                break
            st.become(cur)
        res = st.fork() if st.pc is not FALSE else None
        if s.orelse and res is not None:
            if not self.exec_block(s.orelse, res, ctx, out):
                res = None
        for b in brk:
            res = self.merge(res, b)
        if res is None:
            st.pc = FALSE
            return False
        st.become(res)
        return True

    # ---- opaque loops
    def loop_opaque(self, count, itemf, s, st, ctx, out):
        def body(x, i):
            inner = Out()
            self.assign(s.target, itemf(i, x), x, ctx)
            live = self.exec_block(s.body, x, ctx, inner)
            return live, inner

        return self.summarise(count, body, st, ctx, out, where=s, orelse=s.orelse)

    def cells(self, heap):
        """addressable scalar cells of a heap: (addr, field) -> value"""
        for a, o in heap.items():
            if isinstance(o, HEnv):
                for k, x in o.vars.items():
                    yield (a, k), x
            elif isinstance(o, HInst):
                for k, x in o.attrs.items():
                    yield (a, k), x
            elif isinstance(o, HBox):
                yield (a, None), o.val
            elif isinstance(o, HArr):
                for j, x in enumerate(o.data):
                    yield (a, j), x

    def setcell(self, st, cell, val):
        a, k = cell
        o = self.hget(st, a)
        if isinstance(o, HEnv):
            d = dict(o.vars)
            d[k] = val
            st.heap[a] = HEnv(d)
        elif isinstance(o, HInst):
            d = dict(o.attrs)
            d[k] = val
            st.heap[a] = HInst(o.cls, d)
        elif isinstance(o, HBox):
            st.heap[a] = HBox(val)
        elif isinstance(o, HArr):
            d = list(o.data)
            d[k] = val
            st.heap[a] = HArr(o.shape, d)

    def summarise(self, count, body, st, ctx, out, where, orelse=None, whilecond=None):
        depth = st.depth
        i = T("bv", (K(depth),), v.f_hash("bv", depth), "i")
        base = st.fork()
        targets = set()

        def run(phis):
            x = base.fork()
            x.depth = depth + 1
            x.events = ()
            for cell, p in phis.items():
                self.setcell(x, cell, p)
            self.pending.append([])
            wc = TRUE
            if whilecond is not None:
                wc = whilecond(x)
                x.pc = b_and(x.pc, wc)
            try:
                live, inner = body(x, i)
            finally:
                raises = self.pending.pop()
            s2 = x if live else None
            for c in inner.conts:
                s2 = self.merge(s2, c)
            return s2, inner, raises, wc

        # which cells does the body change?
        phis = {}
        inits = dict()
        for rnd in range(8):
            s2, inner, raises, wc = run(phis)
            ch = {}
            states = [s2] if s2 is not None else []
            states += [b for b in inner.brks]
            for sx in states:
                for cell, x in self.cells(sx.heap):
                    a, k = cell
                    o = self.hget(base, a)
                    if o is None:
                        continue  # allocated inside
                    old = self._cellval(o, k)
                    if old is None:
                        continue
                    if cell in phis:
                        if cell in inits:
                            ch[cell] = x
                        continue
                    if old.key != x.key and not isinstance(old, (Obj, Ext)):
                        ch[cell] = x
            newcells = [c for c in ch if c not in phis]
            if not newcells:
                break
            for c in newcells:
                a, k = c
                init = self._cellval(self.hget(base, a), k)
                inits[c] = init
                phis[c] = T("phi", (K(depth), init), v.f_hash("phi", depth, vnof(count), vnof(self.freeze(init, base))), self._phikind(init))
        # refine colours so that two carried variables with equal initial values differ
        for rnd in range(2):
            if len(phis) < 2:
                break
            s2, inner, raises, wc = run(phis)
            if s2 is None:
                break
            np_ = {}
            for c, p in phis.items():
                a, k = c
                upd = self._cellval(self.hget(s2, a), k)
                np_[c] = T("phi", p.args, v.f_hash("phi", p.vn, vnof(self.freeze(upd, s2)) if upd is not None else 0), p.kind)
            phis = np_
        if phis:
            s2, inner, raises, wc = run(phis)
        # returns and raises out of the loop
        any_exit = FALSE
        entry_pc = base.pc

        def rel(pc):
            return simplify(pc, entry_pc)

        for rs, val in inner.rets:
            g = rel(rs.pc)
            fv = self.freeze(val, rs)
            c = bvar(CV.get("some", (vnof(count), g.key), (count, g))) if g is not TRUE else v.lt(K(0), count)
            val2 = self._first(count, g, val, fv, rs, i)
            r = base.fork(b_and(c, b_not(any_exit)))
            self._adopt(r, rs, base, count, g, phis)
            out.rets.append((r, val2))
            any_exit = b_or(any_exit, c)
        for rs, exc, wh in raises:
            g = rel(rs.pc)
            c = bvar(CV.get("some", (vnof(count), g.key), (count, g))) if g is not TRUE else v.lt(K(0), count)
            r = base.fork(c)
            for a, o in rs.heap.items():
                if self.hget(r, a) is None:
                    r.heap[a] = o
            self.pending[-1].append((r, exc, wh))
            any_exit = b_or(any_exit, c)
        # normal exit
        res = base.fork(b_not(any_exit))
        allst = ([s2] if s2 is not None else []) + list(inner.brks)
        brk_guard = FALSE
        for b in inner.brks:
            brk_guard = b_or(brk_guard, rel(b.pc))
        if wc is not TRUE:
            desc = self.freeze_bool(simplify(wc, entry_pc))
            count = term("whilecount", desc, kind="i")
        if brk_guard is not FALSE:
            count = term("untilcount", count, self.freeze_bool(brk_guard), kind="i")
        m = None
        for sx in allst:
            m = self.merge(m, sx)
        if m is not None:
            for c, p in phis.items():
                a, k = c
                upd = self._cellval(self.hget(m, a), k)
                if upd is None:
                    continue
                self.setcell(res, c, self._fold(count, inits[c], p, upd, m))
            for a, o in m.heap.items():
                old = self.hget(base, a)
                if old is None:
                    res.heap[a] = o
                    continue
                if old is o:
                    continue
                if isinstance(o, HList) and isinstance(old, HList):
                    res.heap[a] = self._list_summary(count, old, o, m, entry_pc)
                elif isinstance(o, HDict) and isinstance(old, HDict):
                    res.heap[a] = self._dict_summary(count, old, o, m, entry_pc)
                elif isinstance(o, HOv):
                    items = dict(old.items) if isinstance(old, HOv) else {}
                    attrs = dict(o.attrs)
                    for kk, (kv, x) in o.items.items():
                        items[kk] = (kv, x)
                    res.heap[a] = HOv(attrs, items)
                elif isinstance(o, HEnv) and isinstance(old, HEnv):
                    d = dict(self.hget(res, a).vars)
                    for k, x in o.vars.items():
                        if k not in old.vars or old.vars[k] is UNDEF:
                            d[k] = x  # last iteration's value
                    res.heap[a] = HEnv(d)
                elif isinstance(o, HInst) and isinstance(old, HInst):
                    d = dict(self.hget(res, a).attrs)
                    for k, x in o.attrs.items():
                        if k not in old.attrs:
                            d[k] = x
                    res.heap[a] = HInst(o.cls, d)
                elif isinstance(o, HBox) and not isinstance(old, HBox):
                    res.heap[a] = HBox(term("loop", count, self.freeze(o.val, m)))
            for e in m.events:
                res.events = res.events + (Event(b_and(entry_pc, e.guard), e.name, e.args, e.kwargs, e.result, e.where, count),)
        for rs, _ in inner.rets:
            for e in rs.events:
                res.events = res.events + (Event(b_and(entry_pc, e.guard), e.name, e.args, e.kwargs, e.result, e.where, count),)
        if orelse and res.pc is not FALSE:
            if not self.exec_block(orelse, res, ctx, out):
                res.pc = FALSE
        if res.pc is FALSE:
            st.pc = FALSE
            return False
        st.become(res)
        st.depth = depth
        return True

    def _adopt(self, r, rs, base, count, g, phis):
        for a, o in rs.heap.items():
            if self.hget(base, a) is None:
                r.heap[a] = o
        r.events = r.events + tuple(rs.events)

    def _first(self, count, g, val, fv, rs, i):
        if isinstance(val, K):
            return val
        if isinstance(val, T) or isinstance(val, Tup):
            return term("first", count, self.freeze_bool(g), fv)
        return val

    def _phikind(self, init):
        k = getattr(init, "kind", "?")
        return k if k in ("i", "f", "num") else "?"

    def _cellval(self, o, k):
        if isinstance(o, HEnv):
            return o.vars.get(k)
        if isinstance(o, HInst):
            return o.attrs.get(k)
        if isinstance(o, HBox):
            return o.val
        if isinstance(o, HArr) and isinstance(k, int):
            return o.data[k] if k < len(o.data) else None
        return None

    def _fold(self, count, init, phi, upd, m):
        if isinstance(upd, G):
            # accumulate under a condition, min / max idioms
            pass
        d = None
        if isinstance(upd, (T, K)) and (upd.is_num if isinstance(upd, K) else True) and not isinstance(upd, G):
            d = v.sub(upd, phi)
            if not self.mentions(d, phi):
                return v.add(init, self.sumterm(count, d))
        if isinstance(upd, G):
            ls = [l for _, l in leaves(upd)]
            if any(l.key == phi.key for l in ls) and all(isinstance(l, (T, K)) for l in ls):
                ds = apply1(lambda l: v.sub(l, phi), upd)
                if not self.mentions(ds, phi):
                    return v.add(init, self.sumterm(count, ds))
        return term("fold", count, self.freeze(init, m), self.freeze(upd, m))

    def sumterm(self, count, d):
        """sum over a generic iteration of d (which may mention the bound variable)"""
        c = v.const_of(d)
        if c is not None:
            return v.mul(count, d)
        return term("sum", count, d, kind="num")

    def mentions(self, x, t, seen=None):
        seen = set() if seen is None else seen
        if x.key in seen:
            return False
        seen.add(x.key)
        if x.key == t.key:
            return True
        if isinstance(x, T):
            return any(self.mentions(a, t, seen) for a in x.args)
        if isinstance(x, G):
            args = x.var.arg if isinstance(x.var.arg, (tuple, list)) else (x.var.arg,)
            return any(self.mentions(a, t, seen) for a in args if isinstance(a, V)) or self.mentions(x.hi, t, seen) or self.mentions(x.lo, t, seen)
        if isinstance(x, Tup):
            return any(self.mentions(a, t, seen) for a in x.items)
        return False

    def _list_summary(self, count, old, new, m, entry_pc):
        n = len(old.entries)
        if len(new.entries) >= n and all(a[1].key == b[1].key for a, b in zip(old.entries, new.entries)):
            ext = []
            for g, x, l in new.entries[n:]:
                g = simplify(b_and(g, m.pc), entry_pc)
                ext.append((g, x, (count,) + (l or ())))
            return HList(old.entries + tuple(ext), old.kind)
        return HList(old.entries + ((TRUE, top("list rewritten in a loop"), (count,)),), old.kind)

    def _dict_summary(self, count, old, new, m, entry_pc):
        comps = list(new.comps)
        d = dict(old.entries)
        for k, e in new.entries.items():
            o = old.entries.get(k)
            if o is not None and o[2].key == e[2].key and o[0].key == e[0].key:
                continue
            comps.append((count, simplify(b_and(e[0], m.pc), entry_pc), e[1], e[2]))
        return HDict(d, old.base, comps)

    def counted_while(self, s, st, ctx):
        """(counter, limit expression, body) of a loop `while c < limit: ...; c += 1` whose limit does not change"""
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and s.body):
            return None
        l, r, op = t.left, t.comparators[0], type(t.ops[0])
        if op in (ast.Gt, ast.GtE):
            l, r, op = r, l, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
        if op is ast.NotEq and isinstance(r, ast.Name) and not isinstance(l, ast.Name):
            l, r = r, l
        if op not in (ast.Lt, ast.LtE) or not isinstance(l, ast.Name):
            return None
        c, last = l.id, s.body[-1]
        one = lambda e: isinstance(e, ast.Constant) and e.value == 1 and not isinstance(e.value, bool)
        me = lambda e: isinstance(e, ast.Name) and e.id == c
        if isinstance(last, ast.AugAssign):
            ok = me(last.target) and isinstance(last.op, ast.Add) and one(last.value)
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add):
            b = last.value
            ok = me(last.targets[0]) and (me(b.left) and one(b.right) or one(b.left) and me(b.right))
        else:
            ok = False
        if not ok:
            return None
        body = s.body[:-1]
        stored, touched = set(), set()
        for q in body:
            for n in ast.walk(q):
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                    stored.add(n.id)
                elif isinstance(n, ast.Continue):
                    return None
                elif isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                    touched.add(n.value.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                    touched.add(n.func.value.id)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    return None
        if c in stored:
            return None
        for n in ast.walk(r):
            if isinstance(n, ast.Name):
                if n.id in stored or n.id == c:
                    return None
            elif isinstance(n, ast.Attribute):
                if isinstance(n.value, ast.Name) and n.value.id in touched:
                    return None
            elif isinstance(n, ast.Call):
                if not (isinstance(n.func, ast.Name) and n.func.id in ("len", "int", "min", "max")):
                    return None
                if any(isinstance(a, ast.Name) and a.id in touched for a in n.args):
                    return None
            elif not isinstance(n, (ast.Constant, ast.BinOp, ast.operator, ast.expr_context, ast.UnaryOp, ast.unaryop)):
                return None
        lo = self.getvar(c, st, ctx, soft=True)
        if lo is None or isinstance(lo, G):
            return None
        hi = simplify(self.ev(r, st, ctx), st.pc)
        if not all(isinstance(x, (T, K)) for _, x in leaves(hi)) or all(v.const_of(x) is not None for _, x in leaves(hi)):
            return None
        if isinstance(lo, (T, K)) and v.const_of(lo) is None and getattr(lo, "kind", "") != "i":
            return None
        return c, lo, (v.add(hi, K(1)) if op is ast.LtE else hi), body

    def s_While(self, s, st, ctx, out):
        cw = self.counted_while(s, st, ctx)
        if cw is not None:
            c, lo, hi, body = cw
            loop = ast.copy_location(ast.For(target=ast.Name(c, ast.Store()), iter=s.test, body=body or [ast.Pass()], orelse=[]), s)
            ast.fix_missing_locations(loop)
            rng = self.call(Ext("builtins.range"), [lo, hi], {}, st, ctx)
            brk = any(isinstance(n, ast.Break) for q in body for n in ast.walk(q))
            live = self.split_iter(rng, loop, st, ctx, out)
            if live and not brk:
                self.setvar(c, v.ite(v.lt(lo, hi), hi, lo), st, ctx)
            return live
        start = st.fork()
        saved_pending = list(self.pending[-1])
        brk = []
        n = 0
        rets = []
        while True:
            c = self.cond(s.test, st, ctx)
            c = simplify(c, st.pc)
            if c is FALSE:
                break
            n += 1
            if (c is not TRUE and n > self.max_while) or n > self.max_unroll:
                return self.while_opaque(s, start, saved_pending, st, ctx, out)
            exitst = st.fork(b_not(c)) if c is not TRUE else None
            if exitst is not None and exitst.pc is not FALSE:
                brk.append((exitst, False))
            st.pc = b_and(st.pc, c)
            inner = Out()
            live = self.exec_block(s.body, st, ctx, inner)
            rets.extend(inner.rets)
            brk.extend((b, True) for b in inner.brks)
            cur = st.fork() if live else None
            for k in inner.conts:
                cur = self.merge(cur, k)
            if cur is None:
                st.pc = FALSE
                break
            st.become(cur)
        out.rets.extend(rets)
        res = st.fork() if st.pc is not FALSE else None
        for b, _ in reversed(brk):
            res = self.merge(res, b)
        if res is None:
            st.pc = FALSE
            return False
        st.become(res)
        return True

    def while_opaque(self, s, start, saved_pending, st, ctx, out):
        self.pending[-1][:] = saved_pending
        st.become(start)

        def body(x, i):
            inner = Out()
            return self.exec_block(s.body, x, ctx, inner), inner

        return self.summarise(K(-1), body, st, ctx, out, where=s, whilecond=lambda x: self.cond(s.test, x, ctx))

    def s_Break(self, s, st, ctx, out):
        out.brks.append(st.fork())
        st.pc = FALSE
        return False

    def s_Continue(self, s, st, ctx, out):
        out.conts.append(st.fork())
        st.pc = FALSE
        return False

    def s_Try(self, s, st, ctx, out):
        self.pending.append([])
        inner = Out()
        try:
            live = self.exec_block(s.body, st, ctx, inner)
        finally:
            raises = self.pending.pop()
        if live and s.orelse:
            if s.finalbody:
                self.pending.append([])
            live = self.exec_block(s.orelse, st, ctx, inner)
            if s.finalbody:
                raises_else = self.pending.pop()
            else:
                raises_else = []
        else:
            raises_else = []
        cur = st.fork() if live else None
        if s.finalbody:
            self.pending.append([])
        remaining = raises
        for h in s.handlers:
            matched, rest = [], []
            for r in remaining:
                ok = True
                if h.type is not None:
                    cls = self.ev(h.type, r[0], ctx)
                    ok = self.exc_matches(r[0], r[1], cls)
                if ok:
                    matched.append(r)
                elif ok is None:
                    matched.append(r)
                else:
                    rest.append(r)
            remaining = rest
            if not matched:
                continue
            hs, hv = None, None
            for rs, exc, wh in matched:
                if hs is None:
                    hs, hv = rs, exc
                else:
                    pc = b_or(hs.pc, rs.pc)
                    hv = self.merge_val(simplify(hs.pc, pc), hv, exc, pc)
                    hs = self.merge(hs, rs)
            self.setvar("__current_exc__", hv, hs, ctx)
            if h.name:
                self.setvar(h.name, hv, hs, ctx)
            if self.exec_block(h.body, hs, ctx, inner):
                cur = self.merge(cur, hs)
        if s.finalbody:
            raises2 = self.pending.pop() + raises_else + remaining

            def fin(x):
                o = Out()
                ok = self.exec_block(s.finalbody, x, ctx, o)
                out.rets.extend(o.rets)
                return ok

            if cur is not None and not fin(cur):
                cur = None
            for rs, val in inner.rets:
                if fin(rs):
                    out.rets.append((rs, val))
            for x in inner.brks:
                if fin(x):
                    out.brks.append(x)
            for x in inner.conts:
                if fin(x):
                    out.conts.append(x)
            for rs, exc, wh in raises2:
                if fin(rs):
                    self.pending[-1].append((rs, exc, wh))
        else:
            out.rets.extend(inner.rets)
            out.brks.extend(inner.brks)
            out.conts.extend(inner.conts)
            self.pending[-1].extend(remaining)
        if cur is None:
            st.pc = FALSE
            return False
        st.become(cur)
        return True

    def s_With(self, s, st, ctx, out):
        return self.with_items(s.items, s.body, st, ctx, out)

    def with_items(self, items, body, st, ctx, out):
        if not items:
            return self.exec_block(body, st, ctx, out)
        it = items[0]
        cm = self.ev(it.context_expr, st, ctx)
        if isinstance(cm, Obj) and cm.key[0] == "cmcall":
            return self.with_generator(cm, it, items[1:], body, st, ctx, out)
        if isinstance(cm, T) and cm.op == "x:contextlib.suppress":
            return self.with_suppress(cm, items[1:], body, st, ctx, out)
        ent = self.call(self.getattr(cm, "__enter__", st, ctx), [], {}, st, ctx)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ent, st, ctx)
        self.pending.append([])
        inner = Out()
        live = self.with_items(items[1:], body, st, ctx, inner)
        raises = self.pending.pop()
        cur = st.fork() if live else None

        def leave(x, exc=None):
            args = [NONE, NONE, NONE] if exc is None else [term("exctype"), exc, term("traceback")]
            try:
                return self.call(self.getattr(cm, "__exit__", x, ctx), args, {}, x, ctx)
            except Dead:
                x.pc = FALSE
                return NONE

        if cur is not None:
            leave(cur)
            if cur.pc is FALSE:
                cur = None
        for rs, val in inner.rets:
            leave(rs)
            if rs.pc is not FALSE:
                out.rets.append((rs, val))
        for x in inner.brks:
            leave(x)
            out.brks.append(x)
        for x in inner.conts:
            leave(x)
            out.conts.append(x)
        for rs, exc, wh in raises:
            r = leave(rs, exc)
            if rs.pc is FALSE:
                continue
            if isinstance(r, K) and not r.val:
                self.pending[-1].append((rs, exc, wh))
            else:
                t = simplify(self.truth(r, rs), rs.pc)
                sw = rs.fork(t)
                rs.pc = b_and(rs.pc, b_not(t))
                if rs.pc is not FALSE:
                    self.pending[-1].append((rs, exc, wh))
                if sw.pc is not FALSE and not isinstance(r, T):
                    cur = self.merge(cur, sw)
        if cur is None:
            st.pc = FALSE
            return False
        st.become(cur)
        return True

    def with_suppress(self, cm, items, body, st, ctx, out):
        self.pending.append([])
        try:
            live = self.with_items(items, body, st, ctx, out)
        finally:
            raises = self.pending.pop()
        cur = st.fork() if live is not False and st.pc is not FALSE else None
        for r in raises:
            if any(self.exc_matches(r[0], r[1], c) is not False for c in cm.args):
                cur = self.merge(cur, r[0])
            else:
                self.pending[-1].append(r)
        if cur is None:
            st.pc = FALSE
            return False
        st.become(cur)
        return True

    def with_generator(self, cm, it, items, body, st, ctx, out):
        """with f(...) as x: f is a generator under contextlib.contextmanager.
        The block runs where f yields; how it was left is kept until f ends."""
        cell = self.w.alloc()
        st.heap[cell] = HEnv({"how": K(0), "value": NONE})

        def run(val, s):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, s, ctx)
            inner = Out()
            live = self.with_items(items, body, s, ctx, inner)
            cur = s.fork() if live is not False and s.pc is not FALSE else None
            for how, left in ((1, inner.rets), (2, [(x, NONE) for x in inner.brks]), (3, [(x, NONE) for x in inner.conts])):
                for x, value in left:
                    if x.pc is FALSE:
                        continue
                    x.heap[cell] = HEnv({"how": K(how), "value": value})
                    cur = self.merge(cur, x)
            if cur is None:
                s.pc = FALSE
                return False
            s.become(cur)
            return True

        try:
            self.call_fn(cm.fn, cm.args, cm.kw, st, ctx, body=run)
        except Dead:
            st.pc = FALSE
            return False
        env = self.hget(st, cell)
        for how, to in ((1, out.rets), (2, out.brks), (3, out.conts)):
            c = simplify(self.lib.equals(self, env.vars["how"], K(how), st, ctx), st.pc)
            if c is FALSE:
                continue
            x = st.fork(c)
            to.append((x, simplify(env.vars["value"], x.pc)) if how == 1 else x)
            st.pc = b_and(st.pc, b_not(c))
        return st.pc is not FALSE

    def s_Import(self, s, st, ctx, out):
        for a in s.names:
            if self.w.is_internal(a.name):
                m = self.module(a.name)
                if a.asname:
                    self.setvar(a.asname, m, st, ctx)
                else:
                    self.setvar(a.name.split(".")[0], self.module(a.name.split(".")[0]), st, ctx)
            else:
                if a.asname:
                    self.setvar(a.asname, Ext(self.lib.canon(a.name)), st, ctx)
                else:
                    self.setvar(a.name.split(".")[0], Ext(self.lib.canon(a.name.split(".")[0])), st, ctx)

    def s_ImportFrom(self, s, st, ctx, out):
        base = s.module or ""
        if s.level:
            pk = ctx.mod.name.split(".")
            isinit = ctx.file.endswith("__init__.py")
            drop = s.level - (1 if isinit else 0)
            pk = pk[: len(pk) - drop] if drop else pk
            base = ".".join(pk + ([s.module] if s.module else []))
        for a in s.names:
            nm = a.asname or a.name
            if self.w.is_internal(base) or base == self.w.package:
                m = self.module(base)
                if a.name == "*":
                    for k, x in self.hget(st, m.env).vars.items():
                        if not k.startswith("_"):
                            self.setvar(k, x, st, ctx)
                    continue
                x = self.modattr(st, m, a.name)
                if x is None:
                    x = term("missing-import", K(base + "." + a.name))
                self.setvar(nm, x, st, ctx)
            else:
                self.setvar(nm, self.lib.ext_attr(self, Ext(self.lib.canon(base + "." + a.name)), st), st, ctx)

    def s_Global(self, s, st, ctx, out):
        env = self.hget(st, ctx.envs[0])
        d = dict(env.vars)
        d["__globals__"] = Tup(list(d.get("__globals__", Tup(())).items) + [K(n) for n in s.names])
        st.heap[ctx.envs[0]] = HEnv(d)

    def s_Nonlocal(self, s, st, ctx, out):
        env = self.hget(st, ctx.envs[0])
        d = dict(env.vars)
        d["__nonlocal__"] = Tup(list(d.get("__nonlocal__", Tup(())).items) + [K(n) for n in s.names])
        st.heap[ctx.envs[0]] = HEnv(d)

    def s_FunctionDef(self, s, st, ctx, out):
        f = self.mkfunc(s, st, ctx, s.name)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, st, ctx)
        self.setvar(s.name, f, st, ctx)

    def mkfunc(self, node, st, ctx, name):
        a = node.args
        defaults = [self.ev(d, st, ctx) for d in a.defaults]
        kwd = [self.ev(d, st, ctx) if d is not None else None for d in a.kw_defaults]
        gen = False
        if not isinstance(node, ast.Lambda):
            gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in self.walk_own(node))
        return Obj(
            ("fn", ctx.file, node.lineno, node.col_offset, name, ctx.envs),
            node=node,
            envs=ctx.envs,
            mod=ctx.mod,
            cls=ctx.cls,
            name=name,
            defaults=defaults,
            kwd=kwd,
            file=ctx.file,
            gen=gen,
        )

    def walk_own(self, node):
        todo = list(node.body)
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            for c in ast.iter_child_nodes(n):
                if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                    todo.append(c)

    def decorate(self, d, f, st, ctx):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            old = self.ev(d.value, st, ctx)
            if d.attr == "setter":
                return Obj(("prop", f.key), fget=old.fget, fset=f)
            return Obj(("prop", f.key), fget=f, fset=getattr(old, "fset", None))
        dv = self.ev(d, st, ctx)
        nm = dv.name if isinstance(dv, Ext) else None
        if nm in ("builtins.property", "functools.cached_property", "abc.abstractproperty"):
            return Obj(("prop", f.key), fget=f, fset=None)
        if nm == "builtins.staticmethod":
            return Obj(("static", f.key), fn=f)
        if nm == "builtins.classmethod":
            return Obj(("classm", f.key), fn=f)
        if nm in ("abc.abstractmethod", "typing.overload", "typing.no_type_check", "typing.final", "functools.wraps"):
            if nm == "abc.abstractmethod":
                f.abstract = True
            return f
        if nm in ("dataclasses.dataclass", "functools.total_ordering"):
            return self.lib.make_dataclass(self, f, st) if nm.endswith("dataclass") else f
        if nm in ("functools.lru_cache", "functools.cache") or isinstance(dv, T) and dv.op == "x:functools.lru_cache":
            # the same object is returned again for equal arguments
            m = self.source_module("lru_cache", LRU)
            return self.call(self.modattr(st, m, "remember"), [f], {}, st, ctx)
        if isinstance(dv, T) and dv.op in ("x:cachetools.cachedmethod", "x:cachetools.cached", "x:functools.wraps"):
            f.cached = dv
            return f
        if isinstance(dv, T) and dv.op == "x:dataclasses.dataclass":
            return self.lib.make_dataclass(self, f, st)
        if nm == "contextlib.contextmanager" and isinstance(f, Obj) and f.key[0] == "fn":
            f.ctxmgr = True
            return f
        if isinstance(dv, Obj) and dv.key[0] == "fn":
            return self.call(dv, [f], {}, st, ctx)
        return term("decorated", dv, f)

    def s_ClassDef(self, s, st, ctx, out):
        bases = [self.ev(b, st, ctx) for b in s.bases]
        env = self.w.alloc()
        cls = Obj(("cls", ctx.mod.name, s.name, ctx.file, s.lineno), name=s.name, bases=bases, env=env, mod=ctx.mod, file=ctx.file, line=s.lineno, fields=None, enum=None)
        st.heap[env] = HEnv({"__qualname__": K(s.name), "__annotations__": Tup(())})
        c2 = Ctx(ctx.mod, (env,) + ctx.envs, cls, None, s.name, ctx.file, ctx.depth)
        anns = []
        for x in s.body:
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                anns.append((x.target.id, x))
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                continue
            self.exec_block([x], st, c2, Out())
        cls.anns = anns
        cls.envs_outer = ctx.envs
        if self.lib.is_enum(self, cls):
            self.lib.make_enum(self, cls, st)
        if self.lib.is_namedtuple_cls(self, cls):
            self.lib.make_nt(self, cls, st)
        r = cls
        for d in reversed(s.decorator_list):
            r = self.decorate(d, r, st, ctx)
        self.setvar(s.name, r, st, ctx)

    # ------------------------------------------------------------ variables
    def setvar(self, name, val, st, ctx):
        a = ctx.envs[0]
        env = self.hget(st, a)
        g = env.vars.get("__globals__")
        if g is not None and any(k.val == name for k in g.items):
            a = ctx.mod.env
            env = self.hget(st, a)
        nl = env.vars.get("__nonlocal__")
        if nl is not None and any(k.val == name for k in nl.items):
            for b in ctx.envs[1:]:
                e = self.hget(st, b)
                if name in e.vars:
                    a, env = b, e
                    break
        d = dict(env.vars)
        d[name] = val
        st.heap[a] = HEnv(d)

    def getvar(self, name, st, ctx, soft=False):
        incls = ctx.cls is not None
        for n, a in enumerate(ctx.envs):
            env = self.hget(st, a)
            if env is None:
                continue
            r = env.vars.get(name)
            if r is not None and r is not UNDEF:
                if isinstance(r, G):
                    return self.drop_undef(r, st, "UnboundLocalError")
                return r
        menv = self.hget(st, ctx.mod.env)
        r = menv.vars.get(name)
        if r is not None:
            return r
        if hasattr(builtins, name):
            return Ext("builtins." + name)
        if soft:
            return None
        if not self.star_import(ctx.mod):
            self.raise_builtin(st, "NameError", TRUE)
            raise Dead()
        return top("undefined name " + name)

    def star_import(self, mod):
        return mod.name not in self.w.closed_names

    def drop_undef(self, r, st, exc):
        r = simplify(r, st.pc)
        if not isinstance(r, G):
            if r is UNDEF:
                self.raise_builtin(st, exc)
                raise Dead()
            return r
        g = apply1(lambda x: TRUE if x is UNDEF or x.key == UNDEF.key else FALSE, r)
        if g is FALSE:
            return r
        if "strict" in self.flags:
            self.raise_builtin(st, exc, g)
            return simplify(r, st.pc)
        return simplify(r, b_not(g))

    def assign(self, t, val, st, ctx):
        if isinstance(t, ast.Name):
            self.setvar(t.id, val, st, ctx)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, ctx)
            self.at(t, ctx)
            self.split(o, st, lambda x, s: self.setattr(x, t.attr, val, s, ctx) or NONE)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, ctx)
            k = self.ev(t.slice, st, ctx)
            self.at(t, ctx)
            self.split(o, st, lambda x, s: self.lib.setitem(self, x, k, val, s, ctx) or NONE)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                items = self.items_of(val, st)
                if items is None:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, top("star unpack"), st, ctx)
                    return
                i = stars[0]
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, st, ctx)
                self.assign(t.elts[i].value, self.new_list(st, items[i : len(items) - after]), st, ctx)
                for e, x in zip(t.elts[i + 1 :], items[len(items) - after :]):
                    self.assign(e, x, st, ctx)
                return
            vals = self.unpack(val, len(t.elts), st)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st, ctx)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, val, st, ctx)
        else:
            raise AnalysisError("assignment target")

    def unpack(self, val, n, st):
        val = simplify(val, st.pc)
        if isinstance(val, G):
            # componentwise gates
            comps = [[] for _ in range(n)]
            parts = {}

            def get(leaf):
                k = leaf.key
                if k not in parts:
                    parts[k] = self.unpack(leaf, n, st)
                return parts[k]

            return [apply1(lambda l, j=j: get(l)[j], val) for j in range(n)]
        items = self.items_of(val, st)
        if items is not None:
            if len(items) != n:
                if "strict" in self.flags:
                    self.raise_builtin(st, "ValueError")
                return [top("unpack length mismatch") for _ in range(n)]
            return items
        return [self.lib.getitem(self, val, K(j), st, None) for j in range(n)]

    def items_of(self, val, st):
        """concrete element list or None"""
        if isinstance(val, G):
            return None
        d = self.iter_desc(val, st)
        if d[0] == "concrete" and all(g is TRUE for g, _ in d[1]):
            return [x for _, x in d[1]]
        return None

    # ------------------------------------------------------------ iteration
    def iter_desc(self, it, st):
        if isinstance(it, Tup):
            return ("concrete", [(TRUE, x) for x in it.items])
        if isinstance(it, K) and isinstance(it.val, str):
            return ("concrete", [(TRUE, K(c)) for c in it.val])
        if isinstance(it, Ref):
            o = self.deref(st, it)
            if isinstance(o, HList):
                if all(l is None for _, _, l in o.entries):
                    return ("concrete", [(g, x) for g, x, l in o.entries])
                if len(o.entries) == 1 and o.entries[0][0] is TRUE and len(o.entries[0][2]) == 1:
                    g, x, (cnt,) = o.entries[0]
                    return ("opaque", cnt, self._comp_item(x, st))
                fz = self.freeze(it, st)
                return ("opaque", term("len", fz, kind="i"), lambda i, s: term("item", fz, i))
            if isinstance(o, HArr):
                return ("concrete", [(TRUE, x) for x in self.lib.arr_rows(self, o, st, it)])
            if isinstance(o, HDict):
                if o.base is None and not o.comps:
                    return ("concrete", [(g, k) for g, k, x in o.entries.values()])
                fz = self.freeze(it, st)
                return ("opaque", term("len", fz, kind="i"), lambda i, s: term("key", fz, i))
            if isinstance(o, HBox):
                return self.iter_desc(o.val, st)
            if self.lib.is_elem(o):
                return self.iter_desc(o.attrs["__children__"], st)
            if isinstance(o, HInst) and isinstance(o.cls, Obj):
                m, c = self.cls_lookup(o.cls, "__iter__", st)
                if isinstance(m, Obj):
                    r = self.call(self.bind(m, it, o.cls, st, None), [], {}, st, None)
                    if not isinstance(r, G) and r.key != it.key:
                        return self.iter_desc(r, st)
            if isinstance(o, HInst):
                fz = self.freeze(it, st)
                return ("opaque", term("len", fz, kind="i"), lambda i, s: term("item", fz, i))
        if isinstance(it, Obj):
            if it.key[0] == "range":
                a, b, s = it.start, it.stop, it.step
                ca, cb, cs = v.const_of(a), v.const_of(b), v.const_of(s)
                if ca is not None and cb is not None and cs is not None and abs(cb - ca) <= 2000:
                    return ("concrete", [(TRUE, K(j)) for j in range(int(ca), int(cb), int(cs))])
                cnt = v.div(v.sub(b, a), s) if cs != 1 else v.sub(b, a)
                cnt = v.ceil(cnt)
                for fl in self.flags:
                    if fl.startswith("count="):
                        n = int(fl[6:])
                        st.pc = b_and(st.pc, v.veq(cnt, K(n)))
                        return ("concrete", [(TRUE, v.add(a, v.mul(K(j), s))) for j in range(n)])
                if isinstance(cnt, G):
                    cnt = term("gated", cnt, kind="i")
                return ("opaque", cnt, lambda i, st2: v.add(a, v.mul(i, s)))
            if it.key[0] == "zip":
                ds = [self.iter_desc(x, st) for x in it.parts]
                if all(d[0] == "concrete" for d in ds):
                    n = min(len(d[1]) for d in ds)
                    if all(all(g is TRUE for g, _ in d[1]) for d in ds):
                        return ("concrete", [(TRUE, Tup([d[1][j][1] for d in ds])) for j in range(n)])
                fs = []
                cnt = None
                for d, p in zip(ds, it.parts):
                    if d[0] == "concrete":
                        cnt0 = K(len(d[1]))
                        fz = self.freeze(p, st)
                        fs.append(lambda i, s, fz=fz: term("item", fz, i))
                    else:
                        cnt0 = d[1]
                        fs.append(d[2])
                        if cnt is None:
                            cnt = cnt0
                return ("opaque", cnt if cnt is not None else top("zip"), lambda i, s: Tup([f(i, s) for f in fs]))
            if it.key[0] == "enumerate":
                d = self.iter_desc(it.inner, st)
                if d[0] == "concrete":
                    if all(g is TRUE for g, _ in d[1]):
                        return ("concrete", [(TRUE, Tup([v.add(it.start, K(j)), x])) for j, (_, x) in enumerate(d[1])])
                    outl, n = [], K(0)
                    for g, x in d[1]:
                        outl.append((g, Tup([v.add(it.start, n), x])))
                        n = v.add(n, ite(g, K(1), K(0)))
                    return ("concrete", outl)
                return ("opaque", d[1], lambda i, s: Tup([v.add(it.start, i), d[2](i, s)]))
            if it.key[0] == "reversed":
                d = self.iter_desc(it.inner, st)
                if d[0] == "concrete":
                    return ("concrete", d[1][::-1])
                return ("opaque", d[1], lambda i, s: d[2](v.sub(v.sub(d[1], K(1)), i), s))
            if it.key[0] == "items":
                o = self.deref(st, it.inner) if isinstance(it.inner, Ref) else None
                if isinstance(o, HDict) and o.base is None and not o.comps:
                    return ("concrete", [(g, Tup([k, x]) if it.what == "items" else x) for g, k, x in o.entries.values()])
                fz = self.freeze(it.inner, st)
                if it.what == "items":
                    return ("opaque", term("len", fz, kind="i"), lambda i, s: Tup([term("key", fz, i), term("item", fz, term("key", fz, i))]))
                return ("opaque", term("len", fz, kind="i"), lambda i, s: term("item", fz, term("key", fz, i)))
            if it.key[0] == "map":
                d = self.iter_desc(it.inner, st)
                if d[0] == "concrete":
                    return ("concrete", [(g, self.call(it.fn, [x], {}, st, None)) for g, x in d[1]])
                return ("opaque", d[1], lambda i, s: self.call(it.fn, [d[2](i, s)], {}, s, None))
            if it.key[0] == "cls" and it.enum is not None:
                return ("concrete", [(TRUE, m) for m in it.enum])
        if isinstance(it, K) and (it.val is None or isinstance(it.val, (bool, int, float, Fraction))):
            self.raise_builtin(st, "TypeError")
            raise Dead()
        if isinstance(it, Ext) or isinstance(it, V):
            fz = self.freeze(it, st)
            return ("opaque", term("len", fz, kind="i"), lambda i, s: self.lib.getitem(self, fz, i, s, None))
        raise AnalysisError("iteration over " + repr(it))

    def _comp_item(self, x, st):
        """element function of a list built by one generic iteration"""

        def f(i, s):
            return self.subst_item(x, i, s)

        return f

    def subst_item(self, x, i, s):
        """value of a comprehension element at index i: rename its bound variable"""
        depth_sub = self._lowest_bv(x, s)
        if depth_sub is None:
            return x
        b = T("bv", (K(depth_sub),), v.f_hash("bv", depth_sub), "i")
        if b.key == i.key:
            return x
        return self.lib.substitute(self, x, {b.key: i}, s)

    def _lowest_bv(self, x, s, seen=None):
        seen = set() if seen is None else seen
        best = None
        todo = [x]
        while todo:
            y = todo.pop()
            if y.key in seen:
                continue
            seen.add(y.key)
            if isinstance(y, T):
                if y.op == "bv":
                    d = int(y.args[0].val)
                    best = d if best is None else min(best, d)
                if y.op not in ("comp",):
                    todo.extend(y.args)
            elif isinstance(y, G):
                a = y.var.arg if isinstance(y.var.arg, (tuple, list)) else (y.var.arg,)
                todo.extend(z for z in a if isinstance(z, V))
                todo.extend((y.hi, y.lo))
            elif isinstance(y, Tup):
                todo.extend(y.items)
            elif isinstance(y, Ref):
                o = self.deref(s, y)
                if isinstance(o, HInst):
                    todo.extend(o.attrs.values())
                elif isinstance(o, HList):
                    todo.extend(e[1] for e in o.entries if e[2] is None)
                elif isinstance(o, HArr):
                    todo.extend(o.data)
                elif isinstance(o, HBox):
                    todo.append(o.val)
                elif isinstance(o, HDict):
                    todo.extend(e[2] for e in o.entries.values())
        return best

    # ------------------------------------------------------------ freeze
    def freeze_bool(self, g):
        return g

    def freeze(self, x, st, depth=0):
        """snapshot of a value as a pure term (no heap references)"""
        if depth > 14:
            return term("deep")
        if isinstance(x, (K, T, EnumM, Ext)):
            if isinstance(x, T) and ("ov", x.key) in st.heap:
                ov = st.heap[("ov", x.key)]
                if ov.attrs or ov.items:
                    parts = [x]
                    for k in sorted(ov.attrs):
                        parts += [K(k), self.freeze(ov.attrs[k], st, depth + 1)]
                    for k in sorted(ov.items, key=str):
                        parts += [ov.items[k][0], self.freeze(ov.items[k][1], st, depth + 1)]
                    return self.opq("upd", *parts)
            return x
        if isinstance(x, G):
            return apply1(lambda l: self.freeze(l, st, depth + 1), x)
        if isinstance(x, Tup):
            return self.opq("seq", *[self.freeze(i, st, depth + 1) for i in x.items])
        if isinstance(x, Ref):
            o = self.deref(st, x)
            if isinstance(o, HList):
                parts = []
                for g, y, l in o.entries:
                    fy = self.freeze(y, st, depth + 1)
                    if l is not None:
                        parts.append(term("comp", *l, g, fy))
                    elif g is TRUE:
                        parts.append(fy)
                    else:
                        parts.append(term("opt", g, fy))
                return self.opq("set" if o.kind == "set" else "seq", *(sorted(parts, key=lambda z: str(z.key)) if o.kind == "set" else parts))
            if isinstance(o, HArr):
                rows = self.lib.nested(o)

                def fz(r):
                    if isinstance(r, list):
                        return self.opq("seq", *[fz(q) for q in r])
                    return self.freeze(r, st, depth + 1)

                return fz(rows)
            if isinstance(o, HInst):
                nm = o.cls.name.split(".")[-1] if isinstance(o.cls, Ext) else o.cls.name
                parts = []
                for k in sorted(o.attrs):
                    parts += [K(k), self.freeze(o.attrs[k], st, depth + 1)]
                return self.opq("inst:" + nm, *parts)
            if isinstance(o, HDict):
                parts = [] if o.base is None else [o.base]
                for k in sorted(o.entries, key=str):
                    g, kk, y = o.entries[k]
                    e = term("kv", self.freeze(kk, st, depth + 1), self.freeze(y, st, depth + 1))
                    parts.append(e if g is TRUE else term("opt", g, e))
                for c, g, kk, y in o.comps:
                    parts.append(term("comp", c, g, self.freeze(kk, st, depth + 1), self.freeze(y, st, depth + 1)))
                return self.opq("dict", *parts)
            if isinstance(o, HBox):
                return self.freeze(o.val, st, depth + 1)
            return term("ref?", K(str(x.addr)))
        if isinstance(x, Obj):
            if x.key[0] == "fn":
                return term("fn:" + x.name)
            if x.key[0] == "bm":
                return term("bm:" + getattr(x.fn, "name", "?"), self.freeze(x.selfv, st, depth + 1))
            if x.key[0] in ("cls",):
                return term("cls:" + x.name)
            if x.key[0] == "range":
                return self.opq("range", x.start, x.stop, x.step)
            if x.key[0] in ("zip",):
                return self.opq("zip", *[self.freeze(p, st, depth + 1) for p in x.parts])
            if x.key[0] in ("items", "enumerate", "reversed", "map"):
                return self.opq(x.key[0], self.freeze(x.inner, st, depth + 1))
            if x.key[0] == "slice":
                return self.opq("slice", x.lo, x.hi, x.step)
            return term("obj", K(str(x.key)))
        return term("obj", K(str(x.key)))

    def opq(self, op, *args, kind="?"):
        """opaque operator with gates pushed outwards (bounded)"""
        n = 1
        for a in args:
            if isinstance(a, G):
                n *= self._nleaves(a)
        if n == 1 or n > 48:
            return term(op, *args, kind=kind)
        return applyN(lambda *xs: term(op, *xs, kind=kind), list(args))

    def _nleaves(self, g):
        seen = set()
        keys = set()

        def go(x):
            if x.key in seen:
                return
            seen.add(x.key)
            if isinstance(x, G):
                go(x.hi)
                go(x.lo)
            else:
                keys.add(x.key)

        go(g)
        return max(2, len(keys))

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, ctx):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return top("unsupported expression " + type(n).__name__)
        old = Where.cur
        if hasattr(n, "lineno"):
            Where.cur = (ctx.file, n.lineno, ctx.fname)
        r = m(n, st, ctx)
        if st.pc is FALSE:
            raise Dead()
        return r

    def e_Constant(self, n, st, ctx):
        return K(n.value)

    def e_Name(self, n, st, ctx):
        return self.getvar(n.id, st, ctx)

    def e_NamedExpr(self, n, st, ctx):
        x = self.ev(n.value, st, ctx)
        c = ctx
        while c.outer is not None:
            c = c.outer
        self.assign(n.target, x, st, c)
        return x

    def e_Tuple(self, n, st, ctx):
        return Tup(self.elts(n.elts, st, ctx))

    def star_items(self, x, st):
        """items of a starred operand; a case distinction between sequences of one length is taken item by item"""
        it = self.items_of(x, st)
        if it is not None:
            return it
        x = simplify(x, st.pc)
        if not isinstance(x, G):
            return None
        ls = [(g, self.items_of(l, st)) for g, l in leaves(x)]
        if any(i is None for _, i in ls) or len({len(i) for _, i in ls}) != 1:
            return None
        out = []
        for k in range(len(ls[0][1])):
            r = ls[-1][1][k]
            for g, i in reversed(ls[:-1]):
                r = ite(g, i[k], r)
            out.append(r)
        return out

    def elts(self, es, st, ctx):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                x = self.ev(e.value, st, ctx)
                it = self.star_items(x, st)
                if it is None:
                    out.append(term("star", self.freeze(x, st)))
                else:
                    out.extend(it)
            else:
                out.append(self.ev(e, st, ctx))
        return out

    def e_List(self, n, st, ctx):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            ents = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    x = self.ev(e.value, st, ctx)
                    o = self.deref(st, x)
                    if isinstance(o, HList):
                        ents.extend(o.entries)
                    else:
                        it = self.star_items(x, st)
                        if it is None:
                            ents.append((TRUE, term("star", self.freeze(x, st)), None))
                        else:
                            ents.extend((TRUE, y, None) for y in it)
                else:
                    ents.append((TRUE, self.ev(e, st, ctx), None))
            return self.new(st, HList(ents))
        return self.new_list(st, self.elts(n.elts, st, ctx))

    def e_Set(self, n, st, ctx):
        return self.new_list(st, self.elts(n.elts, st, ctx), "set")

    def e_Dict(self, n, st, ctx):
        r = self.new(st, HDict({}))
        for k, x in zip(n.keys, n.values):
            if k is None:
                self.lib.dict_update(self, r, self.ev(x, st, ctx), st)
            else:
                kk = self.ev(k, st, ctx)
                self.lib.setitem(self, r, kk, self.ev(x, st, ctx), st, ctx)
        return r

    def e_Starred(self, n, st, ctx):
        return term("star", self.freeze(self.ev(n.value, st, ctx), st))

    def e_JoinedStr(self, n, st, ctx):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(K(x.value))
            else:
                val = self.ev(x.value, st, ctx)
                spec = self.ev(x.format_spec, st, ctx) if x.format_spec is not None else K("")
                if x.conversion == 114:
                    val = K(repr(val.py())) if isinstance(val, K) and not isinstance(val.val, (V, bytes)) and val.kind in "ibk" else self.opq("repr", self.freeze(val, st))
                elif x.conversion == 115:
                    val = self.lib.to_str(self, val, st, ctx)
                parts.append(self.lib.fmt(self, val, spec, st, ctx))
        return self.lib.concat(self, parts)

    def e_FormattedValue(self, n, st, ctx):
        return self.lib.fmt(self, self.ev(n.value, st, ctx), K(""), st, ctx)

    def e_Attribute(self, n, st, ctx):
        o = self.ev(n.value, st, ctx)
        self.at(n, ctx)
        return self.split(o, st, lambda x, s: self.getattr(x, n.attr, s, ctx))

    def e_Subscript(self, n, st, ctx):
        o = self.ev(n.value, st, ctx)
        k = self.ev(n.slice, st, ctx)
        self.at(n, ctx)
        return self.split(o, st, lambda x, s: self.lib.getitem(self, x, k, s, ctx))

    def e_Slice(self, n, st, ctx):
        f = lambda e: self.ev(e, st, ctx) if e is not None else NONE
        lo, hi, step = f(n.lower), f(n.upper), f(n.step)
        return Obj(("slice", lo.key, hi.key, step.key), lo=lo, hi=hi, step=step)

    def e_UnaryOp(self, n, st, ctx):
        if isinstance(n.op, ast.Not):
            return b_not(self.cond(n.operand, st, ctx))
        x = self.ev(n.operand, st, ctx)
        h = self.deref(st, x)
        if isinstance(h, HInst) and isinstance(h.cls, Obj):
            m, c = self.cls_lookup(h.cls, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[type(n.op).__name__], st)
            if m is not None:
                return self.call(self.bind(m, x, h.cls, st, ctx), [], {}, st, ctx)
        if isinstance(n.op, ast.USub):
            return self.binop("Sub", K(0), x, st)
        if isinstance(n.op, ast.UAdd):
            return x
        x = self.lib.unbox(self, x, st)
        if isinstance(n.op, ast.Invert):
            return apply1(lambda l: (b_not(l) if isinstance(l, K) and l.kind == "b" else K(~int(l.val)) if isinstance(l, K) and l.kind == "i" else term("invert", l)), x)
        return top("unary")

    def e_BinOp(self, n, st, ctx):
        a = self.ev(n.left, st, ctx)
        b = self.ev(n.right, st, ctx)
        self.at(n, ctx)
        return self.binop(type(n.op).__name__, a, b, st, ctx)

    def binop(self, op, a, b, st, ctx=None):
        return self.lib.binop(self, op, a, b, st, ctx)

    def e_BoolOp(self, n, st, ctx):
        return self.boolop(isinstance(n.op, ast.And), n.values, st, ctx)

    def boolop(self, isand, vals, st, ctx):
        x = self.ev(vals[0], st, ctx)
        if len(vals) == 1:
            return x
        c = simplify(self.truth(x, st), st.pc)
        stop = b_not(c) if isand else c
        if stop is TRUE:
            return x
        if stop is FALSE:
            return self.boolop(isand, vals[1:], st, ctx)
        s2 = st.fork(b_not(stop))
        s1 = st.fork(stop)
        try:
            y = self.boolop(isand, vals[1:], s2, ctx)
        except Dead:
            st.become(s1)
            return x
        # x is only observable when stop holds: its truth value is known there
        m = self.merge(s1, s2)
        if self.is_bool(x) and self.is_bool(y):
            r = b_and(x, y) if isand else b_or(x, y)
        else:
            r = self.merge_val(simplify(s1.pc, m.pc), x, y, m.pc)
        st.become(m)
        return r

    def is_bool(self, x):
        if isinstance(x, K):
            return x.kind == "b"
        if isinstance(x, G):
            return self.is_bool(x.hi) and self.is_bool(x.lo)
        return False

    def e_IfExp(self, n, st, ctx):
        c = simplify(self.cond(n.test, st, ctx), st.pc)
        if c is TRUE:
            return self.ev(n.body, st, ctx)
        if c is FALSE:
            return self.ev(n.orelse, st, ctx)
        s1, s2 = st.fork(c), st.fork(b_not(c))
        x = y = None
        try:
            x = self.ev(n.body, s1, ctx)
        except Dead:
            pass
        try:
            y = self.ev(n.orelse, s2, ctx)
        except Dead:
            pass
        if x is None and y is None:
            st.pc = FALSE
            raise Dead()
        if x is None:
            st.become(s2)
            return y
        if y is None:
            st.become(s1)
            return x
        m = self.merge(s1, s2)
        r = self.merge_val(simplify(s1.pc, m.pc), x, y, m.pc)
        st.become(m)
        return r

    def e_Compare(self, n, st, ctx):
        left = self.ev(n.left, st, ctx)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, st, ctx)
            self.at(n, ctx)
            c = self.lib.compare(self, type(op).__name__, left, right, st, ctx)
            res = c if res is None else (b_and(res, c) if self.is_bool(res) and self.is_bool(c) else term("and", res, c))
            left = right
        return res

    def e_Lambda(self, n, st, ctx):
        return self.mkfunc(n, st, ctx, "<lambda>")

    def e_Call(self, n, st, ctx):
        # super() needs the lexical context
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return Obj(("super", ctx.cls.key, ctx.selfv.key), cls=ctx.cls, selfv=ctx.selfv)
        f = self.ev(n.func, st, ctx)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                x = self.ev(a.value, st, ctx)
                it = self.star_items(x, st)
                if it is None:
                    args.append(term("star", self.freeze(x, st)))
                else:
                    args.extend(it)
            else:
                args.append(self.ev(a, st, ctx))
        kw = {}
        for k in n.keywords:
            x = self.ev(k.value, st, ctx)
            if k.arg is None:
                o = self.deref(st, x)
                if isinstance(o, HDict) and o.base is None and not o.comps:
                    for g, kk, y in o.entries.values():
                        if g is TRUE:
                            kw[kk.val] = y
                        else:
                            kw[kk.val] = ite(g, y, UNDEF)
                else:
                    kw["**"] = x
            else:
                kw[k.arg] = x
        self.at(n, ctx)
        if any(isinstance(a, T) and a.op == "star" for a in args) and isinstance(f, Obj):
            return top("starred arguments of unknown number")
        return self.call(f, args, kw, st, ctx)

    # ---- comprehensions
    def comp(self, gens, elt, st, ctx, emit):
        env = self.w.alloc()
        st.heap[env] = HEnv({})
        c2 = Ctx(ctx.mod, (env,) + ctx.envs, ctx.cls, ctx.selfv, ctx.fname, ctx.file, ctx.depth)
        c2.outer = ctx
        self._comp(gens, elt, st, c2, emit)

    def _comp(self, gens, elt, st, ctx, emit):
        if not gens:
            emit(st, ctx)
            return True
        g = gens[0]
        fake = ast.For(target=g.target, iter=g.iter, body=[_CompBody(self, g.ifs, gens[1:], elt, emit)], orelse=[])
        fake.lineno = g.iter.lineno
        it = self.ev(g.iter, st, ctx)
        return self.split_iter(it, fake, st, ctx, Out())

    def s__CompBody(self, s, st, ctx, out):
        conds = s.ifs

        def run(x, k):
            if k == len(conds):
                self._comp(s.gens, s.elt, x, ctx, s.emit)
                return True
            c = self.cond(conds[k], x, ctx)
            return self.branch(c, x, lambda y: run(y, k + 1), lambda y: True)

        return run(st, 0)

    def e_ListComp(self, n, st, ctx):
        acc = self.new(st, HList(()))

        def emit(x, c):
            val = self.ev(n.elt, x, c)
            o = self.hget(x, acc.addr)
            x.heap[acc.addr] = HList(o.entries + ((TRUE, val, None),))

        self.comp(n.generators, n.elt, st, ctx, emit)
        return acc

    def e_GeneratorExp(self, n, st, ctx):
        r = self.e_ListComp(n, st, ctx)
        st.heap[r.addr] = HList(self.hget(st, r.addr).entries, "iter")
        return r

    def e_SetComp(self, n, st, ctx):
        r = self.e_ListComp(n, st, ctx)
        o = self.hget(st, r.addr)
        st.heap[r.addr] = HList(o.entries, "set")
        return r

    def e_DictComp(self, n, st, ctx):
        acc = self.new(st, HDict({}))

        def emit(x, c):
            k = self.ev(n.key, x, c)
            self.lib.setitem(self, acc, k, self.ev(n.value, x, c), x, c)

        self.comp(n.generators, None, st, ctx, emit)
        return acc

    def e_Yield(self, n, st, ctx):
        val = self.ev(n.value, st, ctx) if n.value is not None else NONE
        acc = self.getvar("__yield__", st, ctx, soft=True)
        o = self.hget(st, acc.addr)
        st.heap[acc.addr] = HList(o.entries + ((TRUE, val, None),), "iter")
        return NONE

    def e_YieldFrom(self, n, st, ctx):
        val = self.ev(n.value, st, ctx)
        acc = self.getvar("__yield__", st, ctx, soft=True)
        self.call(self.getattr(acc, "extend", st, ctx), [val], {}, st, ctx)
        return NONE

    def e_Await(self, n, st, ctx):
        return self.ev(n.value, st, ctx)

    # ------------------------------------------------------------ truth
    def cond(self, node, st, ctx):
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            c = self.cond(node.values[0], st, ctx)
            for x in node.values[1:]:
                c = simplify(c, st.pc)
                go = c if isand else b_not(c)
                if go is FALSE:
                    return c
                if go is TRUE:
                    c = self.cond(x, st, ctx)
                    continue
                s2, s1 = st.fork(go), st.fork(b_not(go))
                try:
                    d = self.cond(x, s2, ctx)
                except Dead:
                    st.become(s1)
                    return c
                st.become(self.merge(s1, s2))
                c = b_and(c, d) if isand else b_or(c, d)
            return c
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return b_not(self.cond(node.operand, st, ctx))
        return self.truth(self.ev(node, st, ctx), st)

    def truth(self, x, st):
        return self.lib.truth(self, x, st)

    # ------------------------------------------------------------ attributes
    def mro(self, cls):
        def lin(c):
            bases = list(c.bases) if isinstance(c, Obj) and c.key[0] == "cls" else []
            seqs = [lin(x) for x in bases] + [bases]
            r = [c]
            while any(seqs):
                seqs = [q for q in seqs if q]
                for q in seqs:
                    if not any(q[0].key in [y.key for y in o[1:]] for o in seqs):
                        break
                else:
                    q = seqs[0]
                h = q[0]
                r.append(h)
                seqs = [[y for y in o if y.key != h.key] for o in seqs]
            return r

        return lin(cls)

    def cls_lookup(self, cls, name, st):
        for c in self.mro(cls):
            if isinstance(c, Obj) and c.key[0] == "cls":
                env = self.hget(st, c.env) or self.w.base.get(c.env)
                if env and name in env.vars and env.vars[name] is not UNDEF:
                    return env.vars[name], c
        return None, None

    def bind(self, attr, inst, cls, st, ctx):
        if isinstance(attr, Obj):
            k = attr.key[0]
            if k == "fn":
                return Obj(("bm", attr.key, inst.key), fn=attr, selfv=inst)
            if k == "prop":
                return self.call(attr.fget, [inst], {}, st, ctx)
            if k == "static":
                return attr.fn
            if k == "classm":
                return Obj(("bm", attr.fn.key, cls.key), fn=attr.fn, selfv=cls)
        return attr

    def getattr(self, o, name, st, ctx, default=None):
        if isinstance(o, G):
            return self.split(o, st, lambda x, s: self.getattr(x, name, s, ctx, default))
        if isinstance(o, Ref):
            h = self.deref(st, o)
            if isinstance(h, HInst):
                if name in h.attrs:
                    r = h.attrs[name]
                    if isinstance(r, G):
                        return self.drop_undef(r, st, "AttributeError")
                    if r is not UNDEF:
                        return r
                if name == "__class__":
                    return h.cls
                if name == "__dict__":
                    return term("__dict__", self.freeze(o, st))
                if isinstance(h.cls, Obj):
                    a, c = self.cls_lookup(h.cls, name, st)
                    if a is not None:
                        return self.bind(a, o, h.cls, st, ctx)
                if isinstance(h.cls, Ext) and h.cls.name in (self.lib.POLY, self.lib.SIO, "xml.etree.ElementTree.Element"):
                    return Obj(("meth", o.key, name), recv=o, name=name)
                if h.cls.key != RECORD.key and (isinstance(h.cls, Ext) or any(isinstance(c, Ext) and c.name not in ("builtins.object", "abc.ABC", "typing.Generic", "typing.Protocol") for c in self.mro(h.cls))):
                    if name in ("args",):
                        return h.attrs.get("args", Tup(()))
                    return term("a:" + name, self.freeze(o, st))
                if isinstance(h.cls, Obj) and not (name.startswith("__") and name.endswith("__")):
                    a, c = self.cls_lookup(h.cls, "__getattr__", st)
                    if a is not None:
                        return self.call(self.bind(a, o, h.cls, st, ctx), [K(name)], {}, st, ctx)
                if default is not None:
                    return default
                self.raise_builtin(st, "AttributeError", TRUE, K(name))
                raise Dead()
            m = self.lib.heap_attr(self, o, h, name, st, ctx)
            if m is not None:
                return m
            return Obj(("meth", o.key, name), recv=o, name=name)
        if isinstance(o, Obj):
            k = o.key[0]
            if k == "mod":
                r = self.modattr(st, o, name)
                if r is None:
                    return top(f"module attribute {o.name}.{name}")
                return r
            if k == "cls":
                if name == "__name__":
                    return K(o.name)
                if o.enum is not None and name == "__members__":
                    return self.new(st, HDict({K(m.name).key: (TRUE, K(m.name), m) for m in o.enum}))
                if o.enum is not None:
                    for m in o.enum:
                        if m.name == name:
                            return m
                a, c = self.cls_lookup(o, name, st)
                if a is not None:
                    if isinstance(a, Obj) and a.key[0] == "static":
                        return a.fn
                    if isinstance(a, Obj) and a.key[0] == "classm":
                        return Obj(("bm", a.fn.key, o.key), fn=a.fn, selfv=o)
                    return a
                if o.fields is not None and name in ("__dataclass_fields__",):
                    return term("fields", K(o.name))
                if default is not None:
                    return default
                return Obj(("meth", o.key, name), recv=o, name=name)
            if k == "super":
                sv = o.selfv
                scls = None
                if isinstance(sv, Ref):
                    h = self.deref(st, sv)
                    scls = h.cls if isinstance(h, HInst) else None
                elif isinstance(sv, Obj) and sv.key[0] == "cls":
                    scls = sv
                elif isinstance(sv, T):
                    scls = sv.cls
                mro = self.mro(scls) if scls is not None else self.mro(o.cls)
                idx = [c.key for c in mro].index(o.cls.key) if o.cls.key in [c.key for c in mro] else 0
                for c in mro[idx + 1 :]:
                    if isinstance(c, Obj) and c.key[0] == "cls":
                        env = self.hget(st, c.env) or self.w.base.get(c.env)
                        if name in env.vars:
                            return self.bind(env.vars[name], sv, scls, st, ctx)
                        if name == "__init__" and c.fields is not None:
                            return Obj(("dcinit", c.key, sv.key), cls=c, selfv=sv)
                if name == "__setattr__" and isinstance(sv, Ref):
                    return Obj(("rawset", sv.key), recv=sv)
                if name in ("__init__", "__init_subclass__", "__post_init__"):
                    return Ext("vga.noop")
                return Obj(("meth", sv.key, name), recv=sv, name=name)
            if k == "fn" and name in ("__name__", "__qualname__"):
                return K(o.name)
            if k == "bm" and name == "__func__":
                return o.fn
            if k == "bm" and name == "__self__":
                return o.selfv
            if k == "slice":
                return {"start": o.lo, "stop": o.hi, "step": o.step}.get(name, top("slice attr"))
            return Obj(("meth", o.key, name), recv=o, name=name)
        if isinstance(o, Ext) and name in ("__name__", "__qualname__") and o.name.startswith("builtins."):
            return K(o.name.split(".")[-1])
        if isinstance(o, Ext):
            return self.lib.ext_attr(self, Ext(self.lib.canon(o.name + "." + name)), st)
        if isinstance(o, EnumM):
            if name == "value" or name == "_value_":
                return o.value
            if name == "name" or name == "_name_":
                return K(o.name)
            a, c = self.cls_lookup(o.cls, name, st)
            if a is not None:
                if isinstance(a, Obj) and a.key[0] in ("fn", "prop", "static", "classm"):
                    return self.bind(a, o, o.cls, st, ctx)
            if o.isstr:
                return self.getattr(o.value, name, st, ctx)
            if name == "__class__":
                return o.cls
            return Obj(("meth", o.key, name), recv=o, name=name)
        if isinstance(o, Tup):
            if o.names and name in o.names:
                return o.items[o.names.index(name)]
            if o.cls is not None:
                a, c = self.cls_lookup(o.cls, name, st)
                if a is not None:
                    return self.bind(a, o, o.cls, st, ctx)
            return Obj(("meth", o.key, name), recv=o, name=name)
        if isinstance(o, T):
            ov = st.heap.get(("ov", o.key))
            if ov is not None and name in ov.attrs:
                r = ov.attrs[name]
                und = apply1(lambda l: TRUE if l.key == UNDEF.key else FALSE, r)
                if und is FALSE:
                    return r
                return ite(und, self._opaque_attr(o, name, st, ctx), r)
            return self._opaque_attr(o, name, st, ctx)
        if isinstance(o, K):
            if o.val is None:
                if default is not None:
                    return default
                self.raise_builtin(st, "AttributeError", TRUE, K(name))
                raise Dead()
            if name in ("real",):
                return o
            return Obj(("meth", o.key, name), recv=o, name=name)
        return top("getattr " + name)

    def _opaque_attr(self, o, name, st, ctx):
        if o.cls is not None and isinstance(o.cls, Obj):
            c = self.w.contracts.get((o.cls.name, name))
            if c is not None:
                return Obj(("contract", o.key, name), recv=o, name=name, fn=c)
            a, c = self.cls_lookup(o.cls, name, st)
            if a is not None and isinstance(a, Obj):
                if a.key[0] == "fn" and getattr(a, "abstract", False):
                    return Obj(("meth", o.key, name), recv=o, name=name)
                return self.bind(a, o, o.cls, st, ctx)
            if a is not None:
                return a
        r = self.lib.opaque_attr(self, o, name, st)
        return r

    def setattr(self, o, name, val, st, ctx, raw=False):
        if isinstance(o, Ref):
            h = self.deref(st, o)
            if isinstance(h, HInst):
                if isinstance(h.cls, Obj):
                    a, c = self.cls_lookup(h.cls, "__setattr__", st)
                    if isinstance(a, Obj) and not raw:
                        self.call(self.bind(a, o, h.cls, st, ctx), [K(name), val], {}, st, ctx)
                        return
                    a, c = self.cls_lookup(h.cls, name, st)
                    if isinstance(a, Obj) and a.key[0] == "prop":
                        if a.fset is None:
                            self.raise_builtin(st, "AttributeError")
                            raise Dead()
                        self.call(a.fset, [o, val], {}, st, ctx)
                        return
                d = dict(h.attrs)
                d[name] = val
                self.hset(st, o.addr, HInst(h.cls, d))
                return
            if isinstance(h, HArr) and name == "shape":
                sh = self.items_of(val, st)
                new = self.lib.np_reshape(self, h, sh if sh is not None else [val], st)
                if isinstance(new, Ref):
                    self.hset(st, o.addr, self.deref(st, new))
                    return
                raise AnalysisError("unsupported shape assignment")
            return
        if isinstance(o, Obj) and o.key[0] == "cls":
            env = self.hget(st, o.env)
            d = dict(env.vars)
            d[name] = val
            st.heap[o.env] = HEnv(d)
            return
        if isinstance(o, Obj) and o.key[0] == "mod":
            env = self.hget(st, o.env)
            d = dict(env.vars)
            d[name] = val
            st.heap[o.env] = HEnv(d)
            return
        if isinstance(o, T):
            if o.cls is not None and isinstance(o.cls, Obj):
                a, c = self.cls_lookup(o.cls, name, st)
                if isinstance(a, Obj) and a.key[0] == "prop" and a.fset is not None:
                    self.call(a.fset, [o, val], {}, st, ctx)
                    return
            ov = st.heap.get(("ov", o.key)) or HOv({}, {})
            d = dict(ov.attrs)
            d[name] = val
            st.heap[("ov", o.key)] = HOv(d, ov.items)
            self.log_event(st, "setattr:" + name, [o, val], {}, NONE)
            return
        if isinstance(o, Obj) and o.key[0] == "fn":
            return
        if isinstance(o, K) and o.val is None:
            self.raise_builtin(st, "AttributeError")
            raise Dead()

    # ------------------------------------------------------------ calls
    def log_event(self, st, name, args, kwargs, result):
        st.events = st.events + (
            Event(st.pc, name, tuple(self.freeze(a, st) for a in args), {k: self.freeze(x, st) for k, x in kwargs.items()}, result, Where.cur),
        )

    def call(self, f, args, kw, st, ctx):
        f = simplify(f, st.pc)
        if isinstance(f, G):
            return self.split(f, st, lambda x, s: self.call(x, list(args), dict(kw), s, ctx))
        w = Where.cur
        try:
            return self._call(f, args, kw, st, ctx)
        finally:
            Where.cur = w

    def _call(self, f, args, kw, st, ctx):
        if isinstance(f, Obj):
            k = f.key[0]
            if k == "fn":
                return self.call_fn(f, args, kw, st, ctx)
            if k == "bm":
                return self._call(f.fn, [f.selfv] + list(args), kw, st, ctx) if f.fn.key[0] != "fn" else self.call_fn(f.fn, [f.selfv] + list(args), kw, st, ctx)
            if k == "static":
                return self.call(f.fn, args, kw, st, ctx)
            if k == "cls":
                return self.construct(f, args, kw, st, ctx)
            if k == "contract":
                return f.fn(self, st, f.recv, args, kw)
            if k == "rawset":
                if len(args) == 2 and isinstance(args[0], K):
                    self.setattr(f.recv, args[0].val, args[1], st, ctx, raw=True)
                return NONE
            if k == "dcinit":
                self.lib.dataclass_init(self, f.cls, f.selfv, args, kw, st, ctx)
                return NONE
            if k == "meth":
                return self.lib.method(self, f.recv, f.name, args, kw, st, ctx)
            if k == "partial":
                k2 = dict(f.kw)
                k2.update(kw)
                return self.call(f.fn, list(f.args) + list(args), k2, st, ctx)
            if k == "pymodel":
                return f.fn(self, st, args, kw, ctx)
        if isinstance(f, Ref):
            h = self.deref(st, f)
            if isinstance(h, HInst) and isinstance(h.cls, Obj):
                a, c = self.cls_lookup(h.cls, "__call__", st)
                if a is not None:
                    return self.call(self.bind(a, f, h.cls, st, ctx), args, kw, st, ctx)
            if isinstance(h, HInst) and isinstance(h.cls, Ext) and h.cls.name == self.lib.POLY:
                return self.lib.poly_call(self, h, args, kw, st, ctx)
            return self.lib.call_opaque(self, self.freeze(f, st), args, kw, st, ctx)
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f.name, args, kw, st, ctx)
        if isinstance(f, T):
            return self.lib.call_opaque(self, f, args, kw, st, ctx)
        if isinstance(f, K) and f.val is None:
            self.raise_builtin(st, "TypeError")
            raise Dead()
        return top("call of " + repr(f))

    def bind_args(self, f, args, kw, st, ctx):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        n = min(len(args), len(params))
        for p, x in zip(params, args[:n]):
            env[p] = x
        extra = args[n:]
        if a.vararg:
            env[a.vararg.arg] = Tup(extra)
        elif extra:
            self.raise_builtin(st, "TypeError")
            raise Dead()
        kwextra = {}
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, x in kw.items():
            if k in params or k in kwonly:
                if isinstance(x, G) and any(l.key == UNDEF.key for _, l in leaves(x)):
                    env.setdefault(k, x)
                else:
                    env[k] = x
            else:
                kwextra[k] = x
        nd = len(f.defaults)
        for p, d in zip(params[len(params) - nd :], f.defaults):
            if p not in env:
                env[p] = d
            elif isinstance(env[p], G):
                env[p] = apply1(lambda l: d if l.key == UNDEF.key else l, env[p])
        for p, d in zip(kwonly, f.kwd):
            if p not in env:
                if d is not None:
                    env[p] = d
            elif isinstance(env[p], G) and d is not None:
                env[p] = apply1(lambda l: d if l.key == UNDEF.key else l, env[p])
        if a.kwarg:
            r = self.new(st, HDict({K(k).key: (TRUE, K(k), x) for k, x in kwextra.items()}))
            env[a.kwarg.arg] = r
        elif kwextra:
            self.raise_builtin(st, "TypeError")
            raise Dead()
        missing = [p for p in params + kwonly if p not in env]
        if missing:
            self.raise_builtin(st, "TypeError")
            raise Dead()
        return env

    def call_fn(self, f, args, kw, st, ctx, body=None):
        hook = self.w.contracts.get(("fn", getattr(f.cls, "name", None), f.name))
        if hook is not None:
            r = hook(self, st, f, args, kw)
            if r is not None:
                return r
        if getattr(f, "ctxmgr", False) and body is None:
            return Obj(("cmcall", f.key, self.w.alloc()), fn=f, args=list(args), kw=dict(kw))
        depth = len(self.callstack)
        if depth > self.MAXDEPTH or self.callstack.count(f.key) > 6:
            return self.opq("rec:" + f.name, *[self.freeze(a, st) for a in args])
        self.w.funcs_seen.add((f.file, getattr(f.cls, "name", "") or "", f.name))
        env = self.bind_args(f, args, kw, st, ctx)
        addr = self.w.alloc()
        st.heap[addr] = HEnv(env)
        selfv = args[0] if args else None
        c2 = Ctx(f.mod, (addr,) + tuple(e for e in f.envs if not self._is_cls_env(e, f)), f.cls, selfv, f.name, f.file, 0)
        c2.body = body
        self.callstack.append(f.key)
        self.frames.append(addr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, st, c2)
            if f.gen:
                acc = self.new(st, HList((), "iter"))
                self.setvar("__yield__", acc, st, c2)
            out = Out()
            outer_pc = st.pc
            live = self.exec_block(f.node.body, st, c2, out)
            rs, rv = None, None
            if live:
                out.rets.append((st.fork(), NONE))
            for s2, val in out.rets:
                if s2.pc is FALSE:
                    continue
                if rs is None:
                    rs, rv = s2, val
                else:
                    pc = b_or(rs.pc, s2.pc)
                    rv = self.merge_val(simplify(rs.pc, pc), rv, val, pc)
                    rs = self.merge(rs, s2)
            if rs is None:
                st.pc = FALSE
                raise Dead()
            st.become(rs)
            if f.gen and body is None:
                return acc
            return rv
        finally:
            self.callstack.pop()
            self.frames.pop()

    def _is_cls_env(self, e, f):
        return f.cls is not None and e == f.cls.env

    def construct(self, cls, args, kw, st, ctx):
        hook = self.w.contracts.get(("new", cls.name))
        if hook is not None:
            return hook(self, st, cls, args, kw)
        if cls.enum is not None:
            return self.lib.enum_lookup(self, cls, args, st)
        if getattr(cls, "nt", None) is not None:
            return self.lib.nt_new(self, cls, args, kw, st, ctx)
        if any(isinstance(c, Ext) and c.name.split(".")[-1] in BUILTIN_EXC for c in self.mro(cls)):
            r = self.new(st, HInst(cls, {"args": Tup(args)}))
        else:
            r = self.new(st, HInst(cls, {}))
        a, c = self.cls_lookup(cls, "__init__", st)
        if a is not None:
            self.call(self.bind(a, r, cls, st, ctx), args, kw, st, ctx)
        elif cls.fields is not None:
            self.lib.dataclass_init(self, cls, r, args, kw, st, ctx)
        self.trace_calls.append((cls.name, r))
        return r

    # ------------------------------------------------------------ harness entry
    def run(self, fn):
        """fn(interp, state) -> value.  Returns (value or None, state, raises)."""
        st = State()
        self.pending = [[]]
        try:
            r = fn(self, st)
        except Dead:
            r = None
        return r, st, self.pending[0]


class _CompBody(ast.stmt):
    _fields = ()

    def __init__(self, interp, ifs, gens, elt, emit):
        super().__init__()
        self.ifs, self.gens, self.elt, self.emit = ifs, gens, elt, emit
        self.lineno = gens[0].iter.lineno if gens else (ifs[0].lineno if ifs else getattr(elt, "lineno", 0) or 0)
        self.col_offset = 0
