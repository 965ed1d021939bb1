"""Models of the Python builtins and of the external libraries used by the analysed sources."""
import ast
import itertools
import posixpath
from fractions import Fraction

from . import pylib
from . import values as v
from .values import (
    CV,
    Ext,
    EnumM,
    FALSE,
    G,
    K,
    NONE,
    Obj,
    Ref,
    T,
    TRUE,
    Tup,
    UNDEF,
    V,
    Where,
    apply1,
    apply2,
    applyN,
    b_and,
    b_not,
    b_or,
    bvar,
    const_of,
    ite,
    leaves,
    simplify,
    term,
    top,
)

ALIASES = {
    "numpy.polynomial.polynomial.Polynomial": "numpy.polynomial.Polynomial",
    "numpy.absolute": "numpy.abs",
    "numpy.fabs": "numpy.abs",
    "numpy.arctan": "numpy.atan",
    "numpy.arcsin": "numpy.asin",
    "numpy.arccos": "numpy.acos",
    "numpy.deg2rad": "numpy.radians",
    "numpy.rad2deg": "numpy.degrees",
    "numpy.ascontiguousarray": "numpy.asarray",
    "numpy.asanyarray": "numpy.asarray",
    "numpy.amax": "numpy.max",
    "numpy.amin": "numpy.min",
    "numpy.fix": "numpy.trunc",
    "osgeo.gdal": "gdal",
    "osgeo": "osgeo",
    "xml.etree.ElementTree": "xml.etree.ElementTree",
    "shapely.geometry.shape": "shapely.shape",
    "shapely.geometry.geo.shape": "shapely.shape",
    "shapely.geometry.box": "shapely.box",
    "shapely.geometry.Polygon": "shapely.Polygon",
    "shapely.geometry.Point": "shapely.Point",
    "shapely.geometry.MultiPoint": "shapely.MultiPoint",
    "collections.abc.Mapping": "typing.Mapping",
}


def canon(name):
    if name in ALIASES:
        return ALIASES[name]
    if name.startswith("osgeo.gdal."):
        name = name[6:]
        if name.startswith("."):
            name = name[1:]
    return ALIASES.get(name, name)


# ---------------------------------------------------------------- classes
def is_enum(I, cls):
    return any(isinstance(c, Ext) and c.name in ("enum.Enum", "enum.IntEnum", "enum.Flag", "enum.StrEnum") for c in I.mro(cls)) or any(
        isinstance(c, Obj) and getattr(c, "enum", None) is not None and c is not cls for c in I.mro(cls)
    )


def make_enum(I, cls, st):
    env = I.hget(st, cls.env)
    isstr = any(isinstance(c, Ext) and c.name in ("builtins.str", "enum.StrEnum") for c in I.mro(cls))
    members = []
    n = 0
    byval = {}
    for k, x in list(env.vars.items()):
        if k.startswith("_") or (isinstance(x, Obj) and x.key[0] in ("fn", "prop", "static", "classm", "cls")):
            continue
        if isinstance(x, T) and x.op == "x:enum.auto":
            n += 1
            x = K(n)
        elif isinstance(x, K) and isinstance(x.val, Fraction):
            n = int(x.val)
        m = EnumM(cls, k, x, isstr)
        members.append(m)
    cls.enum = members
    d = dict(env.vars)
    for m in members:
        d[m.name] = m
    st.heap[cls.env] = type(env)(d)


def enum_lookup(I, cls, args, st):
    x = args[0] if args else NONE

    def leaf(y):
        if isinstance(y, EnumM):
            return y
        r = None
        eqs = [(v.veq(y, m.value), m) for m in cls.enum]
        res = UNDEF
        for c, m in reversed(eqs):
            res = ite(c, m, res)
        return res

    r = apply1(leaf, unbox(I, x, st))
    und = apply1(lambda l: TRUE if l.key == UNDEF.key else FALSE, r)
    I.raise_builtin(st, "ValueError", und, x)
    return simplify(apply1(lambda l: l, r), st.pc)


def is_namedtuple_cls(I, cls):
    return any(isinstance(b, Ext) and b.name == "typing.NamedTuple" for b in cls.bases) or any(
        isinstance(b, Obj) and getattr(b, "nt", None) is not None for b in cls.bases
    )


def make_nt(I, cls, st):
    for b in cls.bases:
        if isinstance(b, Obj) and getattr(b, "nt", None) is not None:
            cls.nt, cls.ntdef = b.nt, b.ntdef
            return
    cls.nt = [n for n, _ in cls.anns]
    env = I.hget(st, cls.env)
    cls.ntdef = {n: env.vars[n] for n in cls.nt if n in env.vars}


def nt_new(I, cls, args, kw, st, ctx):
    vals = dict(zip(cls.nt, args))
    vals.update(kw)
    items = []
    for n in cls.nt:
        if n in vals:
            items.append(vals[n])
        elif n in cls.ntdef:
            items.append(cls.ntdef[n])
        else:
            I.raise_builtin(st, "TypeError")
            items.append(top("namedtuple field"))
    return Tup(items, list(cls.nt), cls)


def make_dataclass(I, cls, st):
    import ast as _a

    fields = []
    for b in cls.bases:
        if isinstance(b, Obj) and getattr(b, "fields", None):
            fields.extend(f for f in b.fields)
    env = I.hget(st, cls.env)
    for n, node in cls.anns:
        if "ClassVar" in _a.unparse(node.annotation):
            continue
        fields = [f for f in fields if f[0] != n]
        fields.append((n, node, env.vars.get(n)))
    cls.fields = fields
    d = dict(env.vars)
    for n, node, x in fields:
        if isinstance(x, T) and x.op == "x:dataclasses.field":
            d.pop(n, None)
    st.heap[cls.env] = type(env)(d)
    return cls


def _kwterm(x, name):
    """keyword argument of a recorded external-call term"""
    for a in x.args:
        if isinstance(a, T) and a.op == "kw:" + name:
            return a.args[0]
    return None


def dataclass_init(I, cls, r, args, kw, st, ctx):
    names = [f[0] for f in cls.fields]
    vals = dict(zip(names, args))
    for k, x in kw.items():
        if k not in names:
            I.raise_builtin(st, "TypeError")
            raise __import__("vga.interp", fromlist=["Dead"]).Dead()
        vals[k] = x
    for n, node, dflt in cls.fields:
        if n in vals:
            x = vals[n]
            if isinstance(x, G):
                x = apply1(lambda l: NONE if l.key == UNDEF.key else l, x)
        elif dflt is None:
            I.raise_builtin(st, "TypeError")
            raise __import__("vga.interp", fromlist=["Dead"]).Dead()
        elif isinstance(dflt, T) and dflt.op == "x:dataclasses.field":
            x = _kwterm(dflt, "default")
            if x is None:
                fac = _kwterm(dflt, "default_factory")
                if fac is None:
                    I.raise_builtin(st, "TypeError")
                    x = top("missing field")
                elif fac.key == Ext("builtins.list").key:
                    x = I.new_list(st, [])
                elif fac.key == Ext("builtins.dict").key:
                    from .interp import HDict

                    x = I.new(st, HDict({}))
                else:
                    x = I.call(fac, [], {}, st, ctx)
        else:
            x = dflt
        I.setattr(r, n, x, st, ctx)
    pi, c = I.cls_lookup(cls, "__post_init__", st)
    if pi is not None:
        I.call(I.bind(pi, r, cls, st, ctx), [], {}, st, ctx)


# ---------------------------------------------------------------- arrays
def _H():
    from . import interp

    return interp


def nested(o):
    def go(shape, data):
        if not shape:
            return data[0]
        n = shape[0]
        sz = len(data) // n if n else 0
        if len(shape) == 1:
            return list(data)
        return [go(shape[1:], data[i * sz : (i + 1) * sz]) for i in range(n)]

    return go(o.shape, list(o.data))


def arr_rows(I, o, st, ref=None):
    H = _H()
    if len(o.shape) == 1:
        return list(o.data)
    n = o.shape[0]
    sz = len(o.data) // n if n else 0
    if isinstance(ref, Ref) and isinstance(I.deref(st, ref), H.HArr):
        return [I.view(st, ref, o.shape[1:], range(i * sz, (i + 1) * sz)) for i in range(n)]
    return [I.new(st, H.HArr(o.shape[1:], o.data[i * sz : (i + 1) * sz])) for i in range(n)]


def unbox(I, x, st):
    """strip mutable boxes"""
    if isinstance(x, Ref):
        o = I.deref(st, x)
        if isinstance(o, _H().HBox):
            return unbox(I, o.val, st)
        if isinstance(o, _H().HArr) and o.shape == ():
            return o.data[0]
    if isinstance(x, G):
        return apply1(lambda l: unbox(I, l, st), x)
    return x


def as_arr(I, x, st):
    """HArr for array-likes of known shape, else a scalar/opaque value"""
    H = _H()
    x = unbox(I, x, st)
    if isinstance(x, Ref):
        o = I.deref(st, x)
        if isinstance(o, H.HArr):
            return o
        if isinstance(o, H.HList):
            if any(l is not None for _, _, l in o.entries) or any(g is not TRUE for g, _, _ in o.entries):
                return I.freeze(x, st)
            return stack_arr(I, [e[1] for e in o.entries], st)
        if isinstance(o, H.HInst):
            return I.freeze(x, st)
    if isinstance(x, Tup):
        return stack_arr(I, list(x.items), st)
    if isinstance(x, Obj) and x.key[0] in ("range", "zip", "enumerate", "items", "map", "reversed"):
        it = I.items_of(x, st)
        if it is not None:
            return stack_arr(I, it, st)
        return I.freeze(x, st)
    if isinstance(x, T) and x.op == "seq":
        return stack_arr(I, list(x.args), st)
    if isinstance(x, G):
        x = simplify(x, st.pc)
        if not isinstance(x, G):
            return as_arr(I, x, st)
        ls = leaves(x)
        if any(isinstance(l, (Ref, Tup)) for _, l in ls):
            parts = [(g, as_arr(I, l, st)) for g, l in ls]
            if all(isinstance(q, H.HArr) and q.shape == parts[0][1].shape for _, q in parts):
                data = list(parts[-1][1].data)
                for g, q in reversed(parts[:-1]):
                    data = [ite(g, m, n) for m, n in zip(q.data, data)]
                return H.HArr(parts[0][1].shape, [simplify(d, st.pc) for d in data])
    return x


def merged(I, x, st):
    """one array for a choice between arrays of the same shape"""
    H = _H()
    if all(isinstance(l, Ref) and isinstance(I.deref(st, l), H.HArr) for _, l in leaves(x)):
        r = as_arr(I, x, st)
        if isinstance(r, H.HArr):
            return I.new(st, r)
    return None


def stack_arr(I, items, st):
    H = _H()
    parts = [as_arr(I, i, st) for i in items]
    if not parts:
        return H.HArr((0,), ())
    if all(isinstance(p, H.HArr) for p in parts):
        sh = parts[0].shape
        if all(p.shape == sh for p in parts):
            return H.HArr((len(parts),) + sh, [d for p in parts for d in p.data])
        return top("ragged array")
    if any(isinstance(p, H.HArr) for p in parts):
        return I.opq("seq", *[I.freeze(i, st) for i in items])
    return H.HArr((len(parts),), parts)


def wrap(I, x, st):
    H = _H()
    if isinstance(x, H.HArr):
        if x.shape == ():
            return x.data[0]
        return I.new(st, x)
    return x


def bcast(a, b):
    H = _H()
    sa, sb = a.shape, b.shape
    n = max(len(sa), len(sb))
    sa2, sb2 = (1,) * (n - len(sa)) + sa, (1,) * (n - len(sb)) + sb
    out = []
    for x, y in zip(sa2, sb2):
        if x == y or y == 1:
            out.append(x)
        elif x == 1:
            out.append(y)
        else:
            return None
    return sa2, sb2, tuple(out)


def _strides(sh):
    st, acc = [], 1
    for d in reversed(sh):
        st.append(acc)
        acc *= d
    return list(reversed(st))


def map2(I, f, a, b):
    H = _H()
    A, B = isinstance(a, H.HArr), isinstance(b, H.HArr)
    if not A and not B:
        return f(a, b)
    if A and not B:
        return H.HArr(a.shape, [f(x, b) for x in a.data])
    if B and not A:
        return H.HArr(b.shape, [f(a, x) for x in b.data])
    if a.shape == b.shape:
        return H.HArr(a.shape, [f(x, y) for x, y in zip(a.data, b.data)])
    bc = bcast(a, b)
    if bc is None:
        return top("broadcast mismatch")
    sa, sb, so = bc
    ta, tb = _strides(sa), _strides(sb)
    data = []
    for idx in itertools.product(*[range(d) for d in so]):
        ia = sum((i if d > 1 else 0) * t for i, d, t in zip(idx, sa, ta))
        ib = sum((i if d > 1 else 0) * t for i, d, t in zip(idx, sb, tb))
        data.append(f(a.data[ia], b.data[ib]))
    return H.HArr(so, data)


def map1(I, f, a):
    H = _H()
    if isinstance(a, H.HArr):
        return H.HArr(a.shape, [f(x) for x in a.data])
    return f(a)


def is_arraylike(I, x, st):
    H = _H()
    if isinstance(x, Ref):
        return isinstance(I.deref(st, x), (H.HArr, H.HBox))
    return False


# ---------------------------------------------------------------- strings
def is_str(x):
    if isinstance(x, K):
        return isinstance(x.val, str)
    if isinstance(x, T):
        return x.kind == "s" or x.op in ("cat", "str", "fmt", "join")
    if isinstance(x, EnumM):
        return x.isstr
    if isinstance(x, G):
        return is_str(x.hi) and is_str(x.lo)
    return False


def concat(I, parts):
    def leaf(*xs):
        out = []

        def push(y):
            if isinstance(y, EnumM) and y.isstr:
                y = y.value
            if isinstance(y, T) and y.op == "cat":
                for z in y.args:
                    push(z)
                return
            if isinstance(y, K) and isinstance(y.val, str):
                if y.val == "":
                    return
                if out and isinstance(out[-1], K) and isinstance(out[-1].val, str):
                    out[-1] = K(out[-1].val + y.val)
                    return
            out.append(y)

        for x in xs:
            push(x)
        if not out:
            return K("")
        if len(out) == 1 and (isinstance(out[0], K) or is_str(out[0])):
            return out[0]
        return term("cat", *out, kind="s")

    n = 1
    for p in parts:
        if isinstance(p, G):
            n *= I._nleaves(p)
    if n > 64:
        return leaf(*parts)
    return applyN(leaf, list(parts))


def to_str(I, x, st, ctx):
    x = unbox(I, x, st)
    if isinstance(x, Ref):
        h = I.deref(st, x)
        if isinstance(h, _H().HInst) and isinstance(h.cls, Obj):
            for nm in ("__str__", "__repr__"):
                a, c = I.cls_lookup(h.cls, nm, st)
                if a is not None:
                    return I.call(I.bind(a, x, h.cls, st, ctx), [], {}, st, ctx)
        if isinstance(h, _H().HInst) and isinstance(h.attrs.get("args"), Tup) and all(isinstance(c, Obj) or c.name.startswith("builtins.") and c.name != "builtins.KeyError" for c in I.mro(h.cls)):
            it = h.attrs["args"].items
            if len(it) < 2:
                return to_str(I, it[0], st, ctx) if it else K("")
        return term("str", I.freeze(x, st), kind="s")

    def leaf(y):
        if isinstance(y, K):
            if isinstance(y.val, str):
                return y
            if isinstance(y.val, Fraction):
                if y.kind == "i":
                    return K(str(int(y.val)))
                return K(str(float(y.val)))
            return K(str(y.val))
        if isinstance(y, EnumM):
            a, c = I.cls_lookup(y.cls, "__str__", st)
            if a is not None:
                return I.call(I.bind(a, y, y.cls, st, ctx), [], {}, st, ctx)
            return K(f"{y.cls.name}.{y.name}")
        if is_str(y):
            return y
        return term("str", I.freeze(y, st), kind="s")

    return apply1(leaf, x)


def fmt(I, x, spec, st, ctx):
    x = unbox(I, x, st)
    if isinstance(x, Ref):
        h = I.deref(st, x)
        if isinstance(h, _H().HInst) and isinstance(h.cls, Obj):
            a, c = I.cls_lookup(h.cls, "__format__", st)
            if a is not None:
                return I.call(I.bind(a, x, h.cls, st, ctx), [spec], {}, st, ctx)

    def leaf(y, s):
        if isinstance(s, K) and s.val == "":
            return to_str(I, y, st, ctx)
        if isinstance(y, K) and isinstance(s, K):
            try:
                p = y.py()
                return K(format(p, s.val))
            except Exception:
                return top("format")
        if isinstance(y, EnumM) and y.isstr and isinstance(s, K):
            return K(format(y.value.val, s.val))
        if isinstance(s, K) and isinstance(s.val, str):
            q = s.val
            if is_str(y):
                q = q[:-1] if q.endswith("s") else q
                s = K("<" + q if q.isdigit() and not q.startswith("0") else q)
            elif y.kind == "i" and q.isdigit():
                s = K(q + "d")
        return term("fmt", I.freeze(y, st), s, kind="s")

    return apply2(leaf, x, spec)


# ---------------------------------------------------------------- operators
NUMOPS = {
    "Add": v.add,
    "Sub": v.sub,
    "Mult": v.mul,
    "Div": v.div,
    "Pow": v.power,
    "FloorDiv": lambda a, b: v.floor(v.div(a, b)) if True else None,
    "Mod": lambda a, b: v.sub(a, v.mul(b, v.floor(v.div(a, b)))),
}
BITS = {"BitAnd": "&", "BitOr": "|", "BitXor": "^", "LShift": "<<", "RShift": ">>"}


def _bit(op):
    def f(a, b):
        if op == "BitAnd" and isbool(a) and isbool(b):
            return b_and(a, b)
        if op == "BitOr" and isbool(a) and isbool(b):
            return b_or(a, b)

        def leaf(x, y):
            cx, cy = const_of(x), const_of(y)
            if cx is not None and cy is not None:
                import operator

                fn = {"BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor, "LShift": operator.lshift, "RShift": operator.rshift}[op]
                return K(fn(int(cx), int(cy)))
            if op == "LShift":
                return v.mul(x, v.power(K(2), y))
            if op == "RShift":
                return v.floor(v.div(x, v.power(K(2), y)))
            return term(BITS[op], x, y, kind="i")

        return apply2(leaf, a, b)

    return f


def isbool(x):
    if isinstance(x, K):
        return x.kind == "b"
    if isinstance(x, G):
        return isbool(x.hi) and isbool(x.lo)
    return False


def binop(I, op, a, b, st, ctx):
    H = _H()
    a, b = simplify(a, st.pc), simplify(b, st.pc)
    # gates over heap references
    for x in (a, b):
        if isinstance(x, G) and any(isinstance(l, (Ref, Tup)) for _, l in leaves(x)):
            y = merged(I, x, st)
            if y is not None:
                return binop(I, op, y if x is a else a, y if x is b else b, st, ctx)
            return I.split(x, st, lambda l, s: binop(I, op, l if x is a else a, l if x is b else b, s, ctx))
    if a is NONE or b is NONE:
        I.raise_builtin(st, "TypeError")
        raise H.Dead()
    oa, ob = I.deref(st, a), I.deref(st, b)
    if isinstance(oa, H.HList) and isinstance(ob, H.HList) and oa.kind == "set" and ob.kind == "set" and op in ("BitOr", "BitAnd", "Sub", "BitXor"):
        ea, eb = oa.entries, ob.entries
        if all(e[2] is None for e in ea + eb):
            ins = lambda e, o: b_and(e[0], contains(I, o, e[1], st, ctx))
            nin = lambda e, o: b_and(e[0], b_not(contains(I, o, e[1], st, ctx)))
            keep = lambda es, o, f: [(simplify(f(e, o), st.pc), e[1], None) for e in es]
            new = {
                "BitOr": lambda: list(ea) + keep(eb, a, nin),
                "BitAnd": lambda: keep(ea, b, ins),
                "Sub": lambda: keep(ea, b, nin),
                "BitXor": lambda: keep(ea, b, nin) + keep(eb, a, nin),
            }[op]()
            return I.new(st, H.HList([e for e in new if e[0] is not FALSE], "set"))
        return top("set operator")
    if op == "Add":
        if isinstance(oa, H.HList) and isinstance(ob, H.HList):
            return I.new(st, H.HList(oa.entries + ob.entries))
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if is_str(a) or is_str(b):
            if isinstance(a, K) and isinstance(b, K) and not (isinstance(a.val, str) and isinstance(b.val, str)):
                I.raise_builtin(st, "TypeError")
            return concat(I, [a, b])
        if isinstance(oa, H.HList) or isinstance(ob, H.HList):
            if isinstance(oa, H.HArr) or isinstance(ob, H.HArr) or (oa is None) != (ob is None) and False:
                pass
            elif isinstance(oa, H.HList) and not isinstance(ob, (H.HArr, H.HBox)):
                return I.opq("concat", I.freeze(a, st), I.freeze(b, st))
            elif isinstance(ob, H.HList) and not isinstance(oa, (H.HArr, H.HBox)):
                return I.opq("concat", I.freeze(a, st), I.freeze(b, st))
    if op == "Mult":
        for x, ox, y in ((a, oa, b), (b, ob, a)):
            if isinstance(ox, H.HList) and isinstance(y, (K, T)):
                n = const_of(y)
                if n is not None and 0 <= n <= 4096:
                    return I.new(st, H.HList(ox.entries * int(n)))
                if isinstance(y, T) and not isinstance(y.kind, type(None)) and y.kind != "arr":
                    return I.opq("repeat", I.freeze(x, st), y)
            if isinstance(x, Tup) and const_of(y) is not None:
                return Tup(x.items * int(const_of(y)))
            if isinstance(x, K) and isinstance(x.val, str) and const_of(y) is not None:
                return K(x.val * int(const_of(y)))
    if op == "Mod" and is_str(a):
        return percent_format(I, a, b, st, ctx)
    if op in ("MatMult",):
        return np_dot(I, [a, b], {}, st, ctx)
    if op == "BitOr" and isinstance(oa, H.HDict):
        r = I.new(st, H.HDict(oa.entries, oa.base, oa.comps))
        dict_update(I, r, b, st)
        return r
    # user-defined operators
    for x, o, y, nm in ((a, oa, b, "__%s__"), (b, ob, a, "__r%s__")):
        if isinstance(o, H.HInst):
            nm2 = nm % {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv"}.get(op, op.lower())
            m, c = I.cls_lookup(o.cls, nm2, st) if isinstance(o.cls, Obj) else (None, None)
            if m is not None:
                return I.call(I.bind(m, x, o.cls, st, ctx), [y], {}, st, ctx)
    f = NUMOPS.get(op) or (_bit(op) if op in BITS else None)
    if f is None:
        return top("operator " + op)
    A, B = as_arr(I, a, st), as_arr(I, b, st)
    A, B = _nz(I, A, st), _nz(I, B, st)
    return wrap(I, map2(I, f, A, B), st)


def _nz(I, x, st):
    H = _H()
    if isinstance(x, H.HArr):
        return x
    if isinstance(x, (Ref, Tup, Obj, Ext)):
        return I.freeze(x, st)
    if isinstance(x, G):
        return apply1(lambda l: I.freeze(l, st) if isinstance(l, (Ref, Tup, Obj, Ext)) else l, x)
    return x


def percent_format(I, s, arg, st, ctx):
    import re

    if not isinstance(s, K):
        return term("pct", s, I.freeze(arg, st), kind="s")
    args = list(arg.items) if isinstance(arg, Tup) else [arg]
    parts, pos = [], 0
    for m in re.finditer(r"%([-+ 0#]*\d*(?:\.\d+)?)([sdifgrxeEfFgG%])", s.val):
        parts.append(K(s.val[pos : m.start()]))
        pos = m.end()
        if m.group(2) == "%":
            parts.append(K("%"))
            continue
        if not args:
            return term("pct", s, I.freeze(arg, st), kind="s")
        x = args.pop(0)
        if m.group(2) == "s" and not m.group(1):
            parts.append(to_str(I, x, st, ctx))
        else:
            parts.append(fmt(I, x, K(m.group(1) + ("d" if m.group(2) == "i" else m.group(2))), st, ctx))
    parts.append(K(s.val[pos:]))
    return concat(I, parts)


def compare(I, op, a, b, st, ctx):
    H = _H()
    a, b = simplify(unbox(I, a, st), st.pc), simplify(unbox(I, b, st), st.pc)
    if op in ("Is", "IsNot"):
        r = is_same(I, a, b, st)
        return r if op == "Is" else b_not(r)
    if op in ("In", "NotIn"):
        r = contains(I, b, a, st, ctx)
        return r if op == "In" else b_not(r)
    oa, ob = I.deref(st, a), I.deref(st, b)
    if isinstance(oa, H.HArr) or isinstance(ob, H.HArr):
        A, B = as_arr(I, a, st), as_arr(I, b, st)
        f = {"Lt": v.lt, "LtE": v.le, "Gt": v.gt, "GtE": v.ge, "Eq": v.veq, "NotEq": lambda x, y: b_not(v.veq(x, y))}[op]
        return wrap(I, map2(I, f, A, B), st)
    if op in ("Eq", "NotEq"):
        r = equals(I, a, b, st, ctx)
        return r if op == "Eq" else b_not(r)
    for x, o, y in ((a, oa, b),):
        if isinstance(o, H.HInst) and isinstance(o.cls, Obj):
            nm = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
            m, c = I.cls_lookup(o.cls, nm, st)
            if m is not None:
                return I.call(I.bind(m, a, o.cls, st, ctx), [b], {}, st, ctx)
    if isinstance(oa, H.HList) and isinstance(ob, H.HList) and oa.kind == "set" and ob.kind == "set":
        sub = lambda p, q: I.items_of(p, st) is not None and [contains(I, q, y, st, ctx) for y in I.items_of(p, st)]
        lo, hi = (a, b) if op in ("Lt", "LtE") else (b, a)
        cs = sub(lo, hi)
        if cs is not False:
            r = TRUE
            for c in cs:
                r = b_and(r, c)
            if op in ("Lt", "Gt"):
                r = b_and(r, b_not(equals(I, a, b, st, ctx)))
            return r
        return v.pred("setcmp", K(op), I.freeze(a, st), I.freeze(b, st))
    pa, pb = seq_items(I, a, oa, st), seq_items(I, b, ob, st)
    if pa is not None and pb is not None:
        strict = {"Lt": v.lt, "LtE": v.lt, "Gt": v.gt, "GtE": v.gt}[op]
        longer = len(pa) != len(pb)
        end = (len(pa) < len(pb)) if op in ("Lt", "LtE") else (len(pa) > len(pb))
        r = TRUE if (end if longer else op in ("LtE", "GtE")) else FALSE
        for x, y in reversed(list(zip(pa, pb))):
            r = b_or(compare(I, "Lt" if strict is v.lt else "Gt", x, y, st, ctx), b_and(equals(I, x, y, st, ctx), r))
        return r
    a2, b2 = _nz(I, a, st), _nz(I, b, st)
    return {"Lt": v.lt, "LtE": v.le, "Gt": v.gt, "GtE": v.ge}[op](a2, b2)


def seq_items(I, x, o, st):
    """The items of a tuple or list whose length is known."""
    H = _H()
    if isinstance(x, Tup):
        return list(x.items)
    if isinstance(o, H.HList) and o.kind == "list" and all(g is TRUE and l is None for g, _, l in o.entries):
        return [e[1] for e in o.entries]
    return None


def is_same(I, a, b, st):
    def leaf(x, y):
        if isinstance(x, K) and isinstance(y, K):
            return TRUE if x.key == y.key else FALSE
        if isinstance(x, (Ref, Tup, Obj, Ext, EnumM)) or isinstance(y, (Ref, Tup, Obj, Ext, EnumM)):
            if isinstance(x, T) or isinstance(y, T):
                o = x if isinstance(y, T) else y
                if isinstance(o, EnumM):
                    return v.veq(x, y)
                return TRUE if x.key == y.key else FALSE
            return TRUE if x.key == y.key else FALSE
        return v.veq(x, y)

    return apply2(leaf, a, b)


def equals(I, a, b, st, ctx):
    H = _H()

    def leaf(x, y):
        x, y = unbox(I, x, st), unbox(I, y, st)
        ox, oy = I.deref(st, x), I.deref(st, y)
        if x.key == y.key:
            return TRUE
        if isinstance(ox, H.HInst) and isinstance(ox.cls, Obj):
            m, c = I.cls_lookup(ox.cls, "__eq__", st)
            if m is not None:
                return I.truth(I.call(I.bind(m, x, ox.cls, st, ctx), [y], {}, st, ctx), st)
            if ox.cls.fields is not None and isinstance(oy, H.HInst) and oy.cls.key == ox.cls.key:
                r = TRUE
                for n, _, _ in ox.cls.fields:
                    r = b_and(r, equals(I, ox.attrs[n], oy.attrs[n], st, ctx))
                return r
            return FALSE if not isinstance(y, T) else v.pred("eq", I.freeze(x, st), y)
        cont = lambda z, o: "tuple" if isinstance(z, Tup) else "dict" if isinstance(o, H.HDict) else (o.kind if o.kind in ("list", "set") else None) if isinstance(o, H.HList) else None
        kx, ky = cont(x, ox), cont(y, oy)
        if kx and (ky and kx != ky or isinstance(y, K)) or ky and isinstance(x, K):
            return FALSE
        if kx == "set" and ky == "set":
            p, q = I.items_of(x, st), I.items_of(y, st)
            if p is not None and q is not None:
                r = TRUE
                for z in p:
                    r = b_and(r, contains(I, y, z, st, ctx))
                for z in q:
                    r = b_and(r, contains(I, x, z, st, ctx))
                return r
        elif isinstance(ox, H.HList) and isinstance(oy, H.HList):
            if all(e[0] is TRUE and e[2] is None for e in ox.entries + oy.entries):
                if len(ox.entries) != len(oy.entries):
                    return FALSE
                r = TRUE
                for p, q in zip(ox.entries, oy.entries):
                    r = b_and(r, equals(I, p[1], q[1], st, ctx))
                return r
        if isinstance(ox, H.HList) and not ox.entries and isinstance(y, T):
            return v.veq(term("len", y, kind="i"), K(0))
        if isinstance(oy, H.HList) and not oy.entries and isinstance(x, T):
            return v.veq(term("len", x, kind="i"), K(0))
        if isinstance(x, Ref):
            x = I.freeze(x, st)
        if isinstance(y, Ref):
            y = I.freeze(y, st)
        if isinstance(x, Tup) and isinstance(y, T) or isinstance(y, Tup) and isinstance(x, T):
            x, y = I.freeze(x, st), I.freeze(y, st)
        return v.veq(x, y)

    return apply2(leaf, a, b)


def contains(I, c, x, st, ctx):
    H = _H()
    if isinstance(c, G):
        return I.split(c, st, lambda l, s: contains(I, l, x, s, ctx))
    o = I.deref(st, c)
    if isinstance(o, H.HDict):
        r = FALSE
        for g, k, _ in o.entries.values():
            r = b_or(r, b_and(g, equals(I, k, x, st, ctx)))
        if o.base is not None:
            r = b_or(r, v.pred("in", x, o.base))
        for cnt, g, k, y in o.comps:
            r = b_or(r, v.pred("incomp", I.freeze(x, st), term("comp", cnt, g, I.freeze(k, st))))
        return r
    if isinstance(c, Obj) and c.key[0] == "items" and c.what == "keys":
        return contains(I, c.inner, x, st, ctx)
    if isinstance(c, Obj) and c.key[0] == "range" and v.const_of(c.step) == 1:
        return b_and(v.le(c.start, x), v.lt(x, c.stop))
    if isinstance(c, K) and isinstance(c.val, str):
        return apply1(lambda l: (TRUE if l.val in c.val else FALSE) if isinstance(l, K) and isinstance(l.val, str) else bvar(CV.get("in", (l.key, c.key), (l, c))), x)
    if isinstance(c, Obj) and c.key[0] == "cls" and c.enum is not None:
        r = FALSE
        for m in c.enum:
            r = b_or(r, v.veq(x, m))
        return r
    if isinstance(c, (Tup,)) or isinstance(o, (H.HList, H.HArr)):
        d = I.iter_desc(c, st)
        if d[0] == "concrete":
            r = FALSE
            for g, y in d[1]:
                r = b_or(r, b_and(g, equals(I, y, x, st, ctx)))
            return r
    if isinstance(o, H.HInst) and isinstance(o.cls, Obj):
        m, k = I.cls_lookup(o.cls, "__contains__", st)
        if m is not None:
            return I.truth(I.call(I.getattr(c, "__contains__", st, ctx), [x], {}, st, ctx), st)
    fx = I.freeze(x, st)
    ov = st.heap.get(("ov", c.key)) if isinstance(c, T) else None
    r = v.pred("in", fx, I.freeze(c, st) if not isinstance(c, T) else c)
    if ov is not None:
        for k, (kv, y) in ov.items.items():
            r = b_or(r, v.veq(kv, x))
    return r


def is_elem(o):
    return isinstance(getattr(o, "cls", None), Ext) and o.cls.name == "xml.etree.ElementTree.Element" and "__children__" in o.attrs


def truth(I, x, st):
    H = _H()
    x = simplify(x, st.pc)

    def leaf(y):
        if isinstance(y, K):
            return TRUE if y.val else FALSE
        if isinstance(y, Tup):
            return TRUE if y.items else FALSE
        if isinstance(y, (Obj, Ext)):
            return TRUE
        if isinstance(y, EnumM):
            return truth(I, y.value, st) if y.isstr else TRUE
        if isinstance(y, Ref):
            o = I.deref(st, y)
            if isinstance(o, H.HList):
                if not o.entries:
                    return FALSE
                r = FALSE
                for g, _, l in o.entries:
                    if l is None:
                        r = b_or(r, g)
                    else:
                        r = b_or(r, v.lt(K(0), l[0]) if g is TRUE and len(l) == 1 else bvar(CV.get("some", (v.vnof(l[0]), g.key), (l[0], g))))
                return r
            if isinstance(o, H.HDict):
                if o.base is None and not o.comps:
                    r = FALSE
                    for g, _, _ in o.entries.values():
                        r = b_or(r, g)
                    return r
                return v.pred("truthy", I.freeze(y, st))
            if isinstance(o, H.HArr):
                if len(o.data) == 1:
                    return truth(I, o.data[0], st)
                return TRUE
            if isinstance(o, H.HBox):
                return truth(I, o.val, st)
            if is_elem(o):
                return truth(I, o.attrs["__children__"], st)
            if isinstance(o, H.HInst) and isinstance(o.cls, Obj):
                m, c = I.cls_lookup(o.cls, "__bool__", st)
                if m is not None:
                    return truth(I, I.call(I.bind(m, y, o.cls, st, None), [], {}, st, None), st)
                m, c = I.cls_lookup(o.cls, "__len__", st)
                if m is not None:
                    return v.lt(K(0), I.call(I.bind(m, y, o.cls, st, None), [], {}, st, None))
            return TRUE
        if isinstance(y, T):
            if y.kind == "o":
                return TRUE
            if y.is_num:
                return b_not(v.veq(y, K(0)))
            if y.op == "m:match" or y.op == "x:re.search" or y.op == "x:re.match":
                return b_not(v.veq(y, NONE))
            if y.op in ("x:re.findall",):
                return v.lt(K(0), term("len", y, kind="i"))
            return bvar(CV.get("truthy", y.key, y))
        return TRUE

    for g, l in leaves(x):
        if isinstance(l, Ref):
            o = I.deref(st, l)
            if isinstance(o, H.HArr) and len(o.data) > 1:
                I.raise_builtin(st, "ValueError", g)  # the truth value of an array with more than one element is ambiguous
    return apply1(leaf, x)


# ---------------------------------------------------------------- len / indexing
def vlen(I, x, st):
    H = _H()
    x = simplify(unbox(I, x, st), st.pc)
    if isinstance(x, G):
        return I.split(x, st, lambda l, s: vlen(I, l, s))
    if isinstance(x, Tup):
        return K(len(x.items))
    if isinstance(x, K):
        if isinstance(x.val, (str, bytes)):
            return K(len(x.val))
        I.raise_builtin(st, "TypeError")
        raise H.Dead()
    if isinstance(x, EnumM) and x.isstr:
        return K(len(x.value.val))
    if isinstance(x, Ref):
        o = I.deref(st, x)
        if isinstance(o, H.HList):
            r = K(0)
            for g, y, l in o.entries:
                if l is None:
                    r = v.add(r, ite(g, K(1), K(0)))
                else:
                    r = v.add(r, l[0] if g is TRUE and len(l) == 1 else term("count", *l, g, kind="i"))
            return r
        if isinstance(o, H.HDict) and o.base is None and not o.comps:
            r = K(0)
            for g, _, _ in o.entries.values():
                r = v.add(r, ite(g, K(1), K(0)))
            return r
        if isinstance(o, H.HArr):
            return K(o.shape[0])
        if is_elem(o):
            return vlen(I, o.attrs["__children__"], st)
        if isinstance(o, H.HInst) and isinstance(o.cls, Obj):
            m, c = I.cls_lookup(o.cls, "__len__", st)
            if m is not None:
                return I.call(I.bind(m, x, o.cls, st, None), [], {}, st, None)
    if isinstance(x, Obj) and x.key[0] == "cls" and x.enum is not None:
        return K(len(x.enum))
    if isinstance(x, Obj) and x.key[0] in ("range", "zip", "items", "enumerate"):
        d = I.iter_desc(x, st)
        return K(len(d[1])) if d[0] == "concrete" else d[1]
    fz = I.freeze(x, st)
    if isinstance(fz, T) and fz.op == "seq" and not any(isinstance(a, T) and a.op in ("comp", "opt", "star") for a in fz.args):
        return K(len(fz.args))
    n = KNOWN_LEN.get(fz.op) if isinstance(fz, T) else None
    if n is not None:
        return K(n)
    return I.opq("len", fz, kind="i")


KNOWN_LEN = {}


def _sl(I, sl, n):
    """resolve a slice with constant bounds on a length n; None if not constant"""

    def c(x):
        if isinstance(x, K) and x.val is None:
            return None
        k = const_of(x)
        if k is None:
            raise ValueError
        return int(k)

    try:
        return slice(c(sl.lo), c(sl.hi), c(sl.step)).indices(n)
    except ValueError:
        return None


def getitem(I, o, k, st, ctx):
    H = _H()
    o = simplify(o, st.pc)
    k = simplify(unbox(I, k, st), st.pc)
    if isinstance(o, G):
        return I.split(o, st, lambda l, s: getitem(I, l, k, s, ctx))
    if isinstance(k, G):
        return I.split(k, st, lambda l, s: getitem(I, o, l, s, ctx))
    if isinstance(o, Tup):
        return seq_get(I, list(o.items), k, st, lambda xs: Tup(xs))
    if isinstance(o, K):
        if isinstance(o.val, (str, bytes)):
            if isinstance(k, Obj) and k.key[0] == "slice":
                s = _sl(I, k, len(o.val))
                if s is not None:
                    return K(o.val[slice(*[s[0], s[1] if not (s[2] < 0 and s[1] < 0) else None, s[2]])])
                return term("slice", o, k.lo, k.hi, k.step, kind="s")
            c = const_of(k)
            if c is not None:
                try:
                    return K(o.val[int(c)])
                except IndexError:
                    I.raise_builtin(st, "IndexError")
                    raise H.Dead()
            return term("item", o, k, kind="s")
        I.raise_builtin(st, "TypeError")
        raise H.Dead()
    if isinstance(o, Ref):
        h = I.deref(st, o)
        if isinstance(h, H.HList):
            if all(g is TRUE and l is None for g, _, l in h.entries):
                return seq_get(I, [e[1] for e in h.entries], k, st, lambda xs: I.new_list(st, xs), o)
            return guarded_get(I, o, h, k, st)
        if isinstance(h, H.HArr):
            return arr_get(I, o, h, k, st)
        if isinstance(h, H.HDict):
            return dict_get(I, o, h, k, st, ctx)
        if isinstance(h, H.HBox):
            return getitem(I, h.val, k, st, ctx)
        if is_elem(h):
            return getitem(I, h.attrs["__children__"], k, st, ctx)
        if isinstance(h, H.HInst) and isinstance(h.cls, Obj):
            m, c = I.cls_lookup(h.cls, "__getitem__", st)
            if m is not None:
                return I.call(I.bind(m, o, h.cls, st, ctx), [k], {}, st, ctx)
        return term("item", I.freeze(o, st), I.freeze(k, st))
    if isinstance(o, Obj) and o.key[0] == "cls" and o.enum is not None:
        r = UNDEF
        for m in reversed(o.enum):
            r = ite(v.veq(k, K(m.name)), m, r)
        und = apply1(lambda l: TRUE if l.key == UNDEF.key else FALSE, r)
        I.raise_builtin(st, "KeyError", und)
        return simplify(r, st.pc)
    if isinstance(o, T):
        ov = st.heap.get(("ov", o.key))
        if ov is not None:
            e = ov.items.get(k.key)
            if e is not None:
                und = apply1(lambda l: TRUE if l.key == UNDEF.key else FALSE, e[1])
                if und is FALSE:
                    return e[1]
                return ite(und, opaque_item(I, o, k, st), e[1])
            for kk, (kv, y) in reversed(list(ov.items.items())):
                if isbool(kv) or (isinstance(k, Obj) and k.key[0] == "slice"):
                    return term("item", I.freeze(o, st), I.freeze(k, st))
        return opaque_item(I, o, k, st)
    if isinstance(o, (Ext,)):
        return o  # typing subscripts
    if isinstance(o, Obj):
        if o.key[0] == "cls":
            return o
        it = I.items_of(o, st)
        if it is not None:
            return seq_get(I, it, k, st, lambda xs: I.new_list(st, xs))
    return term("item", I.freeze(o, st), I.freeze(k, st))


def opaque_item(I, o, k, st):
    if isinstance(k, Obj) and k.key[0] == "slice":
        if all(isinstance(x, K) and x.val is None for x in (k.lo, k.hi, k.step)):
            return o
        lo = K(0) if isinstance(k.lo, K) and k.lo.val is None else k.lo
        return I.opq("slice", o, lo, k.hi, k.step, kind="s" if o.kind == "s" else "?")
    if isbool(k):
        return term("mask", o, k)
    if o.op == "seq" and const_of(k) is not None:
        n = len(o.args)
        i = int(const_of(k))
        if not any(isinstance(a, T) and a.op in ("comp", "opt", "star") for a in o.args):
            if -n <= i < n:
                return o.args[i]
            I.raise_builtin(st, "IndexError")
    if o.op == "dict":
        for a in o.args:
            if isinstance(a, T) and a.op == "kv" and a.args[0].key == k.key:
                return a.args[1]
    if "key" in I.flags and isinstance(k, K) and isinstance(k.val, str):
        I.raise_builtin(st, "KeyError", b_not(v.pred("in", k, o)))
    if "index" in I.flags and const_of(k) is not None and not o.op.startswith("seq"):
        c = const_of(k)
        if c >= 0:
            I.raise_builtin(st, "IndexError", b_not(v.lt(k, term("len", o, kind="i"))))
        else:
            I.raise_builtin(st, "IndexError", v.lt(v.add(term("len", o, kind="i"), k), K(0)))
    return I.opq("item", o, I.freeze(k, st), kind="f" if o.kind == "farr" else "?")


def seq_get(I, items, k, st, mk, o=None):
    H = _H()
    if isinstance(k, Obj) and k.key[0] == "slice":
        s = _sl(I, k, len(items))
        if s is not None:
            return mk([items[i] for i in range(*s)])
        return term("slice", I.freeze(mk(items), st), k.lo, k.hi, k.step)
    c = const_of(k)
    if c is not None:
        i = int(c)
        if -len(items) <= i < len(items):
            return items[i]
        I.raise_builtin(st, "IndexError")
        raise H.Dead()
    if isinstance(k, Tup) and o is not None:
        return term("item", I.freeze(o, st), I.freeze(k, st))
    if isbool(k) and len(items) == 2:
        return ite(k, items[1], items[0])
    if 0 < len(items) <= 12 and isinstance(k, T) and getattr(k, "kind", "?") == "i" and "gateidx" in I.flags:
        r, n = items[-1], len(items)
        for j in range(n - 1, -1, -1):
            r = ite(v.b_or(v.veq(k, K(j)), v.veq(k, K(j - n))), items[j], r)
        I.raise_builtin(st, "IndexError", b_or(v.lt(k, K(-n)), v.ge(k, K(n))))
        return simplify(r, st.pc)
    if all(isinstance(x, (K, T)) for x in items):
        return term("item", term("seq", *items), k)
    # elements are heap objects: an opaque element of the frozen sequence
    return term("item", I.freeze(o if o is not None else Tup(items), st), k)


def guarded_get(I, o, h, k, st):
    H = _H()
    c = const_of(k)
    if isinstance(k, Obj) and k.key[0] == "slice":
        lo, hi = const_of(k.lo) if not (isinstance(k.lo, K) and k.lo.val is None) else 0, k.hi
        if all(e[0] is TRUE and e[2] is None for e in h.entries[: int(lo or 0)]) and isinstance(hi, K) and hi.val is None and (lo or 0) >= 0:
            return I.new(st, H.HList(h.entries[int(lo or 0) :]))
        return term("slice", I.freeze(o, st), k.lo, k.hi, k.step)
    if c is None:
        if len(h.entries) == 1 and h.entries[0][0] is TRUE and h.entries[0][2] and len(h.entries[0][2]) == 1:
            return I.subst_item(h.entries[0][1], k, st)
        return term("item", I.freeze(o, st), k)
    ents = list(h.entries)
    i = int(c)
    if i < 0:
        ents = ents[::-1]
        i = -i - 1

    def pick(n, j):
        if n == len(ents):
            return UNDEF
        g, x, l = ents[n]
        if l is not None:
            if g is TRUE and len(l) == 1 and int(c) >= 0:
                # j-th element of the generic block (if long enough)
                cnt = l[0]
                rest = term("item", I.freeze(o, st), k)
                xj = I.subst_item(x, K(j), st)
                return ite(v.lt(K(j), cnt), xj, UNDEF if n == len(ents) - 1 else rest)
            return term("item", I.freeze(o, st), k)
        if g is TRUE:
            return x if j == 0 else pick(n + 1, j - 1)
        return ite(g, x if j == 0 else pick(n + 1, j - 1), pick(n + 1, j))

    r = simplify(pick(0, i), st.pc)
    und = apply1(lambda l: TRUE if l.key == UNDEF.key else FALSE, r)
    if und is not FALSE:
        I.raise_builtin(st, "IndexError", und)
        r = simplify(r, st.pc)
    return r


def dict_get(I, o, h, k, st, ctx, default=None):
    H = _H()
    if isinstance(k, EnumM) and k.isstr:
        k = k.value
    e = h.entries.get(k.key)
    if e is not None and e[0] is TRUE:
        return e[2]
    r = UNDEF
    if h.base is not None:
        inb = v.pred("in", k, h.base)
        r = ite(inb, I.opq("item", h.base, I.freeze(k, st)), UNDEF)
    if h.comps:
        fz = I.freeze(o, st)
        inb = v.pred("in", I.freeze(k, st), fz)
        r = ite(inb, I.opq("item", fz, I.freeze(k, st)), r)
    for g, kk, y in h.entries.values():
        c = b_and(g, equals(I, kk, k, st, ctx))
        r = ite(c, y, r)
    r = simplify(r, st.pc)
    und = apply1(lambda l: TRUE if l.key == UNDEF.key else FALSE, r)
    if default is not None:
        return ite(und, default, r)
    if und is not FALSE:
        I.raise_builtin(st, "KeyError", und, k)
        r = simplify(r, st.pc)
    return r


def arr_get(I, o, h, k, st):
    H = _H()
    keys = list(k.items) if isinstance(k, Tup) else [k]
    if isinstance(k, Ref):
        m = as_arr(I, k, st)
        if isinstance(m, H.HArr) and m.shape == h.shape and all(isbool(q) for q in m.data):
            # boolean mask: the elements whose mask holds
            return I.new(st, H.HList([(g, x, None) for g, x in zip(m.data, h.data) if g is not FALSE], "masked"))
        if isinstance(m, H.HArr) and len(h.shape) == 1 and not any(isbool(q) for q in m.data) and (len(m.shape) > 1 or any(const_of(q) is None for q in m.data)):
            # index array: the element at each index
            return I.new(st, H.HArr(m.shape, [arr_get(I, o, h, q, st) for q in m.data]))
    if any(isinstance(x, K) and x.val is Ellipsis for x in keys):
        i = [j for j, x in enumerate(keys) if isinstance(x, K) and x.val is Ellipsis][0]
        full = Obj(("slice", NONE.key, NONE.key, NONE.key), lo=NONE, hi=NONE, step=NONE)
        keys = keys[:i] + [full] * (len(h.shape) - len([x for x in keys if not (isinstance(x, K) and x.val is None)]) + 1) + keys[i + 1 :]
    shape, idxs, dims = h.shape, [], []
    basic = isinstance(o, Ref) and isinstance(I.deref(st, o), H.HArr)
    d = 0
    for x in keys:
        if isinstance(x, K) and x.val is None:
            dims.append(1)
            idxs.append(("new",))
            continue
        if d >= len(shape):
            I.raise_builtin(st, "IndexError")
            raise H.Dead()
        if isinstance(x, Obj) and x.key[0] == "slice":
            s = _sl(I, x, shape[d])
            if s is None:
                return term("item", I.freeze(o, st), I.freeze(k, st))
            idxs.append(("s", list(range(*s))))
        elif const_of(x) is not None:
            i = int(const_of(x))
            if not -shape[d] <= i < shape[d]:
                I.raise_builtin(st, "IndexError")
                raise H.Dead()
            idxs.append(("i", i % shape[d]))
        elif isinstance(x, Ref) or isinstance(x, Tup):
            a = as_arr(I, x, st)
            if isinstance(a, H.HArr) and len(a.shape) == 1 and all(const_of(q) is not None for q in a.data) and not any(isbool(q) for q in a.data):
                idxs.append(("s", [int(const_of(q)) % shape[d] for q in a.data]))
                basic = False
            else:
                return term("item", I.freeze(o, st), I.freeze(k, st))
        else:
            if len(shape) == 1 and shape[0] <= 12 and "gateidx" in I.flags:
                return seq_get(I, list(h.data), x, st, None)
            return term("item", I.freeze(o, st), I.freeze(k, st))
        d += 1
    for j in range(d, len(shape)):
        idxs.append(("s", list(range(shape[j]))))
    strides = _strides(shape)
    osh, rngs = [], []
    dd = 0
    for e in idxs:
        if e[0] == "new":
            osh.append(1)
            rngs.append([0])
        elif e[0] == "s":
            osh.append(len(e[1]))
            rngs.append([q * strides[dd] for q in e[1]])
            dd += 1
        else:
            rngs.append([e[1] * strides[dd]])
            dd += 1
    pos = [sum(c) for c in itertools.product(*rngs)]
    if not osh:
        return h.data[pos[0]]
    if basic:
        return I.view(st, o, osh, pos)
    return I.new(st, H.HArr(tuple(osh), [h.data[p] for p in pos]))


def setitem(I, o, k, val, st, ctx):
    H = _H()
    k = simplify(unbox(I, k, st), st.pc)
    if isinstance(k, G) and not isbool(k):
        I.split(k, st, lambda l, s: setitem(I, o, l, val, s, ctx) or NONE)
        return
    if isinstance(o, Ref):
        h = I.deref(st, o)
        if isinstance(h, H.HDict):
            d = dict(h.entries)
            kk = k.key
            if kk in d and not isinstance(k, (K, EnumM, Tup)):
                pass
            d[kk] = (TRUE, k, val)
            I.hset(st, o.addr, H.HDict(d, h.base, h.comps))
            return
        if isinstance(h, H.HList):
            c = const_of(k)
            if c is not None and all(g is TRUE and l is None for g, _, l in h.entries):
                i = int(c)
                if not -len(h.entries) <= i < len(h.entries):
                    I.raise_builtin(st, "IndexError")
                    return
                e = list(h.entries)
                e[i] = (TRUE, val, None)
                I.hset(st, o.addr, H.HList(e, h.kind))
                return
            if isinstance(k, Obj) and k.key[0] == "slice" and all(g is TRUE and l is None for g, _, l in h.entries):
                s = _sl(I, k, len(h.entries))
                it = I.items_of(val, st)
                if s is not None and it is not None and s[2] != 1:
                    e = list(h.entries)
                    if len(range(*s)) != len(it):
                        I.raise_builtin(st, "ValueError")
                        return
                    for j, x in zip(range(*s), it):
                        e[j] = (TRUE, x, None)
                    I.hset(st, o.addr, H.HList(e, h.kind))
                    return
                if s is not None and it is not None:
                    e = list(h.entries)
                    e[s[0] : s[1]] = [(TRUE, x, None) for x in it]
                    I.hset(st, o.addr, H.HList(e, h.kind))
                    return
            fz = I.freeze(o, st)
            I.hset(st, o.addr, H.HList([(TRUE, term("stored", fz, I.freeze(k, st), I.freeze(val, st)), None)], h.kind))
            return
        if isinstance(h, H.HArr):
            arr_set(I, o, h, k, val, st)
            return
        if isinstance(h, H.HBox):
            base = h.val
            if isbool(k):
                nv = unbox(I, val, st)
                if isinstance(nv, T) and nv.op == "mask" and nv.args[1].key == k.key:
                    nv = nv.args[0]
                I.hset(st, o.addr, H.HBox(ite(k, nv, base)))
            else:
                I.hset(st, o.addr, H.HBox(I.opq("stored", I.freeze(base, st), I.freeze(k, st), I.freeze(val, st))))
            return
        if isinstance(h, H.HInst) and isinstance(h.cls, Obj):
            m, c = I.cls_lookup(h.cls, "__setitem__", st)
            if m is not None:
                I.call(I.bind(m, o, h.cls, st, ctx), [k, val], {}, st, ctx)
        return
    if isinstance(o, T):
        ov = st.heap.get(("ov", o.key)) or H.HOv({}, {})
        it = dict(ov.items)
        it[k.key] = (I.freeze(k, st), val)
        st.heap[("ov", o.key)] = H.HOv(ov.attrs, it)
        I.log_event(st, "setitem", [o, k, val], {}, NONE)
        return


def arr_set(I, o, h, k, val, st):
    H = _H()
    strides = _strides(h.shape)
    keys = list(k.items) if isinstance(k, Tup) else [k]
    dots = [j for j, x in enumerate(keys) if isinstance(x, K) and x.val is Ellipsis]
    if dots:
        whole = Obj(("slice", NONE.key, NONE.key, NONE.key), lo=NONE, hi=NONE, step=NONE)
        keys[dots[0] : dots[0] + 1] = [whole] * (len(h.shape) - len(keys) + 1)
    rngs, osh = [], []
    a = as_arr(I, val, st)
    if isbool(k) or (isinstance(k, Ref) and isinstance(I.deref(st, k), H.HArr) and all(isbool(q) for q in I.deref(st, k).data)):
        m = as_arr(I, k, st)
        if isinstance(m, H.HArr) and m.shape == h.shape and not isinstance(a, H.HArr):
            I.hset(st, o.addr, H.HArr(h.shape, [ite(c, a, x) for c, x in zip(m.data, h.data)]))
            return
    for d, x in enumerate(keys):
        if isinstance(x, Obj) and x.key[0] == "slice":
            s = _sl(I, x, h.shape[d])
            if s is None:
                break
            rngs.append([q * strides[d] for q in range(*s)])
            osh.append(len(rngs[-1]))
        elif const_of(x) is not None:
            i = int(const_of(x))
            if not -h.shape[d] <= i < h.shape[d]:
                I.raise_builtin(st, "IndexError")
                return
            rngs.append([(i % h.shape[d]) * strides[d]])
        else:
            break
    else:
        for j in range(len(keys), len(h.shape)):
            rngs.append([q * strides[j] for q in range(h.shape[j])])
            osh.append(h.shape[j])
    if len(rngs) != len(h.shape):
        if len(h.shape) == 1 and isinstance(k, T) and not isinstance(a, H.HArr):
            # symbolic index: every cell is conditionally overwritten
            I.hset(st, o.addr, H.HArr(h.shape, [ite(v.veq(k, K(j)), a, x) for j, x in enumerate(h.data)]))
            return
        I.hset(st, o.addr, H.HBox(term("stored", I.freeze(o, st), I.freeze(k, st), I.freeze(val, st))))
        return
    pos = [sum(c) for c in itertools.product(*rngs)]
    data = list(h.data)
    if isinstance(a, H.HArr):
        tgt = H.HArr(tuple(osh), [K(0)] * len(pos))
        b = map2(I, lambda x, y: y, tgt, a)
        if not isinstance(b, H.HArr) or len(b.data) != len(pos):
            I.hset(st, o.addr, H.HBox(top("array store shape")))
            return
        for p, x in zip(pos, b.data):
            data[p] = x
    else:
        for p in pos:
            data[p] = a
    I.hset(st, o.addr, H.HArr(h.shape, data))


def dict_update(I, r, other, st):
    H = _H()
    h = I.deref(st, r)
    o = I.deref(st, other)
    d = dict(h.entries)
    if isinstance(o, H.HDict) and o.base is None and not o.comps:
        for kk, (g, k, y) in o.entries.items():
            if g is TRUE:
                d[kk] = (TRUE, k, y)
            else:
                old = d.get(kk)
                d[kk] = (b_or(g, old[0]) if old else g, k, ite(g, y, old[2]) if old else y)
        I.hset(st, r.addr, H.HDict(d, h.base, h.comps))
        return
    fz = I.freeze(other, st)
    if not h.entries and h.base is None:
        I.hset(st, r.addr, H.HDict({}, fz, h.comps))
    else:
        base = fz if h.base is None else term("merge", h.base, fz)
        nd = {}
        for kk, (g, k, y) in d.items():
            nd[kk] = (g, k, ite(v.pred("in", k, fz), I.opq("item", fz, k), y))
        I.hset(st, r.addr, H.HDict(nd, base, h.comps))


# ---------------------------------------------------------------- attributes of heap objects / opaque objects
def heap_attr(I, o, h, name, st, ctx):
    H = _H()
    if isinstance(h, H.HArr):
        if name == "shape":
            return Tup([K(d) for d in h.shape])
        if name == "ndim":
            return K(len(h.shape))
        if name == "size":
            return K(len(h.data))
        if name == "T":
            return np_transpose(I, [o], {}, st, ctx)
        if name == "dtype":
            return term("dtype", I.freeze(o, st))
        if name == "real" or name == "imag":
            return wrap(I, map1(I, lambda x: I.opq("a:" + name, x), h), st)
    if isinstance(h, H.HBox):
        if name in ("shape", "dtype", "ndim", "size", "real", "imag", "T"):
            return I.getattr(unbox(I, h.val, st), name, st, ctx)
        val = unbox(I, h.val, st)
        if isinstance(val, T) and name not in BOX_METHODS:
            return I.getattr(val, name, st, ctx)
    return None


BOX_METHODS = {"copy", "astype", "reshape", "sum", "max", "min", "mean", "fill", "tolist", "transpose", "flatten", "ravel", "sort", "append"}


def opaque_attr(I, o, name, st):
    if name == "T":
        return I.opq("transpose", o)
    if name in ("shape",):
        return I.opq("a:shape", o)
    if name == "ndim" and o.op.startswith("sym:") and o.kind == "num":
        return K(0)
    if METHODISH.get(name):
        return Obj(("meth", o.key, name), recv=o, name=name)
    k = ATTR_KIND.get(name, "?")
    return term("a:" + name, o, kind=k)


METHODISH = {}
ATTR_KIND = {"RasterXSize": "i", "RasterYSize": "i", "RasterCount": "i", "XSize": "i", "YSize": "i"}


def ext_attr(I, e, st):
    n = e.name
    if n in I.w.aliases:
        return I.w.aliases[n]
    if n in ("numpy.pi", "math.pi"):
        return v.PI
    if n in ("numpy.inf", "math.inf", "numpy.Inf"):
        return K(float("inf"))
    if n in ("numpy.newaxis",):
        return NONE
    if n in ("numpy.nan", "math.nan"):
        return term("nan")
    if n.startswith(("osgeo.gdalconst.", "osgeo.gdal.", "gdal.GDT_")):
        c = GDALCONST.get(n.rsplit(".", 1)[1])
        if c is not None:
            return K(c)
    return e


GDALCONST = dict(zip("GDT_Unknown GDT_Byte GDT_UInt16 GDT_Int16 GDT_UInt32 GDT_Int32 GDT_Float32 GDT_Float64 GDT_CInt16 GDT_CInt32 GDT_CFloat32 GDT_CFloat64 GDT_UInt64 GDT_Int64 GDT_Int8".split(), range(15)), GA_ReadOnly=0, GA_Update=1)


# ---------------------------------------------------------------- methods
def method(I, recv, name, args, kw, st, ctx):
    H = _H()
    recv = simplify(recv, st.pc)
    if isinstance(recv, G):
        return I.split(recv, st, lambda l, s: method(I, l, name, args, kw, s, ctx))
    if isinstance(recv, EnumM) and recv.isstr:
        recv = recv.value
    if isinstance(recv, K):
        return k_method(I, recv, name, args, kw, st, ctx)
    if isinstance(recv, Ref):
        h = I.deref(st, recv)
        if isinstance(h, H.HList) and h.kind == "masked" and "numpy." + name in NP:
            return NP["numpy." + name](I, [recv] + list(args), kw, st, ctx)
        if isinstance(h, H.HList):
            return list_method(I, recv, h, name, args, kw, st, ctx)
        if isinstance(h, H.HDict):
            return dict_method(I, recv, h, name, args, kw, st, ctx)
        if isinstance(h, (H.HArr, H.HBox)):
            return arr_method(I, recv, h, name, args, kw, st, ctx)
        if is_elem(h):
            from . import xmlmodel

            return xmlmodel.method(I, recv, h, name, args, kw, st, ctx)
        if isinstance(h, H.HInst) and isinstance(h.cls, Ext) and h.cls.name == SIO:
            return sio_method(I, recv, h, name, args, kw, st, ctx)
        if isinstance(h, H.HInst) and isinstance(h.cls, Ext) and h.cls.name == POLY:
            return poly_method(I, h, name, args, kw, st, ctx)
        return call_term(I, "m:" + name, [recv] + list(args), kw, st)
    if isinstance(recv, Tup):
        if name == "index":
            return top("tuple.index")
        if name == "count":
            return top("tuple.count")
        if name == "_replace":
            items = list(recv.items)
            for k, x in kw.items():
                items[recv.names.index(k)] = x
            return Tup(items, recv.names, recv.cls)
        if name == "_asdict":
            return I.new(st, H.HDict({K(n).key: (TRUE, K(n), x) for n, x in zip(recv.names, recv.items)}))
    if isinstance(recv, Obj) and recv.key[0] == "cls":
        if recv.enum is not None and name in ("keys",):
            pass
        if name == "_make" and getattr(recv, "nt", None):
            return nt_new(I, recv, I.items_of(args[0], st) or [], {}, st, ctx)
    if isinstance(recv, Obj) and recv.key[0] == "items":
        return call_term(I, "m:" + name, [recv] + list(args), kw, st)
    if isinstance(recv, T):
        return opaque_method(I, recv, name, args, kw, st, ctx)
    return call_term(I, "m:" + name, [recv] + list(args), kw, st)


def k_method(I, recv, name, args, kw, st, ctx):
    if isinstance(recv.val, (str, bytes)):
        if name == "join":
            return join(I, recv, args[0], st, ctx)
        if name == "format":
            return str_format(I, recv, args, kw, st, ctx)
        if name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], Tup):
            r = FALSE
            for a in args[0].items:
                r = b_or(r, k_method(I, recv, name, [a], kw, st, ctx))
            return r
        cargs = [unbox(I, a, st) for a in args]
        if all(isinstance(a, K) for a in cargs) and not kw:
            try:
                r = getattr(recv.val, name)(*[a.py() for a in cargs])
            except AttributeError:
                I.raise_builtin(st, "AttributeError")
                return top("str method")
            except Exception:
                return top("str method " + name)
            if isinstance(r, list):
                return I.new_list(st, [K(x) for x in r])
            if isinstance(r, tuple):
                return Tup([K(x) for x in r])
            return K(r)
        return call_term(I, "m:" + name, [recv] + list(args), kw, st, kind="s" if name in STR_METHODS else "?")
    if isinstance(recv.val, Fraction):
        return arr_method_scalar(I, recv, name, args, kw, st)
    if recv.val is None:
        I.raise_builtin(st, "AttributeError")
        raise _H().Dead()
    return call_term(I, "m:" + name, [recv] + list(args), kw, st)


STR_METHODS = {"upper", "lower", "strip", "replace", "decode", "lstrip", "rstrip", "format", "zfill", "rjust", "ljust", "title"}


def str_format(I, s, args, kw, st, ctx):
    import string

    parts = []
    auto = 0
    for lit, fld, spec, conv in string.Formatter().parse(s.val):
        parts.append(K(lit))
        if fld is None:
            continue
        if fld == "":
            x = args[auto]
            auto += 1
        elif fld.isdigit():
            x = args[int(fld)]
        elif fld in kw:
            x = kw[fld]
        else:
            return top("format field")
        parts.append(fmt(I, x, K(spec or ""), st, ctx))
    return concat(I, parts)


def join(I, sep, x, st, ctx):
    H = _H()
    x = unbox(I, x, st)
    if isinstance(x, G):
        return I.split(x, st, lambda l, s: join(I, sep, l, s, ctx))
    d = I.iter_desc(x, st)
    if d[0] == "concrete":
        if all(g is TRUE for g, _ in d[1]):
            parts = []
            for j, (_, y) in enumerate(d[1]):
                if j:
                    parts.append(sep)
                parts.append(y)
            return concat(I, parts)
        if isinstance(sep, K) and sep.val == "":
            return concat(I, [ite(g, y, K("")) for g, y in d[1]])
    return term("join", sep, I.freeze(x, st), kind="s")


def list_method(I, recv, h, name, args, kw, st, ctx):
    H = _H()
    plain = all(g is TRUE and l is None for g, _, l in h.entries)
    if name in ("append", "add"):
        if name == "add" and any(e[1].key == args[0].key and e[0] is TRUE and e[2] is None for e in h.entries):
            return NONE
        I.hset(st, recv.addr, H.HList(h.entries + ((TRUE, args[0], None),), h.kind))
        return NONE
    if name in ("extend", "update"):
        x = simplify(unbox(I, args[0], st), st.pc)
        if isinstance(x, G):
            I.split(x, st, lambda l, s: list_method(I, recv, I.deref(s, recv), name, [l], kw, s, ctx))
            return NONE
        o = I.deref(st, x)
        if isinstance(o, H.HList):
            I.hset(st, recv.addr, H.HList(h.entries + o.entries, h.kind))
            return NONE
        it = I.items_of(x, st)
        if it is not None:
            I.hset(st, recv.addr, H.HList(h.entries + tuple((TRUE, y, None) for y in it), h.kind))
        else:
            d = I.iter_desc(x, st)
            b = T("bv", (K(st.depth),), v.f_hash("bv", st.depth), "i")
            I.hset(st, recv.addr, H.HList(h.entries + ((TRUE, d[2](b, st), (d[1],)),), h.kind))
        return NONE
    if name == "copy":
        return I.new(st, H.HList(h.entries, h.kind))
    if name == "insert" and const_of(args[0]) is not None and plain:
        e = list(h.entries)
        e.insert(int(const_of(args[0])), (TRUE, args[1], None))
        I.hset(st, recv.addr, H.HList(e, h.kind))
        return NONE
    if name == "pop" and plain:
        i = int(const_of(args[0])) if args else -1
        if not h.entries:
            I.raise_builtin(st, "IndexError")
            raise H.Dead()
        e = list(h.entries)
        x = e.pop(i)
        I.hset(st, recv.addr, H.HList(e, h.kind))
        return x[1]
    if name == "reverse" and plain:
        I.hset(st, recv.addr, H.HList(h.entries[::-1], h.kind))
        return NONE
    if name == "clear":
        I.hset(st, recv.addr, H.HList((), h.kind))
        return NONE
    if name == "index" and plain:
        r = UNDEF
        for j in range(len(h.entries) - 1, -1, -1):
            r = ite(equals(I, h.entries[j][1], args[0], st, ctx), K(j), r)
        und = apply1(lambda l: TRUE if l.key == UNDEF.key else FALSE, r)
        I.raise_builtin(st, "ValueError", und)
        return simplify(r, st.pc)
    if name in ("remove", "discard") and plain and len(args) == 1:
        for j, e in enumerate(h.entries):
            c = simplify(equals(I, e[1], args[0], st, ctx), st.pc)
            if c is TRUE:
                I.hset(st, recv.addr, H.HList(h.entries[:j] + h.entries[j + 1 :], h.kind))
                return NONE
            if c is not FALSE:
                break
        else:
            if name == "remove":
                I.raise_builtin(st, "KeyError" if h.kind == "set" else "ValueError")
                raise H.Dead()
            return NONE
    if name == "count" and plain and len(args) == 1:
        cs = [simplify(equals(I, e[1], args[0], st, ctx), st.pc) for e in h.entries]
        if all(c is TRUE or c is FALSE for c in cs):
            return K(sum(c is TRUE for c in cs))
    if name == "sort":
        x = _mklist(I, [recv], kw, st, ctx, "sorted")
        if I.items_of(x, st) is None:
            x = _mklist(I, [x], {}, st, ctx, "list")
        o = I.deref(st, x)
        I.hset(st, recv.addr, H.HList(o.entries if isinstance(o, H.HList) else [(TRUE, top("sorted"), None)]))
        return NONE
    if name in ("tolist",):
        return recv
    fz = I.freeze(recv, st)
    if name in ("remove", "pop", "insert"):
        I.hset(st, recv.addr, H.HList([(TRUE, call_term(I, "m:" + name, [fz] + list(args), kw, st), None)]))
    return call_term(I, "m:" + name, [fz] + list(args), kw, st)


def dict_method(I, recv, h, name, args, kw, st, ctx):
    H = _H()
    if name == "get":
        k = unbox(I, args[0], st)
        if isinstance(k, G):
            return I.split(k, st, lambda l, s: dict_method(I, recv, I.deref(s, recv), "get", [l] + list(args[1:]), kw, s, ctx))
        return dict_get(I, recv, h, k, st, ctx, default=args[1] if len(args) > 1 else NONE)
    if name in ("items", "values", "keys"):
        return Obj(("items", name, recv.key), inner=recv, what=name)
    if name == "update":
        if args:
            dict_update(I, recv, args[0], st)
        for k, x in kw.items():
            setitem(I, recv, K(k), x, st, ctx)
        return NONE
    if name == "copy":
        return I.new(st, H.HDict(h.entries, h.base, h.comps))
    if name == "setdefault":
        r = dict_get(I, recv, h, args[0], st, ctx, default=args[1] if len(args) > 1 else NONE)
        setitem(I, recv, args[0], r, st, ctx)
        return r
    if name == "pop":
        r = dict_get(I, recv, h, args[0], st, ctx, default=args[1] if len(args) > 1 else None)
        h = I.deref(st, recv)
        d = dict(h.entries)
        d.pop(args[0].key, None)
        I.hset(st, recv.addr, H.HDict(d, h.base, h.comps))
        return r
    if name == "popitem" and h.base is None and not h.comps and all(e[0] is TRUE for e in h.entries.values()):
        if not h.entries:
            I.raise_builtin(st, "KeyError")
            raise H.Dead()
        d = dict(h.entries)
        last = args[0] if args else kw.get("last", K(True))
        if isinstance(last, K) and not last.val:
            _, k, x = d.pop(next(iter(d)))
        else:
            _, (_, k, x) = d.popitem()
        I.hset(st, recv.addr, H.HDict(d, h.base, h.comps))
        return Tup([k, x])
    if name == "move_to_end" and args[0].key in h.entries:
        d = dict(h.entries)
        e = d.pop(args[0].key)
        last = args[1] if len(args) > 1 else kw.get("last", K(True))
        d = {args[0].key: e, **d} if isinstance(last, K) and not last.val else {**d, args[0].key: e}
        I.hset(st, recv.addr, H.HDict(d, h.base, h.comps))
        return NONE
    if name == "clear":
        I.hset(st, recv.addr, H.HDict({}))
        return NONE
    if name == "__getitem__" and len(args) == 1:
        return getitem(I, recv, args[0], st, ctx)
    if name == "__setitem__" and len(args) == 2:
        setitem(I, recv, args[0], args[1], st, ctx)
        return NONE
    if name == "__contains__" and len(args) == 1:
        return contains(I, recv, args[0], st, ctx)
    return call_term(I, "m:" + name, [recv] + list(args), kw, st)


def arr_method_scalar(I, x, name, args, kw, st):
    if name in ("astype", "copy", "item", "conjugate", "squeeze", "flatten", "ravel"):
        if name == "astype" and args and _is_int_type(args[0]):
            return v.trunc(x)
        return x
    if name in ("max", "min", "sum", "mean", "tolist"):
        return x
    return call_term(I, "m:" + name, [x] + list(args), kw, st)


def _is_int_type(a):
    if isinstance(a, Ext):
        return a.name.split(".")[-1] in ("int", "int32", "int64", "uint8", "uint16", "int16", "int8", "uint32")
    return isinstance(a, K) and isinstance(a.val, str) and a.val.startswith(("int", "uint"))


def arr_method(I, recv, h, name, args, kw, st, ctx):
    H = _H()
    if isinstance(h, H.HBox):
        val = unbox(I, h.val, st)
        if name in ("copy",):
            return I.new(st, H.HBox(val))
        if name == "astype":
            return I.new(st, H.HBox(astype(I, val, args[0] if args else kw.get("dtype"), st)))
        if isinstance(val, Ref):
            return method(I, val, name, args, kw, st, ctx)
        r = np_method_opaque(I, val, name, args, kw, st, ctx)
        return r
    if name == "copy":
        return I.new(st, H.HArr(h.shape, h.data))
    if name == "astype":
        return I.new(st, H.HArr(h.shape, [astype(I, x, args[0], st) for x in h.data]))
    if name == "tolist":
        def go(n):
            return I.new_list(st, [go(x) if isinstance(x, list) else x for x in n])

        return go(nested(h))
    if name == "ravel":
        return np_reshape(I, h, [K(-1)], st, recv)
    if name == "flatten":
        return I.new(st, H.HArr((len(h.data),), h.data))
    if name == "reshape":
        sh = list(args[0].items) if len(args) == 1 and isinstance(args[0], Tup) else args
        return np_reshape(I, h, sh, st, recv)
    if name == "transpose":
        return np_transpose(I, [recv] + list(args), kw, st, ctx)
    if name == "dot":
        return np_dot(I, [recv] + list(args), kw, st, ctx)
    if name in ("sum", "max", "min", "mean", "prod", "round", "clip", "dot"):
        return NP["numpy." + name](I, [recv] + list(args), kw, st, ctx)
    if name in ("argmin", "argmax", "swapaxes", "repeat"):
        return NP["numpy." + name](I, [recv] + list(args), kw, st, ctx)
    if name == "item" and len(h.data) == 1:
        return h.data[0]
    if name == "fill":
        I.hset(st, recv.addr, H.HArr(h.shape, [args[0]] * len(h.data)))
        return NONE
    if name == "squeeze":
        return I.view(st, recv, [d for d in h.shape if d != 1], range(len(h.data))) if [d for d in h.shape if d != 1] else h.data[0]
    if name in ("all", "any"):
        return _quant_axis(I, [recv] + list(args), kw, st, name == "all")
    return call_term(I, "m:" + name, [recv] + list(args), kw, st)


def dtype_name(a):
    if isinstance(a, Ext):
        return a.name.split(".")[-1]
    if isinstance(a, K) and isinstance(a.val, str):
        return DTYPE_CODES.get(a.val.lstrip("<>=|"), a.val)
    return None


DTYPE_CODES = dict(
    d="float64", f="float32", e="float16", F="complex64", D="complex128", f8="float64", f4="float32", f2="float16", c8="complex64",
    c16="complex128", i="int32", l="int64", b="int8", B="uint8", h="int16", H="uint16", i1="int8", i2="int16", i4="int32", i8="int64",
    u1="uint8", u2="uint16", u4="uint32", u8="uint64", double="float64", single="float32", float="float64", int="int64",
)
NARROW = True  # single precision is a rounding, except in obligations about displayed pixels


def narrow(l):
    c = const_of(l)
    if c is not None and c == int(c) and abs(c) < 1 << 24 or isinstance(l, K) or isinstance(l, T) and l.op == "narrow" or isinstance(l, Ref):
        return l
    return term("narrow", l, kind="num")


def astype(I, x, t, st):
    n = dtype_name(t) if t is not None else None
    if n in ("float", "float64", "float_", "float32", "complex", "complex64", "complex128", "single", "double"):
        if n in ("float32", "complex64", "single") and NARROW:
            return apply1(narrow, x)
        return x
    if n in ("float16", "half") and NARROW:
        return apply1(narrow, x)
    if n in ("int", "int64", "int32", "int_", "intp"):
        return v.trunc(x) if not isinstance(x, Ref) else x
    if n in ("uint8", "uint16", "int8", "int16", "uint32"):
        bits = int(n.lstrip("uint"))
        lo, hi = (0, 2**bits - 1) if n[0] == "u" else (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1)

        def cast(l):
            c = const_of(l)
            if c is not None and lo <= int(c) <= hi:
                return K(int(c))
            if isinstance(l, T) and l.op == "cast:" + n:
                return l
            return term("cast:" + n, l, kind="i")

        return apply1(cast, x)
    if t is None or (isinstance(t, T) and t.op == "a:dtype" and getattr(t.args[0], "kind", None) in ("f", "num")):
        return x
    return I.opq("astype", x, I.freeze(t, st))


def np_method_opaque(I, x, name, args, kw, st, ctx):
    if name in ("astype",):
        return I.new(st, _H().HBox(astype(I, x, args[0] if args else kw.get("dtype"), st)))
    if name == "copy":
        return I.new(st, _H().HBox(x))
    if name in ("max", "min", "sum", "mean", "transpose", "reshape", "round", "clip"):
        f = NP.get("numpy." + name)
        if f:
            return f(I, [x] + list(args), kw, st, ctx)
    if isinstance(x, G):
        return I.split(x, st, lambda l, s: method(I, l, name, args, kw, s, ctx))
    if isinstance(x, T):
        return opaque_method(I, x, name, args, kw, st, ctx)
    return call_term(I, "m:" + name, [x] + list(args), kw, st)


METHOD_MODELS = {}


def model_method(*names):
    def deco(f):
        for n in names:
            METHOD_MODELS[n] = f
        return f

    return deco


def opaque_method(I, x, name, args, kw, st, ctx):
    H = _H()
    m = METHOD_MODELS.get(name)
    if m is not None:
        r = m(I, x, name, args, kw, st, ctx)
        if r is not None:
            return r
    if name == "item" and not args and x.kind in ("num", "f", "i"):
        return x
    if name in ("items", "values", "keys") and not args:
        return Obj(("items", name, x.key), inner=x, what=name)
    if name == "get" and args and not kw and x.op not in NOT_MAPPING:
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        ov = st.heap.get(("ov", x.key))

        def leaf(l):
            base = ite(v.pred("in", I.freeze(l, st), x), I.opq("item", x, I.freeze(l, st)), d)
            if ov is not None and l.key in ov.items:
                e = ov.items[l.key][1]
                return apply1(lambda q: base if q.key == UNDEF.key else q, e)
            return base

        return apply1(leaf, k)
    if name == "copy" and not args:
        return I.new(st, H.HBox(x)) if x.kind == "arr" or x.op in ("stored",) else copy_opaque(I, x, st)
    if name in ("astype", "sum", "max", "min", "mean", "transpose", "reshape", "flatten", "ravel", "tolist", "round", "clip") and x.op not in NOT_MAPPING:
        if name == "tolist":
            return x
        if name == "astype":
            return I.new(st, H.HBox(astype(I, x, args[0] if args else kw.get("dtype"), st)))
        f = NP.get("numpy." + name)
        if f is not None:
            return f(I, [x] + list(args), kw, st, ctx)
    if name in ("append", "extend", "update", "add", "insert", "sort", "pop", "remove", "clear", "setdefault"):
        I.log_event(st, "mutate:" + name, [x] + list(args), kw, NONE)
        if name == "append":
            ov = st.heap.get(("ov", x.key)) or H.HOv({}, {})
            it = dict(ov.items)
            it[("append", len(it))] = (K("append"), args[0])
            st.heap[("ov", x.key)] = H.HOv(ov.attrs, it)
            return NONE
        if name == "update" and args:
            o = I.deref(st, args[0])
            if isinstance(o, H.HDict):
                for g, k, y in o.entries.values():
                    setitem(I, x, k, y, st, ctx)
                return NONE
    if name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], K) and isinstance(args[0].val, str) and x.op == "cat":
        # decided by the constant text at that end
        e, p = x.args[0 if name == "startswith" else -1], args[0].val
        if isinstance(e, K) and isinstance(e.val, str):
            n = min(len(e.val), len(p))
            same = e.val[:n] == p[:n] if name == "startswith" else e.val[len(e.val) - n :] == p[len(p) - n :]
            if not same:
                return FALSE
            if len(e.val) >= len(p):
                return TRUE
    if name in ("strip", "lstrip") and not args and x.kind == "s" and x.op not in ("strip",):
        return term(name, x, kind="s")
    if name in ("strip", "lstrip") and not args and x.op == "strip":
        return x
    kind = "s" if name in STR_METHODS else "?"
    r = call_term(I, "m:" + name, [x] + list(args), kw, st, kind=kind)
    return r


def copy_opaque(I, x, st):
    """a fresh mutable copy of an opaque mapping/sequence"""
    H = _H()
    return I.new(st, H.HDict({}, x))


NOT_MAPPING = set()


# ---------------------------------------------------------------- opaque calls
# parameter names of library callables, so that naming an argument or giving its default makes no difference
_NODEF = object()


def _sig(s):
    out = []
    for p in s.split():
        n, _, d = p.partition("=")
        out.append((n, eval(d) if d else _NODEF))
    return out


SIGS = {
    k: _sig(s)
    for k, s in {
        "x:xml.etree.ElementTree.tostring": "element encoding=None method=None",
        "x:base64.b64decode": "s altchars=None validate=False",
        "x:base64.b64encode": "s altchars=None",
        "m:decode": "encoding='utf-8' errors='strict'",
        "m:encode": "encoding='utf-8' errors='strict'",
        "x:scipy.interpolate.RectBivariateSpline": "x y z bbox kx=3 ky=3 s=0",
        "x:cachetools.LRUCache": "maxsize getsizeof=None",
        "x:pyproj.Proj": "projparams=None preserve_units=True",
        "x:pyproj.Transformer.from_crs": "crs_from crs_to always_xy=False",
        "x:pyproj.Transformer.from_proj": "proj_from proj_to always_xy=False",
        "x:pyproj.CRS.from_string": "value",
        "x:shapely.STRtree": "geoms node_capacity=10",
        "x:shapely.strtree.STRtree": "geoms node_capacity=10",
        "m:query": "geometry predicate=None distance=None",
        "m:query_nearest": "geometry max_distance=None return_distance=False exclusive=False all_matches=True",
        "m:GetGeoTransform": "can_return_null=False",
        "m:GetStatistics": "approx_ok force",
        "m:GetHistogram": "min=-0.5 max=255.5 buckets=256 include_out_of_range=0 approx_ok=0",
        "m:GetMetadata": "domain=''",
        "m:GetMetadataItem": "name domain=''",
        "m:SetMetadata": "metadata domain=''",
        "m:GetRasterBand": "nBand",
        "m:ReadAsArray": "xoff=0 yoff=0",
    }.items()
}


def norm_args(name, args, kw):
    sig = SIGS.get(name)
    recv = 1 if name.startswith("m:") else 0
    if not sig or len(args) - recv > len(sig) or any(k not in {n for n, _ in sig} for k in kw):
        return list(args), kw
    d = dict(kw)
    for (n, _), a in zip(sig, args[recv:]):
        d[n] = a
    for n, dv in sig:
        if n in d and dv is not _NODEF and isinstance(d[n], K) and d[n].key in (v.lift_const(dv).key,):
            del d[n]
    pos = list(args[:recv])
    for n, _ in sig:
        if n not in d:
            break
        pos.append(d.pop(n))
    return pos, d


def call_term(I, op, args, kw, st, kind="?", log=True):
    args, kw = norm_args(op, args, kw)
    fa = [I.freeze(a, st) for a in args]
    for k in sorted(kw):
        x = I.freeze(kw[k], st)
        fa.append(apply1(lambda l, k=k: term("kw:" + k, l), x) if isinstance(x, G) else term("kw:" + k, x))
    r = I.opq(op, *fa, kind=kind)
    if log:
        I.log_event(st, op, args, kw, r)
    return r


def call_opaque(I, f, args, kw, st, ctx):
    if isinstance(f, T) and f.op.startswith("a:") and False:
        return None
    if isinstance(f, T) and f.op.startswith("a:"):
        return opaque_method(I, f.args[0], f.op[2:], args, kw, st, ctx)
    if isinstance(f, T):
        m = CALL_MODELS.get(f.op)
        if m is not None:
            return m(I, f, args, kw, st, ctx)
    H = _H()
    # elementwise application of an opaque numeric function to known arrays is left opaque per argument tuple
    return call_term(I, "call", [f] + list(args), kw, st, kind="num" if isinstance(f, T) and f.kind == "numfn" else "?", log=False)


CALL_MODELS = {}

NP = {}


def npmodel(*names):
    def deco(f):
        for n in names:
            NP[n] = f
        return f

    return deco


REGEX = {"re.sub", "re.split", "re.findall", "re.escape"}


def regex(I, fn, args, kw, st, compiled=None):
    """regular expressions over constant text"""
    import re as _re

    def val(x):
        if isinstance(x, K):
            return int(x.val) if x.kind == "i" else x.val
        if isinstance(x, Ext) and x.name.startswith("re."):
            return getattr(_re, x.name[3:])
        if isinstance(x, T) and x.op == "x:re.compile":
            return _re.compile(*[val(q) for q in x.args])
        if isinstance(x, T) and x.op.startswith("kw:"):
            raise LookupError
        raise LookupError

    try:
        a = [val(unbox(I, q, st)) for q in args]
        k = {n: val(unbox(I, q, st)) for n, q in kw.items()}
        r = getattr(val(compiled) if compiled is not None else _re, fn)(*a, **k)
    except (LookupError, TypeError, ValueError, AttributeError, _re.error):
        return None
    if isinstance(r, list):
        if any(not isinstance(q, str) for q in r):
            return None
        return I.new(st, _H().HList([(TRUE, K(q), None) for q in r]))
    return K(r)


def call_ext(I, name, args, kw, st, ctx):
    name = canon(name)
    m = NP.get(name)
    if m is not None:
        if name.startswith("numpy.") and ("out" in kw or "where" in kw) and name != "numpy.where":
            return ufunc_out(I, name, m, args, kw, st, ctx)
        return m(I, args, kw, st, ctx)
    if name in REGEX:
        r = regex(I, name.split(".")[-1], args, kw, st)
        if r is not None:
            return r
    if name in PATHS and not kw:
        a = [getattr(unbox(I, q, st), "val", None) for q in args]
        if a and all(isinstance(q, str) for q in a):
            r = getattr(posixpath, PATHS[name])(*a)
            return Tup([K(q) for q in r]) if isinstance(r, tuple) else K(r)
    cls = _H().BUILTIN_EXC.get(name.split(".")[-1]) if name.startswith("builtins.") else None
    if cls is not None:
        return I.new(st, _H().HInst(Ext(name), {"args": Tup(args)}))
    c = I.w.contracts.get(("ext", name))
    if c is not None:
        r = c(I, st, args, kw, ctx)
        if r is not None:
            return r
    if name == "dataclasses.field":
        fa = []
        for k in sorted(kw):
            if k in ("default", "default_factory"):
                fa.append(term("kw:" + k, kw[k]))
        return T("x:dataclasses.field", tuple(fa), v.f_hash("field", tuple(v.vnof(a) for a in fa)))
    return call_term(I, "x:" + name, args, kw, st, kind=EXT_KIND.get(name, "?"), log=name not in PURE_EXT)


def ufunc_out(I, name, m, args, kw, st, ctx):
    """numpy functions with out= store their result in that array; where= keeps the other cells of it"""
    kw = dict(kw)
    out, where = kw.pop("out", NONE), kw.pop("where", TRUE)
    if isinstance(out, Tup) and len(out.items) == 1:
        out = out.items[0]
    if isinstance(out, G):
        return I.split(out, st, lambda l, s: ufunc_out(I, name, m, args, {**kw, "out": l, "where": where}, s, ctx))
    r = m(I, args, kw, st, ctx)
    keep = isinstance(out, Ref)
    if where is not TRUE:
        if name in ("numpy.sum", "numpy.mean", "numpy.min", "numpy.max", "numpy.prod", "numpy.all", "numpy.any"):
            return call_term(I, "x:" + name, args, {**kw, "where": where}, st)
        r = NP["numpy.where"](I, [where, r, out if keep else term("uninit")], {}, st, ctx)
    if not keep:
        return r if out is NONE else call_term(I, "x:" + name, args, {**kw, "out": out}, st)
    setitem(I, out, K(Ellipsis), r, st, ctx)
    return out


EXT_KIND = {}
PATHS = {m + n: n for m in ("os.path.", "posixpath.") for n in ("join", "basename", "dirname", "splitext", "split", "normpath")}
PURE_EXT = set()


def _elem1(f):
    def model(I, args, kw, st, ctx):
        a = as_arr(I, args[0], st)
        a = _nz(I, a, st)
        return wrap(I, map1(I, f, a), st)

    return model


for _n, _f in {
    "sqrt": v.sqrt,
    "sin": v.sin,
    "cos": v.cos,
    "tan": v.tan,
    "atan": v.atan,
    "asin": v.asin,
    "acos": v.acos,
    "exp": v.exp,
    "log": v.log,
    "log2": v.log2,
    "log10": v.log10,
    "radians": v.radians,
    "degrees": v.degrees,
    "abs": v.vabs,
    "floor": v.floor,
    "ceil": v.ceil,
    "trunc": v.trunc,
    "sinh": v.sinh,
    "sign": v.sign,
    "square": lambda x: v.mul(x, x),
    "negative": v.neg,
    "real": lambda x: apply1(lambda l: term("a:real", l, kind="num"), x),
    "imag": lambda x: apply1(lambda l: term("a:imag", l, kind="num"), x),
    "isinf": lambda x: (TRUE if isinstance(x.val, float) and x.val == x.val else FALSE) if isinstance(x, K) else apply1(lambda l: (TRUE if isinstance(l.val, float) else FALSE) if isinstance(l, K) else (FALSE if v._isnumlike(l) else v.pred("isinf", l)), x),
    "isfinite": lambda x: v.pred("isfinite", x) if not isinstance(x, K) else (FALSE if isinstance(x.val, float) else TRUE),
    "isnan": lambda x: v.pred("isnan", x) if not isinstance(x, K) else FALSE,
}.items():
    NP["numpy." + _n] = _elem1(_f)
    NP["math." + _n] = _elem1(_f)
NP["math.fabs"] = NP["numpy.abs"]
NP["builtins.abs"] = NP["numpy.abs"]


@npmodel("builtins.round", "numpy.round", "numpy.around", "numpy.rint")
def _round(I, args, kw, st, ctx):
    nd = args[1] if len(args) > 1 else kw.get("ndigits", kw.get("decimals"))

    def f(x):
        def leaf(y):
            c = const_of(y)
            if c is not None and nd is None:
                return K(round(c))
            if c is not None and y.kind == "f" and const_of(nd) is not None:
                return v.lift_const(round(float(c), int(const_of(nd))))
            if nd is None or (const_of(nd) == 0):
                if getattr(y, "kind", "?") == "i":
                    return y
                if v.integral(y):
                    return v.floor(y)
            elif const_of(nd) is not None and const_of(nd) > 0 and v.integral(y):
                return y
            if nd is None or (const_of(nd) == 0):
                s, z = v._canon_sign(y)
                r = term("round", z, kind="i")
                return r if s > 0 else v.neg(r)
            s, z = v._canon_sign(y)
            r = term("round", z, nd, kind="f")
            return r if s > 0 else v.neg(r)

        return apply1(leaf, x)

    return wrap(I, map1(I, f, _nz(I, as_arr(I, args[0], st), st)), st)


@npmodel("builtins.pow", "math.pow", "numpy.power")
def _pow(I, args, kw, st, ctx):
    return binop(I, "Pow", args[0], args[1], st, ctx)


for _n, _o in {"numpy.add": "Add", "numpy.subtract": "Sub", "numpy.multiply": "Mult", "numpy.divide": "Div", "numpy.true_divide": "Div", "numpy.floor_divide": "FloorDiv", "numpy.mod": "Mod", "operator.add": "Add", "operator.sub": "Sub", "operator.mul": "Mult", "operator.truediv": "Div"}.items():
    NP[_n] = lambda I, args, kw, st, ctx, _o=_o: binop(I, _o, args[0], args[1], st, ctx)


@npmodel("math.atan2", "numpy.arctan2", "numpy.atan2")
def _atan2(I, args, kw, st, ctx):
    return wrap(I, map2(I, lambda a, b: I.opq("atan2", a, b, kind="f"), as_arr(I, args[0], st), as_arr(I, args[1], st)), st)


@npmodel("math.hypot", "numpy.hypot")
def _hypot(I, args, kw, st, ctx):
    r = K(0)
    for a in args:
        x = unbox(I, a, st)
        r = v.add(r, v.mul(x, x))
    return v.sqrt(r)


@npmodel("builtins.int")
def _int(I, args, kw, st, ctx):
    if not args:
        return K(0)
    x = unbox(I, args[0], st)

    def leaf(l):
        if isinstance(l, K):
            if isinstance(l.val, str):
                try:
                    return K(int(l.val))
                except ValueError:
                    return UNDEF
            if l.val is None:
                return UNDEF
            if isinstance(l.val, bool):
                return K(int(l.val))
        if isinstance(l, (Tup, Ref)):
            return UNDEF
        if isinstance(l, EnumM):
            return l.value
        if isinstance(l, T) and l.op in ("strip", "lstrip"):
            return leaf(l.args[0])
        if isinstance(l, T) and not l.is_num and l.op not in ("+", "-", "*", "/", "**"):
            if len(args) > 1:
                return term("int", l, args[1], kind="i")
            return term("int", l, kind="i")
        return v.trunc(l)

    r = apply1(leaf, x)
    und = apply1(lambda l: TRUE if l.key == UNDEF.key else FALSE, r)
    isnone = apply1(lambda l: TRUE if isinstance(l, K) and l.val is None else FALSE, x)
    I.raise_builtin(st, "TypeError", isnone)
    I.raise_builtin(st, "ValueError", und)
    _conv_raise(I, x, st, "int")
    return simplify(r, st.pc)


def _conv_raise(I, x, st, what):
    if "conv" not in I.flags:
        return
    for g, l in leaves(simplify(x, st.pc)):
        if isinstance(l, T) and l.op in ("strip", "lstrip"):
            l = l.args[0]
        if isinstance(l, T) and not l.is_num and l.op not in ("+", "-", "*", "/"):
            I.raise_builtin(st, "ValueError", b_and(g, v.pred("bad" + what, l)))
            if "none" in I.flags and l.kind != "s":
                I.raise_builtin(st, "TypeError", b_and(g, v.veq(l, NONE)))


@npmodel("builtins.float", "numpy.float64", "numpy.double")
def _float(I, args, kw, st, ctx):
    if not args:
        return K(Fraction(0), "f")
    x = unbox(I, args[0], st)
    if is_arraylike(I, x, st):
        return x

    def leaf(l):
        if isinstance(l, K):
            if isinstance(l.val, str):
                try:
                    return K(float(l.val))
                except ValueError:
                    return UNDEF
            if isinstance(l.val, Fraction):
                return K(l.val, "f")
            if isinstance(l.val, bool):
                return K(Fraction(int(l.val)), "f")
            if l.val is None:
                return UNDEF
            return l
        if isinstance(l, T) and l.op in ("strip", "lstrip"):
            return leaf(l.args[0])
        if isinstance(l, T):
            if l.is_num or l.op in ("+", "-", "*", "/", "**"):
                return T(l.op, l.args, l.vn, "f") if l.kind == "i" else l
            return term("float", l, kind="f") if "strnum" in I.flags else numeric_view(l)
        return UNDEF

    r = apply1(leaf, x)
    und = apply1(lambda l: TRUE if l.key == UNDEF.key else FALSE, r)
    isnone = apply1(lambda l: TRUE if isinstance(l, K) and l.val is None else FALSE, x)
    I.raise_builtin(st, "TypeError", isnone)
    I.raise_builtin(st, "ValueError", und)
    _conv_raise(I, x, st, "float")
    return simplify(r, st.pc)


@npmodel("numpy.float32", "numpy.single", "numpy.float16", "numpy.half")
def _float32(I, args, kw, st, ctx):
    r = _float(I, args, kw, st, ctx)
    if not NARROW:
        return r
    a = as_arr(I, r, st)
    return wrap(I, map1(I, narrow, a), st)


def numeric_view(l):
    """float(x) of an untyped value: the value itself seen as a number"""
    return T(l.op, l.args, l.vn, "f", l.cls)


@npmodel("builtins.complex")
def _complex(I, args, kw, st, ctx):
    if len(args) == 2:
        return v.add(args[0], v.mul(K(1j), args[1]))
    return args[0] if args else K(0)


@npmodel("builtins.bool", "numpy.bool_")
def _bool(I, args, kw, st, ctx):
    return I.truth(args[0], st) if args else FALSE


@npmodel("builtins.str")
def _str(I, args, kw, st, ctx):
    if len(args) > 1 or "encoding" in kw:
        return method(I, args[0], "decode", args[1:], kw, st, ctx)
    return to_str(I, args[0], st, ctx) if args else K("")


@npmodel("builtins.repr", "builtins.ascii")
def _repr(I, args, kw, st, ctx):
    return I.opq("repr", I.freeze(args[0], st), kind="s")


@npmodel("builtins.format")
def _format(I, args, kw, st, ctx):
    return fmt(I, args[0], args[1] if len(args) > 1 else K(""), st, ctx)


@npmodel("builtins.len")
def _len(I, args, kw, st, ctx):
    return vlen(I, args[0], st)


@npmodel("builtins.print")
def _print(I, args, kw, st, ctx):
    f = kw.get("file", NONE)
    if f is not NONE and I.deref(st, f) is not None:
        I.call(I.getattr(f, "write", st, ctx), [top("printed text")], {}, st, ctx)
    return NONE


@npmodel("builtins.range")
def _range(I, args, kw, st, ctx):
    a = [unbox(I, x, st) for x in args]
    if len(a) == 1:
        a = [K(0), a[0], K(1)]
    elif len(a) == 2:
        a = a + [K(1)]
    if any(isinstance(x, G) for x in a):
        return applyN(lambda s, e, p: Obj(("range", s.key, e.key, p.key), start=s, stop=e, step=p), a)
    return Obj(("range", a[0].key, a[1].key, a[2].key), start=a[0], stop=a[1], step=a[2])


@npmodel("builtins.enumerate")
def _enumerate(I, args, kw, st, ctx):
    s = args[1] if len(args) > 1 else kw.get("start", K(0))
    x = unbox(I, args[0], st)
    it = once(I, x, st)
    if it is not None and len(it) <= 64:
        return as_iter(I, [Tup((v.add(s, K(n)), y)) for n, y in enumerate(it)], st)
    return Obj(("enumerate", x.key, s.key), inner=x, start=s)


@npmodel("builtins.zip")
def _zip(I, args, kw, st, ctx):
    H = _H()
    p = [unbox(I, a, st) for a in args]
    its = [isinstance(I.deref(st, x), H.HList) and I.deref(st, x).kind == "iter" for x in p]
    if any(its) and all(I.items_of(x, st) is not None for x in p):
        # iterators are used up, one that is given twice by turns
        src = [None if t else I.items_of(x, st) for x, t in zip(p, its)]
        rows, n = [], 0
        while True:
            row = []
            for x, q in zip(p, src):
                e = q[n:] if q is not None else I.deref(st, x).entries
                if not e:
                    return I.new(st, H.HList([(TRUE, Tup(r), None) for r in rows], "iter"))
                row.append(e[0] if q is not None else e[0][1])
                if q is None:
                    I.hset(st, x.addr, H.HList(e[1:], "iter"))
            rows.append(row)
            n += 1
    its = [seq_items(I, x, I.deref(st, x), st) for x in p]
    if p and all(i is not None for i in its) and not kw:
        return as_iter(I, [Tup(t) for t in zip(*its)], st)
    return Obj(("zip",) + tuple(a.key for a in p), parts=p)


@npmodel("builtins.reversed")
def _reversed(I, args, kw, st, ctx):
    x = unbox(I, args[0], st)
    it = seq_items(I, x, I.deref(st, x), st)
    if it is not None:
        return as_iter(I, it[::-1], st)
    return Obj(("reversed", x.key), inner=x)


def as_iter(I, items, st):
    return I.new(st, _H().HList([(TRUE, y, None) for y in items], "iter"))


def once(I, x, st):
    """The items of a list, tuple or iterator of known length; an iterator is used up."""
    H = _H()
    o = I.deref(st, x)
    it = seq_items(I, x, o, st)
    if it is None and isinstance(o, H.HList) and o.kind == "iter" and all(g is TRUE and l is None for g, _, l in o.entries):
        it = [e[1] for e in o.entries]
        I.hset(st, x.addr, H.HList((), "iter"))
    return it


@npmodel("builtins.map")
def _map(I, args, kw, st, ctx):
    if len(args) == 2:
        x = unbox(I, args[1], st)
        it = I.items_of(x, st)
        if it is not None:
            once(I, x, st)
            return as_iter(I, [I.call(args[0], [y], {}, st, ctx) for y in it], st)
        return Obj(("map", args[0].key, x.key), fn=args[0], inner=x)
    its = [I.items_of(a, st) for a in args[1:]]
    if all(i is not None for i in its):
        return as_iter(I, [I.call(args[0], list(t), {}, st, ctx) for t in zip(*its)], st)
    return top("map")


@npmodel("builtins.filter")
def _filter(I, args, kw, st, ctx):
    H = _H()
    it = I.items_of(args[1], st)
    if it is None:
        return top("filter")
    ents = []
    for y in it:
        c = I.truth(y if isinstance(args[0], K) else I.call(args[0], [y], {}, st, ctx), st)
        ents.append((c, y, None))
    once(I, args[1], st)
    return I.new(st, H.HList([e for e in ents if e[0] is not FALSE], "iter"))


@npmodel("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.sorted", "builtins.iter")
def _list_generic(I, args, kw, st, ctx, name="list"):
    return _mklist(I, args, kw, st, ctx, name)


def _mklist(I, args, kw, st, ctx, name):
    H = _H()
    if not args:
        return I.new_list(st, [], "set" if name in ("set", "frozenset") else "list") if name != "tuple" else Tup(())
    x = simplify(unbox(I, args[0], st), st.pc)
    if isinstance(x, G):
        return I.split(x, st, lambda l, s: _mklist(I, [l] + list(args[1:]), kw, s, ctx, name))
    if name == "sorted":
        it = I.items_of(x, st)
        if it is not None and set(kw) <= {"key", "reverse"} and (kw.get("reverse") is None or isinstance(kw["reverse"], K) or kw["reverse"] in (TRUE, FALSE)):
            key = kw.get("key", NONE)
            ks = [y if isinstance(key, K) else unbox(I, I.call(key, [y], {}, st, ctx), st) for y in it]
            py = lambda z: tuple(py(q) for q in z.items) if isinstance(z, Tup) else z.py()
            flat = lambda z: all(flat(q) for q in z.items) if isinstance(z, Tup) else isinstance(z, K) and z.val is not None
            if all(flat(k) for k in ks):
                rev = kw.get("reverse", FALSE)
                try:
                    r = sorted(zip(ks, it), key=lambda t: py(t[0]), reverse=rev is TRUE or isinstance(rev, K) and bool(rev.val))
                except TypeError:
                    I.raise_builtin(st, "TypeError")
                    raise H.Dead()
                return I.new_list(st, [t[1] for t in r])
        if it is not None and 1 < len(it) <= 4 and not kw and all(isinstance(y, (K, T)) and v._isnumlike(y) for y in it):
            it = list(it)
            for n in range(len(it) - 1, 0, -1):
                for j in range(n):
                    c = v.lt(it[j + 1], it[j])
                    it[j], it[j + 1] = ite(c, it[j + 1], it[j]), ite(c, it[j], it[j + 1])
            return I.new_list(st, it)
        if it is not None and not kw and any(isinstance(I.deref(st, y), H.HInst) for y in it):
            it = list(it)
            for n in range(len(it) - 1, 0, -1):
                for j in range(n):
                    c = simplify(I.truth(compare(I, "Lt", it[j + 1], it[j], st, ctx), st), st.pc)
                    if c is TRUE:
                        it[j], it[j + 1] = it[j + 1], it[j]
                    elif c is not FALSE:
                        return top("sorted")
            return I.new_list(st, it)
        return call_term(I, "sorted", [x], kw, st, log=False)
    o = I.deref(st, x)
    if name == "iter":
        if isinstance(o, H.HList) and o.kind == "iter":
            return x
        d = I.iter_desc(x, st)
        if d[0] == "concrete":
            return I.new(st, H.HList([(g, y, None) for g, y in d[1]], "iter"))
        b = T("bv", (K(st.depth),), v.f_hash("bv", st.depth), "i")
        return I.new(st, H.HList([(TRUE, d[2](b, st), (d[1],))], "iter"))
    if isinstance(o, H.HList):
        if o.kind == "iter" and isinstance(x, Ref):
            I.hset(st, x.addr, H.HList((), "iter"))
        if name == "tuple" and all(g is TRUE and l is None for g, _, l in o.entries):
            return Tup([e[1] for e in o.entries])
        ents = o.entries
        if name in ("set", "frozenset"):
            seen, e2 = set(), []
            for e in ents:
                if e[0] is TRUE and e[2] is None:
                    if e[1].key in seen:
                        continue
                    seen.add(e[1].key)
                e2.append(e)
            ents = e2
        return I.new(st, H.HList(ents, "set" if name in ("set", "frozenset") else "list"))
    it = I.items_of(x, st)
    if it is not None:
        if name == "tuple":
            return Tup(it)
        return I.new_list(st, it, "set" if name in ("set", "frozenset") else "list")
    d = I.iter_desc(x, st)
    if d[0] == "concrete":
        return I.new(st, H.HList([(g, y, None) for g, y in d[1]], "set" if name in ("set", "frozenset") else "list"))
    if isinstance(x, T) and name in ("list", "tuple"):
        b = T("bv", (K(st.depth),), v.f_hash("bv", st.depth), "i")
        return I.new(st, H.HList([(TRUE, d[2](b, st), (d[1],))]))
    if isinstance(x, Obj):
        b = T("bv", (K(st.depth),), v.f_hash("bv", st.depth), "i")
        return I.new(st, H.HList([(TRUE, d[2](b, st), (d[1],))]))
    return x


for _n in ("list", "tuple", "set", "frozenset", "sorted", "iter"):
    NP["builtins." + _n] = lambda I, args, kw, st, ctx, _n=_n: _mklist(I, args, kw, st, ctx, _n)


@npmodel("builtins.next")
def _next(I, args, kw, st, ctx):
    H = _H()
    x0 = simplify(unbox(I, args[0], st), st.pc)
    if isinstance(x0, G):
        return I.split(x0, st, lambda l, s: _next(I, [l] + list(args[1:]), kw, s, ctx))
    o = I.deref(st, x0)
    if isinstance(o, H.HList):
        r = args[1] if len(args) > 1 else UNDEF
        if all(l is None for _, _, l in o.entries):
            rest, before = [], FALSE
            for g, x, l in o.entries:
                left = simplify(b_and(g, before), st.pc)
                if left is not FALSE:
                    rest.append((left, x, None))
                before = b_or(before, g)
            for g, x, l in reversed(o.entries):
                r = ite(g, x, r)
            I.hset(st, x0.addr, H.HList(rest, o.kind))
            und = apply1(lambda l: TRUE if l.key == UNDEF.key else FALSE, r)
            I.raise_builtin(st, "StopIteration", und)
            if st.pc is FALSE:
                raise H.Dead()
            return simplify(r, st.pc)
        if len(o.entries) == 1:
            g, x, l = o.entries[0]
            ex = bvar(CV.get("some", (v.vnof(l[0]), g.key), (l[0], g))) if g is not TRUE else v.lt(K(0), l[0])
            val = x if isinstance(x, K) else I.subst_item(x, K(0), st) if g is TRUE and len(l) == 1 else term("first", l[0], g, I.freeze(x, st))
            if o.kind == "iter":
                I.hset(st, x0.addr, H.HList([(TRUE, v.top("rest of an iterator"), (term("rest", l[0], kind="i"),))], "iter"))
            if len(args) > 1:
                return ite(ex, val, args[1])
            return val
    it = I.items_of(x0, st)
    if it:
        return it[0]
    return term("next", *[I.freeze(a, st) for a in args])


@npmodel("builtins.dict", "collections.OrderedDict")
def _dict(I, args, kw, st, ctx):
    H = _H()
    r = I.new(st, H.HDict({}))
    if args:
        o = I.deref(st, args[0])
        if isinstance(o, H.HDict) or isinstance(args[0], T):
            dict_update(I, r, args[0], st)
        else:
            it = I.items_of(args[0], st)
            if it is None:
                return top("dict()")
            for p in it:
                a, b = I.unpack(p, 2, st)
                setitem(I, r, a, b, st, ctx)
    for k, x in kw.items():
        setitem(I, r, K(k), x, st, ctx)
    return r


def _minmax(name):
    op = v.vmin if name == "min" else v.vmax

    def f(I, args, kw, st, ctx):
        H = _H()
        key = kw.get("key")
        if len(args) == 1:
            x = unbox(I, args[0], st)
            it = I.items_of(x, st)
            if it is None:
                return call_term(I, name, [x], {k: y for k, y in kw.items()}, st, log=False)
            items = it
            if not items:
                if "default" in kw:
                    return kw["default"]
                I.raise_builtin(st, "ValueError")
                raise H.Dead()
        else:
            items = [unbox(I, a, st) for a in args]
        if key is not None:
            return call_term(I, name, items, kw, st, log=False)
        return extremum(name, items)

    return f


OPAQUE_MINMAX = False  # set by an obligation: min and max of two values stay sets, not case distinctions


def extremum(name, items):
    op = v.vmin if name == "min" else v.vmax
    if all(const_of(i) is not None for i in items):
        return (min if name == "min" else max)(items, key=const_of)
    uniq = {}
    for i in items:
        uniq.setdefault(i.key, i)
    items = list(uniq.values())
    if len(items) == 1:
        return items[0]
    if len(items) == 2 and not OPAQUE_MINMAX:
        return op(items[0], items[1])
    inf = float("inf") if name == "min" else float("-inf")
    items = [i for i in items if not (isinstance(i, K) and isinstance(i.val, float) and i.val == inf)]
    if len(items) == 1:
        return items[0]
    flat = []
    for i in items:
        if isinstance(i, T) and i.op == name + "set":
            flat.extend(i.args)
        else:
            flat.append(i)
    flat = sorted({i.key: i for i in flat}.values(), key=lambda z: str(z.key))
    kind = "i" if all(getattr(i, "kind", "?") == "i" for i in flat) else "num"
    return applyN(lambda *xs: term(name + "set", *sorted(xs, key=lambda z: str(z.key)), kind=kind), flat) if sum(isinstance(x, G) for x in flat) <= 4 else term(name + "set", *flat, kind=kind)


NP["builtins.min"] = _minmax("min")
NP["builtins.max"] = _minmax("max")


def _npminmax(name):
    def f(I, args, kw, st, ctx):
        H = _H()
        a = as_arr(I, args[0], st)
        axis = args[1] if len(args) > 1 else kw.get("axis")
        if isinstance(a, H.HArr):
            if axis is None or (isinstance(axis, K) and axis.val is None) or len(a.shape) == 1:
                return extremum(name, list(a.data))
            return reduce_axis(I, a, int(const_of(axis)), lambda xs: extremum(name, xs), st)
        x = _nz(I, a, st)
        extra = {} if axis is None else {"axis": axis}
        return call_term(I, "np" + name, [x], extra, st, kind="num", log=False)

    return f


NP["numpy.min"] = _npminmax("min")
NP["numpy.max"] = _npminmax("max")
NP["numpy.nanmin"] = lambda I, args, kw, st, ctx: call_term(I, "nanmin", args, kw, st, kind="num", log=False)
NP["numpy.nanmax"] = lambda I, args, kw, st, ctx: call_term(I, "nanmax", args, kw, st, kind="num", log=False)


def reduce_axis(I, a, axis, f, st):
    H = _H()
    n = len(a.shape)
    axis %= n
    strides = _strides(a.shape)
    osh = a.shape[:axis] + a.shape[axis + 1 :]
    data = []
    for idx in itertools.product(*[range(d) for d in osh]):
        full = list(idx[:axis]) + [0] + list(idx[axis:])
        xs = []
        for j in range(a.shape[axis]):
            full[axis] = j
            xs.append(a.data[sum(i * s for i, s in zip(full, strides))])
        data.append(f(xs))
    return wrap(I, H.HArr(osh, data), st)


NP["numpy.minimum"] = lambda I, args, kw, st, ctx: wrap(I, map2(I, v.vmin, _nz(I, as_arr(I, args[0], st), st), _nz(I, as_arr(I, args[1], st), st)), st)
NP["numpy.maximum"] = lambda I, args, kw, st, ctx: wrap(I, map2(I, v.vmax, _nz(I, as_arr(I, args[0], st), st), _nz(I, as_arr(I, args[1], st), st)), st)


@npmodel("numpy.clip")
def _clip(I, args, kw, st, ctx):
    names = ["a", "a_min", "a_max"]
    d = dict(zip(names, args))
    d.update(kw)
    lo = d.get("a_min", d.get("min", NONE))
    hi = d.get("a_max", d.get("max", NONE))
    x = _nz(I, as_arr(I, d["a"], st), st)
    if not (isinstance(lo, K) and lo.val is None):
        x = map2(I, v.vmax, x, _nz(I, as_arr(I, lo, st), st))
    if not (isinstance(hi, K) and hi.val is None):
        x = map2(I, v.vmin, x, _nz(I, as_arr(I, hi, st), st))
    return box(I, wrap(I, x, st), st, d["a"])


def box(I, x, st, like):
    return x


@npmodel("numpy.take")
def _take(I, args, kw, st, ctx):
    d = dict(zip(("a", "indices", "axis", "out", "mode"), args))
    d.update(kw)
    a, k = unbox(I, d["a"], st), unbox(I, d["indices"], st)
    one = isinstance(as_arr(I, a, st), _H().HArr) and len(as_arr(I, a, st).shape) == 1
    if set(d) <= {"a", "indices", "axis"} and (one and d.get("axis", NONE) in (NONE, K(0)) or isinstance(d.get("axis"), K) and const_of(d["axis"]) == 0 or not isinstance(as_arr(I, a, st), _H().HArr)):
        if isinstance(a, Ref) and isinstance(I.deref(st, a), _H().HList) and one:
            a = I.new(st, as_arr(I, a, st))
        return getitem(I, a, k, st, ctx)
    return call_term(I, "x:numpy.take", args, kw, st, log=False)


@npmodel("numpy.where")
def _where(I, args, kw, st, ctx):
    if len(args) == 3:
        c = as_arr(I, args[0], st)
        a, b = _nz(I, as_arr(I, args[1], st), st), _nz(I, as_arr(I, args[2], st), st)
        H = _H()
        if isinstance(c, H.HArr):
            ab = map2(I, lambda x, y: Tup([x, y]), a, b)
            return wrap(I, map2(I, lambda q, p: ite(I.truth(q, st), p.items[0], p.items[1]), c, ab), st)
        return wrap(I, map2(I, lambda x, y: ite(I.truth(c, st), x, y), a, b), st)
    return call_term(I, "x:numpy.where", args, kw, st, log=False)


def _sumlike(I, args, kw, st, ctx, builtin=False):
    H = _H()
    a = args[0]
    axis = kw.get("axis", args[1] if len(args) > 1 and not builtin else None)
    o = I.deref(st, unbox(I, a, st)) if isinstance(unbox(I, a, st), Ref) else None
    if isinstance(o, H.HList) and len(o.entries) == 1 and o.entries[0][2] is not None and len(o.entries[0][2]) == 1:
        g, x, (cnt,) = o.entries[0]
        r = I.sumterm(cnt, ite(g, x, K(0)))
        return v.add(args[1], r) if builtin and len(args) > 1 else r
    if builtin:
        it = I.items_of(unbox(I, a, st), st)
        if it is not None:
            r = args[1] if len(args) > 1 else kw.get("start", K(0))
            for x in it:
                r = binop(I, "Add", r, x, st, ctx)
            return r
    arr = as_arr(I, a, st)
    if isinstance(arr, H.HArr):
        def f(xs):
            r = K(0)
            for x in xs:
                r = v.add(r, x)
            return r

        if axis is None or (isinstance(axis, K) and axis.val is None) or (len(arr.shape) == 1):
            return f(arr.data)
        if kw.get("keepdims") is not None:
            return top("keepdims")
        return reduce_axis(I, arr, int(const_of(axis)), f, st)
    return call_term(I, "npsum", [arr], {} if axis is None else {"axis": axis}, st, kind="num", log=False)


NP["numpy.sum"] = _sumlike
NP["math.fsum"] = _sumlike
NP["builtins.sum"] = lambda I, args, kw, st, ctx: _sumlike(I, args, kw, st, ctx, True)


@npmodel("numpy.mean", "numpy.average")
def _mean(I, args, kw, st, ctx):
    H = _H()
    args = [unbox(I, args[0], st)] + list(args[1:])
    if isinstance(args[0], G) and any(isinstance(l, Ref) for _, l in leaves(args[0])):
        return I.split(args[0], st, lambda l, s: _mean(I, [l] + args[1:], kw, s, ctx))
    o = I.deref(st, args[0]) if isinstance(args[0], Ref) else None
    if isinstance(o, H.HList) and o.kind == "masked" and not kw and len(args) == 1:
        return v.div(_fsum([ite(g, x, K(0)) for g, x, _ in o.entries]), _fsum([ite(g, K(1), K(0)) for g, x, _ in o.entries]))
    arr = as_arr(I, args[0], st)
    axis = kw.get("axis", args[1] if len(args) > 1 else None)
    if isinstance(arr, H.HArr) and "weights" not in kw:
        if axis is None or len(arr.shape) == 1:
            s = K(0)
            for x in arr.data:
                s = v.add(s, x)
            return v.div(s, K(len(arr.data)))
        n = arr.shape[int(const_of(axis))]
        s = reduce_axis(I, arr, int(const_of(axis)), lambda xs: _fsum(xs), st)
        return binop(I, "Div", s, K(n), st, ctx)
    return call_term(I, "npmean", args, kw, st, kind="num", log=False)


def _fsum(xs):
    r = K(0)
    for x in xs:
        r = v.add(r, x)
    return r


NP["numpy.prod"] = lambda I, args, kw, st, ctx: _prod(I, args, st)


def _prod(I, args, st):
    a = as_arr(I, args[0], st)
    if isinstance(a, _H().HArr):
        r = K(1)
        for x in a.data:
            r = v.mul(r, x)
        return r
    return call_term(I, "npprod", args, {}, st, log=False)


@npmodel("numpy.asarray")
def _asarray(I, args, kw, st, ctx):
    """the array itself when it is one already (of the type asked for)"""
    x = simplify(args[0], st.pc) if args else kw["a"]
    if isinstance(x, G):
        return I.split(x, st, lambda l, s: _asarray(I, [l] + list(args[1:]), kw, s, ctx))
    dt = kw.get("dtype", args[1] if len(args) > 1 else None)
    if isinstance(x, Ref):
        o = I.deref(st, x)
        if isinstance(o, _H().HArr):
            if dt is None or dt is NONE or (o.data and all(astype(I, q, dt, st).key == q.key for q in o.data) and not all(isinstance(q, K) or q.kind == "i" for q in o.data)):
                return x
        if isinstance(o, _H().HBox) and (dt is None or dt is NONE or astype(I, o.val, dt, st).key == o.val.key):
            return x
    if isinstance(x, T) and x.kind == "arr" and (dt is None or dt is NONE):
        return x
    return _nparray(I, args, kw, st, ctx)


@npmodel("numpy.array", "numpy.atleast_1d", "numpy.copy")
def _nparray(I, args, kw, st, ctx):
    H = _H()
    x = simplify(unbox(I, args[0], st), st.pc)
    dt = kw.get("dtype", args[1] if len(args) > 1 else None)
    if isinstance(x, G):
        ls = [l for _, l in leaves(x)]
        if any(isinstance(l, (Ref, Tup)) for l in ls):
            return I.split(x, st, lambda l, s: _nparray(I, [l] + list(args[1:]), kw, s, ctx))
    if isinstance(x, Ref):
        o = I.deref(st, x)
        if isinstance(o, H.HList) and any(g is not TRUE for g, _, _ in o.entries) and all(l is None for _, _, l in o.entries) and dt is None:
            return I.new(st, H.HList(o.entries, o.kind))  # a sequence whose length depends on conditions
    a = as_arr(I, x, st)
    if isinstance(a, H.HArr):
        data = [astype(I, q, dt, st) for q in a.data] if dt is not None else a.data
        return I.new(st, H.HArr(a.shape, data))
    if const_of(a) is not None:
        return a
    if isinstance(a, T) and (a.op == "seq" or any(isinstance(z, T) and z.op == "comp" for z in a.args)):
        return I.new(st, H.HBox(a))
    if dt is not None:
        a = astype(I, a, dt, st)
    return I.new(st, H.HBox(a))


def _shape(I, s, st):
    s = unbox(I, s, st)
    if const_of(s) is not None:
        return (int(const_of(s)),)
    it = I.items_of(s, st) if not isinstance(s, T) else None
    if it is None or any(const_of(i) is None for i in it):
        return None
    return tuple(int(const_of(i)) for i in it)


def _filled(val):
    def f(I, args, kw, st, ctx):
        H = _H()
        sh = _shape(I, args[0] if args else kw["shape"], st)
        if sh is None or __import__("math").prod(sh) > 5000:
            x = val if val is not None else (args[1] if len(args) > 1 else kw.get("fill_value", K(0)))
            return I.new(st, H.HBox(I.opq("full", I.freeze(args[0] if args else kw["shape"], st), x)))
        x = val if val is not None else (args[1] if len(args) > 1 else kw.get("fill_value"))
        n = 1
        for d in sh:
            n *= d
        return I.new(st, H.HArr(sh, [x] * n))

    return f


NP["numpy.zeros"] = _filled(K(Fraction(0), "f"))
NP["numpy.ones"] = _filled(K(Fraction(1), "f"))
NP["numpy.full"] = _filled(None)
NP["numpy.empty"] = _filled(term("uninit"))


def _zlike(I, args, kw, st, ctx, fill=None):
    H = _H()
    a = as_arr(I, args[0], st)
    z = fill if fill is not None else kw.get("fill_value", args[1] if len(args) > 1 else NONE)
    if isinstance(a, H.HArr):
        return I.new(st, H.HArr(a.shape, [z] * len(a.data)))
    return I.new(st, H.HBox(z))


for _n, _z in (("zeros", K(Fraction(0), "f")), ("ones", K(Fraction(1), "f")), ("empty", term("uninit")), ("full", None)):
    NP[f"numpy.{_n}_like"] = lambda I, args, kw, st, ctx, z=_z: _zlike(I, args, kw, st, ctx, z)


@npmodel("numpy.eye", "numpy.identity")
def _eye(I, args, kw, st, ctx):
    n = int(const_of(args[0]))
    return I.new(st, _H().HArr((n, n), [K(Fraction(1 if i == j else 0), "f") for i in range(n) for j in range(n)]))


@npmodel("numpy.diag")
def _diag(I, args, kw, st, ctx):
    a = as_arr(I, args[0], st)
    H = _H()
    if isinstance(a, H.HArr) and len(a.shape) == 1:
        n = a.shape[0]
        return I.new(st, H.HArr((n, n), [a.data[i] if i == j else K(Fraction(0), "f") for i in range(n) for j in range(n)]))
    return call_term(I, "x:numpy.diag", args, kw, st, log=False)


@npmodel("numpy.append")
def _append(I, args, kw, st, ctx):
    H = _H()
    if kw.get("axis") is not None or len(args) > 2:
        return NP["numpy.concatenate"](I, [Tup(args[:2])], {"axis": kw.get("axis", args[2] if len(args) > 2 else None)}, st, ctx)
    a, b = as_arr(I, args[0], st), as_arr(I, args[1], st)
    da = list(a.data) if isinstance(a, H.HArr) else [a]
    db = list(b.data) if isinstance(b, H.HArr) else [b]
    if (not isinstance(a, H.HArr) and const_of(a) is None) and isinstance(a, T) and not a.is_num:
        return I.opq("npappend", a, I.freeze(args[1], st))
    return I.new(st, H.HArr((len(da) + len(db),), da + db))


@npmodel("numpy.hstack")
def _hstack(I, args, kw, st, ctx):
    items = I.items_of(unbox(I, args[0], st), st)
    if items is not None:
        parts = [as_arr(I, i, st) for i in items]
        H = _H()
        if parts and all(isinstance(p, H.HArr) for p in parts) and len(parts[0].shape) > 1:
            return _concat(I, [args[0]], {"axis": K(1)}, st, ctx)
        if parts and not any(isinstance(p, H.HArr) for p in parts) and all(isinstance(p, (T, K)) and p.is_num for p in parts):
            return I.new(st, H.HArr((len(parts),), parts))
    return _concat(I, [args[0]], {}, st, ctx)


@npmodel("numpy.concatenate")
def _concat(I, args, kw, st, ctx):
    H = _H()
    items = I.items_of(unbox(I, args[0], st), st)
    ax = kw.get("axis", args[1] if len(args) > 1 else K(0))
    if items is None:
        return call_term(I, "x:numpy.concatenate", args, kw, st, log=False)
    parts = [as_arr(I, i, st) for i in items]
    if all(isinstance(p, H.HArr) for p in parts) and all(len(p.shape) == 1 for p in parts):
        d = [x for p in parts for x in p.data]
        return I.new(st, H.HArr((len(d),), d))
    if all(isinstance(p, H.HArr) for p in parts) and const_of(ax) == 0:
        d = [x for p in parts for x in p.data]
        return I.new(st, H.HArr((sum(p.shape[0] for p in parts),) + parts[0].shape[1:], d))
    n = const_of(ax)
    if all(isinstance(p, H.HArr) for p in parts) and n is not None and len({len(p.shape) for p in parts}) == 1:
        nd = len(parts[0].shape)
        n = int(n) % nd
        if len({p.shape[:n] + p.shape[n + 1 :] for p in parts}) != 1:
            return top("concatenate shapes")
        inner = [1] * len(parts)
        outer = 1
        for q in parts[0].shape[:n]:
            outer *= q
        for i, p in enumerate(parts):
            for q in p.shape[n:]:
                inner[i] *= q
        d = [x for o in range(outer) for p, w in zip(parts, inner) for x in p.data[o * w : (o + 1) * w]]
        return I.new(st, H.HArr(parts[0].shape[:n] + (sum(p.shape[n] for p in parts),) + parts[0].shape[n + 1 :], d))
    return call_term(I, "x:numpy.concatenate", args, kw, st, log=False)


@npmodel("numpy.vstack", "numpy.row_stack")
def _vstack(I, args, kw, st, ctx):
    H = _H()
    items = I.items_of(unbox(I, args[0], st), st)
    if items is None:
        return call_term(I, "stackrows", args, kw, st, log=False)
    parts = [as_arr(I, i, st) for i in items]
    if all(isinstance(p, H.HArr) for p in parts):
        parts = [p if len(p.shape) > 1 else H.HArr((1,) + p.shape, p.data) for p in parts]
        if len({p.shape[1:] for p in parts}) == 1:
            return I.new(st, H.HArr((sum(p.shape[0] for p in parts),) + parts[0].shape[1:], [d for p in parts for d in p.data]))
        return top("vstack shapes")
    if not any(isinstance(p, H.HArr) for p in parts) and all(isinstance(p, (T, K)) and p.is_num for p in parts):
        return I.new(st, H.HArr((len(parts), 1), parts))
    return I.opq("stackrows", *[I.freeze(i, st) for i in items])


@npmodel("numpy.stack")
def _stack(I, args, kw, st, ctx):
    H = _H()
    items = I.items_of(unbox(I, args[0], st), st)
    ax = kw.get("axis", args[1] if len(args) > 1 else K(0))
    if items is None:
        return call_term(I, "stack", args, {"axis": ax}, st, log=False)
    a = stack_arr(I, items, st)
    if isinstance(a, H.HArr) and all(isinstance(as_arr(I, i, st), H.HArr) for i in items):
        n = int(const_of(ax))
        if n < 0:
            n += len(a.shape)
        if n != 0:
            return transpose_axes(I, a, [i for i in range(1, n + 1)] + [0] + list(range(n + 1, len(a.shape))), st)
        return wrap(I, a, st)
    return call_term(I, "stack", [Tup(items)], {"axis": ax}, st, log=False)


@npmodel("numpy.dstack")
def _dstack(I, args, kw, st, ctx):
    H = _H()
    items = I.items_of(unbox(I, args[0], st), st)
    parts = [as_arr(I, i, st) for i in items] if items is not None else None
    if parts and all(isinstance(p, H.HArr) and len(p.shape) in (2, 3) and p.shape[:2] == parts[0].shape[:2] for p in parts):
        n, m = parts[0].shape[:2]
        ks = [p.shape[2] if len(p.shape) == 3 else 1 for p in parts]
        data = [p.data[q * k + c] for q in range(n * m) for p, k in zip(parts, ks) for c in range(k)]
        return I.new(st, H.HArr((n, m, sum(ks)), data))
    return call_term(I, "dstack", args, kw, st, log=False)


@npmodel("numpy.column_stack")
def _colstack(I, args, kw, st, ctx):
    H = _H()
    items = I.items_of(unbox(I, args[0], st), st)
    parts = [as_arr(I, i, st) for i in items] if items is not None else None
    if parts and all(isinstance(p, H.HArr) and len(p.shape) == 1 for p in parts):
        n = parts[0].shape[0]
        return I.new(st, H.HArr((n, len(parts)), [p.data[i] for i in range(n) for p in parts]))
    return call_term(I, "x:numpy.column_stack", args, kw, st, log=False)


def transpose_axes(I, a, axes, st, ref=None):
    H = _H()
    strides = _strides(a.shape)
    osh = tuple(a.shape[i] for i in axes)
    pos = [sum(i * strides[ax] for i, ax in zip(idx, axes)) for idx in itertools.product(*[range(d) for d in osh])]
    if isinstance(ref, Ref) and isinstance(I.deref(st, ref), H.HArr):
        return I.view(st, ref, osh, pos)
    return I.new(st, H.HArr(osh, [a.data[p] for p in pos]))


@npmodel("numpy.transpose")
def np_transpose(I, args, kw, st, ctx):
    H = _H()
    a = as_arr(I, args[0], st)
    if isinstance(a, H.HArr):
        axes = list(range(len(a.shape)))[::-1]
        if len(args) > 1:
            ax = I.items_of(args[1], st) if not isinstance(args[1], K) else list(args[1:])
            if ax is not None and all(const_of(x) is not None for x in ax):
                axes = [int(const_of(x)) for x in ax]
        return transpose_axes(I, a, axes, st, args[0])
    ax = list(args[1:])
    if len(ax) == 1 and isinstance(ax[0], (Tup,)):
        ax = list(ax[0].items)
    elif len(ax) == 1 and isinstance(ax[0], Ref):
        ax = I.items_of(ax[0], st) or ax
    return I.opq("transpose", I.freeze(a, st), *ax)


def np_reshape(I, h, sh, st, ref=None):
    H = _H()
    s = [const_of(x) for x in sh]
    if any(x is None for x in s):
        return top("reshape")
    s = [int(x) for x in s]
    n = len(h.data)
    if -1 in s:
        p = 1
        for x in s:
            if x != -1:
                p *= x
        s[s.index(-1)] = n // p
    p = 1
    for x in s:
        p *= x
    if p != n:
        return top("reshape size")
    if isinstance(ref, Ref) and isinstance(I.deref(st, ref), H.HArr):
        raw = st.heap.get(ref.addr) or I.w.base.get(ref.addr)
        if not isinstance(raw, H.HView) or list(raw.idx) == list(range(raw.idx[0], raw.idx[0] + len(raw.idx))):
            return I.view(st, ref, s, range(n))
    return I.new(st, H.HArr(tuple(s), h.data))


@npmodel("numpy.reshape")
def _npreshape(I, args, kw, st, ctx):
    H = _H()
    a = as_arr(I, args[0], st)
    if isinstance(a, H.HArr):
        s = args[1]
        return np_reshape(I, a, list(s.items) if isinstance(s, Tup) else [s], st, args[0])
    return call_term(I, "reshape", args, kw, st, log=False)


@npmodel("numpy.dot", "numpy.matmul", "numpy.inner", "numpy.vdot")
def np_dot(I, args, kw, st, ctx):
    H = _H()
    for x in args[:2]:
        if isinstance(simplify(x, st.pc), G) and any(isinstance(l, Ref) for _, l in leaves(x)):
            i = 0 if x is args[0] else 1
            return I.split(x, st, lambda l, s: np_dot(I, [l if j == i else args[j] for j in range(2)], kw, s, ctx))
    a, b = as_arr(I, args[0], st), as_arr(I, args[1], st)
    if isinstance(a, H.HArr) and isinstance(b, H.HArr):
        if len(a.shape) == 1 and len(b.shape) == 1 and a.shape == b.shape:
            return _fsum([v.mul(x, y) for x, y in zip(a.data, b.data)])
        if len(a.shape) == 2 and len(b.shape) == 1 and a.shape[1] == b.shape[0]:
            n = a.shape[1]
            return I.new(st, H.HArr((a.shape[0],), [_fsum([v.mul(a.data[i * n + j], b.data[j]) for j in range(n)]) for i in range(a.shape[0])]))
        if len(a.shape) == 1 and len(b.shape) == 2 and a.shape[0] == b.shape[0]:
            m = b.shape[1]
            return I.new(st, H.HArr((m,), [_fsum([v.mul(a.data[j], b.data[j * m + i]) for j in range(a.shape[0])]) for i in range(m)]))
        if len(a.shape) == 2 and len(b.shape) == 2 and a.shape[1] == b.shape[0]:
            n, m = a.shape[1], b.shape[1]
            return I.new(
                st,
                H.HArr((a.shape[0], m), [_fsum([v.mul(a.data[i * n + k], b.data[k * m + j]) for k in range(n)]) for i in range(a.shape[0]) for j in range(m)]),
            )
        return top("dot shapes")
    if not isinstance(a, H.HArr) and not isinstance(b, H.HArr):
        ka, kb = getattr(a, "kind", "?"), getattr(b, "kind", "?")
        if ka in ("i", "f", "num") and kb in ("i", "f", "num"):
            return v.mul(a, b)
        return I.opq("dot", *[I.freeze(x, st) for x in args[:2]])
    if isinstance(a, H.HArr) and const_of(b) is not None or isinstance(b, H.HArr) and const_of(a) is not None:
        return wrap(I, map2(I, v.mul, a, b), st)
    return I.opq("dot", *[I.freeze(x, st) for x in args[:2]])


@npmodel("numpy.einsum")
def _einsum(I, args, kw, st, ctx):
    H = _H()
    ops = [as_arr(I, a, st) for a in args[1:]]
    if isinstance(args[0], K) and isinstance(args[0].val, str) and not kw and all(isinstance(o, H.HArr) for o in ops) and "." not in args[0].val:
        ins, _, out = args[0].val.replace(" ", "").partition("->")
        ins = ins.split(",")
        if "->" not in args[0].val:
            out = "".join(sorted(c for c in set("".join(ins)) if "".join(ins).count(c) == 1))
        dims = {}
        if len(ins) == len(ops) and all(len(t) == len(o.shape) for t, o in zip(ins, ops)):
            for t, o in zip(ins, ops):
                for c, d in zip(t, o.shape):
                    if dims.setdefault(c, d) != d:
                        return top("einsum shapes")
            inner = [c for c in dims if c not in out]
            data = []
            for oi in itertools.product(*[range(dims[c]) for c in out]):
                terms = []
                for ii in itertools.product(*[range(dims[c]) for c in inner]):
                    at = dict(zip(list(out) + inner, oi + ii))
                    p = K(1)
                    for t, o in zip(ins, ops):
                        k = 0
                        for c, d in zip(t, o.shape):
                            k = k * d + at[c]
                        p = v.mul(p, o.data[k])
                    terms.append(p)
                data.append(_fsum(terms))
            return data[0] if not out else I.new(st, H.HArr(tuple(dims[c] for c in out), data))
    return call_term(I, "numpy.einsum", args, kw, st, log=False)


@npmodel("numpy.linalg.multi_dot")
def _multidot(I, args, kw, st, ctx):
    it = I.items_of(args[0], st)
    r = it[0]
    for x in it[1:]:
        r = np_dot(I, [r, x], {}, st, ctx)
    return r


@npmodel("numpy.cross")
def _cross(I, args, kw, st, ctx):
    H = _H()
    a, b = as_arr(I, args[0], st), as_arr(I, args[1], st)
    if isinstance(a, H.HArr) and isinstance(b, H.HArr) and a.shape == (3,) and b.shape == (3,):
        x, y = a.data, b.data
        d = [v.sub(v.mul(x[(i + 1) % 3], y[(i + 2) % 3]), v.mul(x[(i + 2) % 3], y[(i + 1) % 3])) for i in range(3)]
        return I.new(st, H.HArr((3,), d))
    return call_term(I, "x:numpy.cross", args, kw, st, log=False)


@npmodel("numpy.outer")
def _outer(I, args, kw, st, ctx):
    H = _H()
    a, b = as_arr(I, args[0], st), as_arr(I, args[1], st)
    a, b = [H.HArr((1,), [x]) if getattr(x, "kind", None) in ("i", "f", "num") and not isinstance(x, H.HArr) else x for x in (a, b)]
    if isinstance(a, H.HArr) and isinstance(b, H.HArr):
        return I.new(st, H.HArr((len(a.data), len(b.data)), [v.mul(x, y) for x in a.data for y in b.data]))
    return call_term(I, "x:numpy.outer", args, kw, st, log=False)


@npmodel("numpy.linalg.norm")
def _norm(I, args, kw, st, ctx):
    H = _H()
    a = as_arr(I, args[0], st)
    axis = kw.get("axis", args[2] if len(args) > 2 else None)
    ordv = kw.get("ord", args[1] if len(args) > 1 else None)
    if isinstance(a, H.HArr) and (ordv is None or const_of(ordv) == 2 or (isinstance(ordv, K) and ordv.val is None)):
        f = lambda xs: v.sqrt(_fsum([v.mul(x, x) for x in xs]))
        if axis is None or len(a.shape) == 1:
            return f(a.data)
        return reduce_axis(I, a, int(const_of(axis)), f, st)
    return call_term(I, "x:numpy.linalg.norm", args, kw, st, kind="num", log=False)


@npmodel("numpy.linalg.det")
def _det(I, args, kw, st, ctx):
    H = _H()
    a = as_arr(I, args[0], st)
    if isinstance(a, H.HArr) and len(a.shape) == 2 and a.shape[0] == a.shape[1] <= 4:
        return det(nested(a))
    return call_term(I, "x:numpy.linalg.det", args, kw, st, kind="num", log=False)


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = K(0)
    for j in range(n):
        minor = [row[:j] + row[j + 1 :] for row in m[1:]]
        t = v.mul(m[0][j], det(minor))
        r = v.add(r, t) if j % 2 == 0 else v.sub(r, t)
    return r


@npmodel("numpy.linalg.inv")
def _inv(I, args, kw, st, ctx):
    H = _H()
    a = as_arr(I, args[0], st)
    if isinstance(a, H.HArr) and len(a.shape) == 2 and a.shape[0] == a.shape[1] <= 4:
        m = nested(a)
        n = len(m)
        d = det(m)
        if "linalg" in I.flags:
            I.do_raise(st, I.new(st, H.HInst(Ext("numpy.linalg.LinAlgError"), {"args": Tup(())})), simplify(v.veq(d, K(0)), st.pc))
        data = []
        for i in range(n):
            for j in range(n):
                minor = [[m[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
                c = det(minor) if n > 1 else K(1)
                if (i + j) % 2:
                    c = v.neg(c)
                data.append(v.div(c, d))
        return I.new(st, H.HArr((n, n), data))
    if "linalg" in I.flags:
        I.do_raise(st, I.new(st, H.HInst(Ext("numpy.linalg.LinAlgError"), {"args": Tup(())})), v.pred("singular", I.freeze(args[0], st)))
    return call_term(I, "x:numpy.linalg.inv", args, kw, st, log=False)


@npmodel("numpy.linalg.solve")
def _solve(I, args, kw, st, ctx):
    return np_dot(I, [_inv(I, [args[0]], {}, st, ctx), args[1]], {}, st, ctx)


@npmodel("numpy.linspace")
def _linspace(I, args, kw, st, ctx):
    H = _H()
    names = ["start", "stop", "num", "endpoint", "retstep", "dtype", "axis"]
    d = dict(zip(names, args))
    d.update(kw)
    n = d.get("num", K(50))
    ep = d.get("endpoint", TRUE)
    c = const_of(n)
    a, b = unbox(I, d["start"], st), unbox(I, d["stop"], st)
    if c is not None and c <= 200 and isinstance(ep, K):
        k = int(c)
        den = (k - 1) if ep.val else k
        step = v.div(v.sub(b, a), K(den)) if den else K(0)
        return I.new(st, H.HArr((k,), [v.add(a, v.mul(K(j), step)) for j in range(k)]))
    return call_term(I, "linspace", [a, b, n, ep], {}, st, log=False)


@npmodel("numpy.arange")
def _arange(I, args, kw, st, ctx):
    r = _range(I, args, {}, st, ctx)
    d = I.iter_desc(r, st)
    if d[0] == "concrete" and len(d[1]) <= 500:
        return I.new(st, _H().HArr((len(d[1]),), [x for _, x in d[1]]))
    return call_term(I, "arange", [r.start, r.stop, r.step], {}, st, log=False)


@npmodel("numpy.meshgrid")
def _meshgrid(I, args, kw, st, ctx):
    H = _H()
    x, y = as_arr(I, args[0], st), as_arr(I, args[1], st)
    ind = kw.get("indexing", K("xy"))
    if isinstance(x, H.HArr) and isinstance(y, H.HArr) and isinstance(ind, K) and len(args) == 2:
        nx, ny = x.shape[0], y.shape[0]
        if ind.val == "xy":
            X = H.HArr((ny, nx), [x.data[i] for j in range(ny) for i in range(nx)])
            Y = H.HArr((ny, nx), [y.data[j] for j in range(ny) for i in range(nx)])
        else:
            X = H.HArr((nx, ny), [x.data[i] for i in range(nx) for j in range(ny)])
            Y = H.HArr((nx, ny), [y.data[j] for i in range(nx) for j in range(ny)])
        return Tup([I.new(st, X), I.new(st, Y)])
    r = call_term(I, "meshgrid", args, {"indexing": ind}, st, log=False)
    return Tup([I.opq("item", r, K(i)) for i in range(len(args))])


@npmodel("numpy.vectorize")
def _vectorize(I, args, kw, st, ctx):
    fn = args[0] if args else kw["pyfunc"]

    def outputs(I2, shape, data, st2):
        H = _H()
        if data and all(isinstance(x, Tup) and len(x.items) == len(data[0].items) for x in data):
            # a function with several outputs gives one array for each
            return Tup([wrap(I2, H.HArr(shape, [x.items[k] for x in data]), st2) for k in range(len(data[0].items))])
        return wrap(I2, H.HArr(shape, data), st2)

    def model(I2, st2, a2, kw2, ctx2):
        H = _H()
        arrs = [as_arr(I2, x, st2) for x in a2]
        if len(arrs) == 1:
            if isinstance(arrs[0], H.HArr):
                return outputs(I2, arrs[0].shape, [I2.call(fn, [x], {}, st2, ctx2) for x in arrs[0].data], st2)
            return I2.call(fn, [arrs[0]], {}, st2, ctx2)
        p = arrs[0]
        t = map2(I2, lambda x, y: Tup([x, y]), arrs[0], arrs[1])
        for z in arrs[2:]:
            t = map2(I2, lambda x, y: Tup(list(x.items) + [y]), t, z)
        if isinstance(t, H.HArr):
            return outputs(I2, t.shape, [I2.call(fn, list(x.items), {}, st2, ctx2) for x in t.data], st2)
        return I2.call(fn, list(t.items), {}, st2, ctx2)

    return Obj(("pymodel", "vectorize", fn.key), fn=model)


@npmodel("numpy.all", "builtins.all")
def _all(I, args, kw, st, ctx):
    return _quant_axis(I, args, kw, st, True)


@npmodel("numpy.any", "builtins.any")
def _any(I, args, kw, st, ctx):
    return _quant_axis(I, args, kw, st, False)


def _quant_axis(I, args, kw, st, isall):
    axis = args[1] if len(args) > 1 else kw.get("axis", NONE)
    a = as_arr(I, unbox(I, args[0], st), st)
    if not isinstance(axis, K) or axis.val is not None:
        if isinstance(a, _H().HArr) and const_of(axis) is not None:

            def fold(xs):
                r = TRUE if isall else FALSE
                for x in xs:
                    r = b_and(r, I.truth(x, st)) if isall else b_or(r, I.truth(x, st))
                return r

            return reduce_axis(I, a, int(const_of(axis)) % len(a.shape), fold, st)
        return call_term(I, "all" if isall else "any", args[:1], {"axis": axis}, st, log=False)
    return _quant(I, args, st, isall)


def _quant(I, args, st, isall):
    H = _H()
    x = unbox(I, args[0], st)
    if isbool(x):
        return x
    o = I.deref(st, x)
    if isinstance(o, H.HArr):
        items = [(TRUE, y) for y in o.data]
    else:
        if isinstance(o, H.HList) and any(l is not None for _, _, l in o.entries):
            if len(o.entries) == 1:
                g, y, l = o.entries[0]
                c = I.truth(y, st)
                bad = b_and(g, b_not(c)) if isall else b_and(g, c)
                some = bvar(CV.get("some", (v.vnof(l[0]), bad.key), (l[0], bad))) if bad is not TRUE else v.lt(K(0), l[0])
                if bad is FALSE:
                    some = FALSE
                return b_not(some) if isall else some
            return v.pred("all" if isall else "any", I.freeze(x, st))
        d = I.iter_desc(x, st) if not isinstance(x, T) or x.op == "seq" else None
        if d is None or d[0] != "concrete":
            return v.pred("all" if isall else "any", I.freeze(x, st))
        items = d[1]
    r = TRUE if isall else FALSE
    for g, y in items:
        c = I.truth(y, st)
        r = b_and(r, b_or(b_not(g), c)) if isall else b_or(r, b_and(g, c))
    return r


@npmodel("numpy.isclose", "math.isclose")
def _isclose(I, args, kw, st, ctx):
    return v.pred("isclose", *[I.freeze(a, st) for a in args[:2]])


@npmodel("numpy.cumsum")
def _cumsum(I, args, kw, st, ctx):
    H = _H()
    a = as_arr(I, args[0], st)
    if isinstance(a, H.HArr) and len(a.shape) == 1:
        out, r = [], K(0)
        for x in a.data:
            r = v.add(r, x)
            out.append(r)
        return I.new(st, H.HArr(a.shape, out))
    return call_term(I, "cumsum", args, kw, st, log=False)


def _source_model(module, text, name):
    def f(I, args, kw, st, ctx):
        if module == "itertools" and not all(isinstance(a, (K, Obj, Ext)) or I.items_of(unbox(I, a, st), st) is not None for a in args):
            return call_term(I, "x:" + module + "." + name, args, kw, st, log=False)
        return I.call(I.modattr(st, I.source_module(module + "_", text), name.split(".")[-1]), args, kw, st, ctx)

    NP[module + "." + name] = f


for _m, _t in (("contextlib", pylib.CONTEXTLIB), ("itertools", pylib.ITERTOOLS), ("collections", pylib.COLLECTIONS)):
    for _n in ast.parse(_t).body:
        _source_model(_m, _t, "chain.from_iterable" if _n.name == "from_iterable" else _n.name)


@npmodel("builtins.object.__setattr__")
def _rawset(I, args, kw, st, ctx):
    if len(args) == 3 and isinstance(args[1], K) and isinstance(args[0], Ref):
        I.setattr(args[0], args[1].val, args[2], st, ctx, raw=True)
    return NONE


@npmodel("itertools.accumulate")
def _accumulate(I, args, kw, st, ctx):
    it = once(I, unbox(I, args[0], st), st)
    if it is None:
        it = I.items_of(args[0], st)
    f = args[1] if len(args) > 1 else kw.get("func", NONE)
    if it is None:
        return top("accumulate")
    if kw.get("initial", NONE) is not NONE:
        it = [kw["initial"]] + list(it)
    out = []
    for x in it:
        out.append(x if not out else binop(I, "Add", out[-1], x, st, ctx) if f is NONE else I.call(f, [out[-1], x], {}, st, ctx))
    return as_iter(I, out, st)


@npmodel("itertools.product")
def _product(I, args, kw, st, ctx):
    its = [I.items_of(a, st) for a in args]
    if any(i is None for i in its):
        return top("itertools.product")
    rep = int(const_of(kw["repeat"])) if "repeat" in kw else 1
    return I.new_list(st, [Tup(c) for c in itertools.product(*(its * rep))])


@npmodel("itertools.chain")
def _chain(I, args, kw, st, ctx):
    H = _H()
    r = I.new_list(st, [])
    for a in args:
        list_method(I, r, I.deref(st, r), "extend", [a], {}, st, ctx)
    return r


@npmodel("functools.reduce")
def _reduce(I, args, kw, st, ctx):
    it = I.items_of(args[1], st)
    if it is None:
        return top("reduce")
    if len(args) > 2:
        r = args[2]
    else:
        r, it = it[0], it[1:]
    for x in it:
        r = I.call(args[0], [r, x], {}, st, ctx)
    return r


@npmodel("functools.partial")
def _partial(I, args, kw, st, ctx):
    return Obj(("partial", args[0].key, tuple(a.key for a in args[1:])), fn=args[0], args=args[1:], kw=kw)


@npmodel("operator.attrgetter")
def _attrgetter(I, args, kw, st, ctx):
    name = args[0]

    def model(I2, st2, a, k2, c2):
        def get(nm):
            x = a[0]
            for p in nm.split("."):
                x = I2.getattr(x, p, st2, c2)
            return x

        if isinstance(name, K):
            return get(name.val)
        if isinstance(name, G):
            return I2.split(name, st2, lambda l, s: get(l.val) if isinstance(l, K) else top("attrgetter"))
        return call_term(I2, "attrget", [a[0], name], {}, st2)

    return Obj(("pymodel", "attrgetter", name.key), fn=model)


@npmodel("operator.itemgetter")
def _itemgetter(I, args, kw, st, ctx):
    def model(I2, st2, a, k2, c2):
        r = [getitem(I2, a[0], k, st2, c2) for k in args]
        return r[0] if len(r) == 1 else Tup(r)

    return Obj(("pymodel", "itemgetter") + tuple(a.key for a in args), fn=model)


NUMBER_TYPES = set("int float complex number Number Real Integral Complex Rational floating integer generic float64 float32 int64 int32 bool bool_ object Decimal SupportsFloat SupportsInt Hashable inexact double intp int_ float_".split())


@npmodel("builtins.isinstance")
def _isinstance(I, args, kw, st, ctx):
    H = _H()
    x, c = unbox(I, args[0], st), args[1]
    if isinstance(x, G):
        return I.split(x, st, lambda l, s: _isinstance(I, [l, c], kw, s, ctx))
    if isinstance(c, Tup) or (isinstance(c, Ref) and isinstance(I.deref(st, c), H.HList)):
        r = FALSE
        for q in I.items_of(c, st):
            r = b_or(r, _isinstance(I, [x, q], kw, st, ctx))
        return r
    cn = c.name if isinstance(c, Ext) else None
    if isinstance(x, K):
        tn = {"i": "int", "f": "float", "b": "bool", "c": "complex"}.get(x.kind) or type(x.val).__name__
        if cn:
            want = cn.split(".")[-1]
            return TRUE if want == tn or (want == "int" and tn == "bool") or want == "object" else FALSE
        return FALSE
    if isinstance(x, Ref):
        o = I.deref(st, x)
        if isinstance(o, H.HInst):
            r = I.subclass(o.cls, c) if isinstance(c, (Obj, Ext)) else None
            return TRUE if r else FALSE
        tn = {H.HList: ("list", "Sequence", "Iterable"), H.HDict: ("dict", "Mapping", "Dict"), H.HArr: ("ndarray",), H.HBox: ("ndarray",)}.get(type(o), ())
        if isinstance(o, H.HList) and o.kind == "set":
            tn = ("set", "Iterable")
        return TRUE if cn and cn.split(".")[-1] in tn else FALSE
    if isinstance(x, Tup):
        if isinstance(c, Obj):
            return TRUE if x.cls is not None and I.subclass(x.cls, c) else FALSE
        return TRUE if cn and cn.split(".")[-1] in ("tuple", "Tuple", "Sequence") else FALSE
    if isinstance(x, EnumM):
        return TRUE if isinstance(c, Obj) and I.subclass(x.cls, c) or (cn == "builtins.str" and x.isstr) else FALSE
    if isinstance(x, T):
        if x.cls is not None:
            if isinstance(c, Obj) and isinstance(x.cls, Obj):
                return TRUE if I.subclass(x.cls, c) else FALSE
            if isinstance(x.cls, Ext):
                return TRUE if isinstance(c, Ext) and (c.name == x.cls.name) else FALSE
        if x.kind == "s" and cn:
            return TRUE if cn.endswith(".str") else FALSE
        if x.op in ("cls", "seq") and cn:
            return TRUE if cn.split(".")[-1] in ("list", "tuple", "List") else FALSE
        if x.kind in ("i", "f", "num") and not (cn and cn.split(".")[-1] in NUMBER_TYPES):
            return FALSE
        nm = cn or getattr(c, "name", None) or str(c.key)
        return bvar(CV.get("isinstance", (x.key, nm), (x, K(nm))))
    return FALSE


@npmodel("builtins.issubclass")
def _issubclass(I, args, kw, st, ctx):
    r = I.subclass(args[0], args[1])
    return TRUE if r else FALSE


@npmodel("builtins.callable")
def _callable(I, args, kw, st, ctx):
    return TRUE if isinstance(args[0], (Obj, Ext)) else v.pred("callable", args[0])


@npmodel("builtins.type")
def _type(I, args, kw, st, ctx):
    H = _H()
    x = args[0]
    o = I.deref(st, x)
    if isinstance(o, H.HInst):
        return o.cls
    if isinstance(x, T) and x.cls is not None:
        return x.cls
    if isinstance(x, EnumM):
        return x.cls
    if isinstance(x, Tup):
        return x.cls or Ext("builtins.tuple")
    if isinstance(o, H.HList):
        return Ext("builtins.list")
    if isinstance(o, H.HDict):
        return Ext("builtins.dict")
    return I.opq("type", I.freeze(x, st))


@npmodel("builtins.getattr")
def _getattr(I, args, kw, st, ctx):
    n = unbox(I, args[1], st)
    if isinstance(n, G):
        return I.split(n, st, lambda l, s: _getattr(I, [args[0], l] + list(args[2:]), kw, s, ctx))
    if isinstance(n, K):
        return I.getattr(args[0], n.val, st, ctx, args[2] if len(args) > 2 else None)
    return call_term(I, "getattr", args, kw, st, log=False)


@npmodel("builtins.setattr")
def _setattr(I, args, kw, st, ctx):
    if isinstance(args[1], K):
        I.split(args[0], st, lambda l, s: I.setattr(l, args[1].val, args[2], s, ctx) or NONE)
        return NONE
    return call_term(I, "setattr", args, kw, st)


@npmodel("builtins.hasattr")
def _hasattr(I, args, kw, st, ctx):
    H = _H()
    o = I.deref(st, args[0])
    n = args[1]
    if isinstance(n, K):
        if isinstance(o, H.HInst):
            if n.val in o.attrs:
                r = o.attrs[n.val]
                return apply1(lambda l: FALSE if l.key == UNDEF.key else TRUE, r)
            if isinstance(o.cls, Obj) and I.cls_lookup(o.cls, n.val, st)[0] is not None:
                return TRUE
            return FALSE
        if isinstance(o, H.HBox) or isinstance(args[0], T):
            return v.pred("hasattr", I.freeze(args[0], st), n)
        if isinstance(o, H.HArr):
            return TRUE if n.val in ("shape", "dtype", "ndim", "size", "T", "__len__") else FALSE
        if isinstance(o, (H.HList, H.HDict)) or isinstance(args[0], Tup):
            return TRUE if n.val in ("__len__", "__iter__", "__getitem__") else FALSE
        if isinstance(args[0], Obj) and args[0].key[0] == "cls":
            r, c = I.cls_lookup(args[0], n.val, st)
            if c is not None:
                return apply1(lambda l: FALSE if l.key == UNDEF.key else TRUE, r)
            if not any(isinstance(b, Ext) and b.name not in ("builtins.object", "abc.ABC", "typing.Generic", "typing.Protocol") for b in I.mro(args[0])):
                return FALSE
    return v.pred("hasattr", I.freeze(args[0], st), n)


@npmodel("builtins.property")
def _property(I, args, kw, st, ctx):
    return Obj(("prop", args[0].key), fget=args[0], fset=args[1] if len(args) > 1 else kw.get("fset"))


@npmodel("builtins.staticmethod")
def _staticmethod(I, args, kw, st, ctx):
    return Obj(("static", args[0].key), fn=args[0])


@npmodel("builtins.classmethod")
def _classmethod(I, args, kw, st, ctx):
    return Obj(("classm", args[0].key), fn=args[0])


@npmodel("builtins.object", "vga.noop")
def _noop(I, args, kw, st, ctx):
    return NONE


@npmodel("builtins.super")
def _super(I, args, kw, st, ctx):
    return Obj(("super", args[0].key, args[1].key), cls=args[0], selfv=args[1])


@npmodel("builtins.slice")
def _slice(I, args, kw, st, ctx):
    a = list(args)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    return Obj(("slice",) + tuple(x.key for x in a), lo=a[0], hi=a[1], step=a[2])


@npmodel("builtins.divmod")
def _divmod(I, args, kw, st, ctx):
    return Tup([binop(I, "FloorDiv", args[0], args[1], st, ctx), binop(I, "Mod", args[0], args[1], st, ctx)])


@npmodel("collections.namedtuple")
def _namedtuple(I, args, kw, st, ctx):
    names = args[1]
    if isinstance(names, K):
        ns = names.val.replace(",", " ").split()
    else:
        ns = [x.val for x in I.items_of(names, st)]
    env = I.w.alloc()
    st.heap[env] = _H().HEnv({})
    dfl = {}
    if "defaults" in kw:
        ds = I.items_of(kw["defaults"], st) or []
        dfl = dict(zip(ns[len(ns) - len(ds) :], ds))
    return Obj(("cls", "namedtuple", args[0].val, tuple(ns)), name=args[0].val, bases=[], env=env, enum=None, fields=None, nt=ns, ntdef=dfl, anns=[])


@npmodel("copy.copy")
def _copy(I, args, kw, st, ctx):
    """a new object that shares its parts"""

    def one(x):
        if not isinstance(x, Ref):
            return x
        o = I.deref(st, x)
        r = I.new(st, o)
        if isinstance(o, _H().HInst):
            st.heap[r.addr] = _H().HInst(o.cls, dict(o.attrs))
        return r

    return apply1(one, args[0])


@npmodel("copy.deepcopy")
def _deepcopy(I, args, kw, st, ctx):
    return deepcopy(I, args[0], st, {})


def deepcopy(I, x, st, memo):
    H = _H()
    if isinstance(x, G):
        return apply1(lambda l: deepcopy(I, l, st, memo), x)
    if isinstance(x, Tup):
        return Tup([deepcopy(I, i, st, memo) for i in x.items], x.names, x.cls)
    if isinstance(x, Ref):
        if x.addr in memo:
            return memo[x.addr]
        o = I.deref(st, x)
        r = I.new(st, o)
        memo[x.addr] = r
        d = lambda y: deepcopy(I, y, st, memo)
        if isinstance(o, H.HInst):
            n = H.HInst(o.cls, {k: d(y) for k, y in o.attrs.items()})
        elif isinstance(o, H.HList):
            n = H.HList([(g, d(y), l) for g, y, l in o.entries], o.kind)
        elif isinstance(o, H.HDict):
            n = H.HDict({k: (g, kk, d(y)) for k, (g, kk, y) in o.entries.items()}, o.base, o.comps)
        elif isinstance(o, H.HArr):
            n = o
        elif isinstance(o, H.HBox):
            n = o
        else:
            n = o
        st.heap[r.addr] = n
        return r
    if isinstance(x, T) and x.kind not in ("i", "f", "num", "s"):
        return I.new(st, H.HBox(x))
    return x


# ---- logging: no observable value
for _n in ("debug", "info", "warning", "error", "exception", "critical", "log", "warn"):
    NP["logging." + _n] = _noop
    METHOD_MODELS[_n] = lambda I, x, name, args, kw, st, ctx: NONE if isinstance(x, T) and x.op == "x:logging.getLogger" else None


@npmodel("logging.getLogger")
def _getlogger(I, args, kw, st, ctx):
    return T("x:logging.getLogger", (), v.f_hash("logger"), "o")


@npmodel("typing.cast")
def _cast(I, args, kw, st, ctx):
    return args[1]


# ---------------------------------------------------------------- substitution
def substitute(I, x, mp, st, memo=None):
    """rebuild x with atoms replaced (mp: key -> value); heap objects are copied"""
    H = _H()
    memo = {} if memo is None else memo
    if x.key in mp:
        return mp[x.key]
    if x.key in memo:
        return memo[x.key]
    r = x
    if isinstance(x, T):
        if x.args:
            na = [substitute(I, a, mp, st, memo) for a in x.args]
            if any(a.key != b.key for a, b in zip(na, x.args)):
                r = applyN(lambda *ys: rebuild(x, ys), na) if not any(isinstance(a, G) and isinstance(b, G) for a, b in zip(na, x.args)) else rebuild(x, na)
    elif isinstance(x, Tup):
        r = Tup([substitute(I, a, mp, st, memo) for a in x.items], x.names, x.cls)
    elif isinstance(x, G):
        c = subst_cv(I, x.var, mp, st, memo)
        r = ite(c, substitute(I, x.hi, mp, st, memo), substitute(I, x.lo, mp, st, memo))
    elif isinstance(x, Ref):
        o = I.deref(st, x)
        s = lambda y: substitute(I, y, mp, st, memo)
        if isinstance(o, H.HInst):
            n = H.HInst(o.cls, {k: s(y) for k, y in o.attrs.items()})
        elif isinstance(o, H.HList):
            n = H.HList([(s(g), s(y), l) for g, y, l in o.entries], o.kind)
        elif isinstance(o, H.HDict):
            n = H.HDict({k: (s(g), kk, s(y)) for k, (g, kk, y) in o.entries.items()}, o.base, o.comps)
        elif isinstance(o, H.HArr):
            n = H.HArr(o.shape, [s(y) for y in o.data])
        elif isinstance(o, H.HBox):
            n = H.HBox(s(o.val))
        else:
            n = o
        r = I.new(st, n)
    memo[x.key] = r
    return r


def subst_cv(I, cv, mp, st, memo):
    s = lambda y: substitute(I, y, mp, st, memo) if isinstance(y, V) else y
    if cv.kind == "neg":
        return v.lt(s(cv.arg), K(0))
    if cv.kind == "pos":
        return v.gt(s(cv.arg), K(0))
    if cv.kind == "eq":
        a, b = cv.arg
        return v.veq(s(a), s(b))
    if cv.kind == "truthy":
        return truth(I, s(cv.arg), st)
    args = cv.arg if isinstance(cv.arg, (tuple, list)) else (cv.arg,)
    na = [s(a) for a in args]
    if all(a.key == b.key for a, b in zip(na, args)):
        return bvar(cv)
    if cv.kind in ("some", "isinstance"):
        return bvar(CV.get(cv.kind, tuple(v.vnof(a) for a in na), tuple(na)))
    return v.pred(cv.kind, *na)


REB = {
    "+": v.add,
    "-": v.sub,
    "*": v.mul,
    "/": v.div,
    "**": v.power,
    "pow": v.power,
    "sqrt": v.sqrt,
    "sin": v.sin,
    "cos": v.cos,
    "abs": v.vabs,
    "floor": v.floor,
    "trunc": v.trunc,
}


def rebuild(x, args):
    f = REB.get(x.op)
    if f is not None:
        return f(*args)
    return term(x.op, *args, kind=x.kind, cls=x.cls)


# ---------------------------------------------------------------- numpy.polynomial
POLY = "numpy.polynomial.Polynomial"
SIO = "io.StringIO"


def sio_method(I, recv, h, name, args, kw, st, ctx):
    H = _H()
    if name == "write" and len(args) == 1:
        x = unbox(I, args[0], st)
        I.setattr(recv, "__buf__", concat(I, [h.attrs["__buf__"], x]), st, ctx)
        return term("len", I.freeze(x, st), kind="i")
    if name == "getvalue":
        return h.attrs["__buf__"]
    if name in ("close", "flush"):
        return NONE
    return top("StringIO." + name)


def pad_method(name):
    """str.ljust / rjust / zfill in terms of format()"""

    def f(I, x, nm, args, kw, st, ctx):
        if kw or len(args) != 1:
            return None
        w = to_str(I, args[0], st, ctx)
        if name == "zfill":
            if isinstance(x, T) and x.op == "str" and x.args[0].kind == "i":
                return fmt(I, x.args[0], concat(I, [K("0"), w, K("d")]), st, ctx)
            return None
        if not is_str(x):
            return None
        return fmt(I, x, concat(I, [K("<" if name == "ljust" else ">"), w]), st, ctx)

    return f


for _n in ("ljust", "rjust", "zfill"):
    METHOD_MODELS[_n] = pad_method(_n)


for _n in ("sub", "split", "findall"):
    METHOD_MODELS[_n] = lambda I, x, name, args, kw, st, ctx: regex(I, name, args, kw, st, x) if isinstance(x, T) and x.op == "x:re.compile" else None


@npmodel(SIO)
def _sio(I, args, kw, st, ctx):
    return I.new(st, _H().HInst(Ext(SIO), {"__buf__": unbox(I, args[0], st) if args else K("")}))


@npmodel(POLY)
def _polynomial(I, args, kw, st, ctx):
    H = _H()
    kw = dict(kw)
    c = args[0] if args else kw.pop("coef")
    if len(args) > 1 or kw:
        return call_term(I, "x:" + POLY, args, kw, st, log=False)
    x = as_arr(I, c, st)
    if isinstance(x, H.HArr) and len(x.shape) == 1 and x.data:
        return I.new(st, H.HInst(Ext(POLY), {"coef": I.new(st, H.HArr(x.shape, list(x.data)))}))
    return term("polynomial", I.freeze(c, st))


def horner(cs, t):
    r = K(Fraction(0), "f")
    for c in reversed(cs):
        r = v.add(v.mul(r, t), c)
    return r


def poly_call(I, h, args, kw, st, ctx):
    H = _H()
    cs = as_arr(I, h.attrs["coef"], st).data
    t = as_arr(I, args[0] if args else kw["arg"], st)
    if isinstance(t, H.HArr):
        return I.new(st, H.HArr(t.shape, [horner(cs, x) for x in t.data]))
    return horner(cs, unbox(I, t, st) if isinstance(t, Ref) else t)


def poly_method(I, h, name, args, kw, st, ctx):
    H = _H()
    cs = list(as_arr(I, h.attrs["coef"], st).data)
    if name == "deriv":
        m = const_of(args[0] if args else kw.get("m", K(1)))
        if m is None:
            return top("deriv order")
        for _ in range(int(m)):
            cs = [v.mul(K(i), c) for i, c in enumerate(cs)][1:] or [K(Fraction(0), "f")]
        return I.new(st, H.HInst(Ext(POLY), {"coef": I.new(st, H.HArr((len(cs),), cs))}))
    if name == "degree":
        return K(len(cs) - 1)
    if name == "__call__":
        return poly_call(I, h, args, kw, st, ctx)
    if name == "copy":
        return I.new(st, h)
    return top("Polynomial." + name)


@npmodel("numpy.polynomial.polynomial.polyval")
def _polyval(I, args, kw, st, ctx):
    H = _H()
    x = args[0] if args else kw["x"]
    c = as_arr(I, args[1] if len(args) > 1 else kw["c"], st)
    if isinstance(c, H.HArr) and len(c.shape) == 1:
        return horner(c.data, as_arr(I, x, st)) if not isinstance(as_arr(I, x, st), H.HArr) else I.new(st, H.HArr(as_arr(I, x, st).shape, [horner(c.data, q) for q in as_arr(I, x, st).data]))
    return call_term(I, "polyval", [x, args[1] if len(args) > 1 else kw["c"]], {}, st, kind="num", log=False)


@npmodel("numpy.polynomial.polynomial.polyder")
def _polyder(I, args, kw, st, ctx):
    H = _H()
    c = as_arr(I, args[0] if args else kw["c"], st)
    m = const_of(args[1] if len(args) > 1 else kw.get("m", K(1)))
    if isinstance(c, H.HArr) and len(c.shape) == 1 and m is not None:
        cs = list(c.data)
        for _ in range(int(m)):
            cs = [v.mul(K(i), q) for i, q in enumerate(cs)][1:] or [K(Fraction(0), "f")]
        return I.new(st, H.HArr((len(cs),), cs))
    return call_term(I, "polyder", args, kw, st, log=False)


@npmodel("numpy.polynomial.polynomial.polyval2d")
def _polyval2d(I, args, kw, st, ctx):
    H = _H()
    x, y, c0 = [args[i] if len(args) > i else kw[n] for i, n in enumerate(("x", "y", "c"))]
    c = as_arr(I, c0, st)
    x, y = as_arr(I, x, st), as_arr(I, y, st)
    if isinstance(c, H.HArr) and len(c.shape) == 2 and not isinstance(x, H.HArr) and not isinstance(y, H.HArr):
        m, n = c.shape
        return horner([horner(c.data[i * n : (i + 1) * n], y) for i in range(m)], x)
    return call_term(I, "polyval2d", [x if not isinstance(x, H.HArr) else top("array"), y if not isinstance(y, H.HArr) else top("array"), c0], {}, st, kind="num", log=False)


def _asfarray(I, args, kw, st, ctx):
    r = NP["numpy.asarray"](I, args[:1], {}, st, ctx)
    h = as_arr(I, r, st)
    if hasattr(h, "shape"):
        return I.new(st, type(h)(h.shape, [astype(I, x, Ext("numpy.float64"), st) for x in h.data]))
    return r


NP["numpy.asfarray"] = _asfarray


# ---------------------------------------------------------------- rearrangements of arrays of known shape
def _rearranged(name, f):
    """f(shape, constant arguments) -> new shape and, for each new element, the index tuple it comes from"""

    def model(I, args, kw, st, ctx):
        H = _H()
        a = as_arr(I, args[0], st)
        rest = [_constant(I, x, st) for x in args[1:]]
        ck = {k: _constant(I, x, st) for k, x in kw.items()}
        if isinstance(a, H.HArr) and all(x is not ... for x in list(rest) + list(ck.values())):
            try:
                shape, idx = f(tuple(a.shape), *rest, **ck)
            except (TypeError, ValueError, IndexError, KeyError):
                return call_term(I, "x:" + name, args, kw, st, log=False)
            strides = _strides(a.shape)
            pos = [sum(i * s for i, s in zip(t, strides)) for t in idx]
            if name.split(".")[-1] not in ("roll", "tile", "repeat", "delete") and isinstance(args[0], Ref) and isinstance(I.deref(st, args[0]), H.HArr):
                return I.view(st, args[0], tuple(shape), pos)
            return I.new(st, H.HArr(tuple(shape), [a.data[p] for p in pos]))
        return call_term(I, "x:" + name, args, kw, st, log=False)

    NP[name] = model


def _constant(I, x, st):
    x = unbox(I, x, st)
    if isinstance(x, K) and x.val is None:
        return None
    c = const_of(x)
    if c is not None:
        return int(c) if c == int(c) else ...
    it = I.items_of(x, st) if isinstance(x, (Tup, Ref)) else None
    if it is None:
        return ...
    r = [_constant(I, y, st) for y in it]
    return tuple(r) if all(type(y) is int for y in r) else ...


def _every(shape):
    return itertools.product(*[range(d) for d in shape])


def _axes(ax, n):
    if ax is None:
        return list(range(n))
    return [x % n for x in ([ax] if isinstance(ax, int) else ax)]


def _flip(shape, axis=None):
    on = _axes(axis, len(shape))
    return shape, [tuple(shape[d] - 1 - i if d in on else i for d, i in enumerate(t)) for t in _every(shape)]


def _roll(shape, shift, axis=None):
    if axis is None:
        flat = list(_every(shape))
        return shape, [flat[(n - shift) % len(flat)] for n in range(len(flat))]
    on = dict(zip(_axes(axis, len(shape)), [shift] if isinstance(shift, int) else shift))
    return shape, [tuple((i - on.get(d, 0)) % shape[d] for d, i in enumerate(t)) for t in _every(shape)]


def _permuted(shape, order):
    new = tuple(shape[d] for d in order)
    out = []
    for t in _every(new):
        src = [0] * len(shape)
        for i, d in zip(t, order):
            src[d] = i
        out.append(tuple(src))
    return new, out


def _moveaxis(shape, source, destination):
    s, d = _axes(source, len(shape)), _axes(destination, len(shape))
    order = [n for n in range(len(shape)) if n not in s]
    for dest, src in sorted(zip(d, s)):
        order.insert(dest, src)
    return _permuted(shape, order)


def _swapaxes(shape, p, q):
    order = list(range(len(shape)))
    order[p], order[q] = order[q], order[p]
    return _permuted(shape, order)


def _tile(shape, reps):
    reps = (reps,) if isinstance(reps, int) else reps
    n = max(len(reps), len(shape))
    reps, sh = (1,) * (n - len(reps)) + tuple(reps), (1,) * (n - len(shape)) + shape
    new = tuple(p * q for p, q in zip(reps, sh))
    return new, [tuple(i % d for i, d in zip(t, sh))[n - len(shape) :] for t in _every(new)]


def _repeat(shape, repeats, axis=None):
    if axis is None:
        return (repeats * len(list(_every(shape))),), [t for t in _every(shape) for _ in range(repeats)]
    axis %= len(shape)
    new = tuple(s * repeats if d == axis else s for d, s in enumerate(shape))
    return new, [tuple(i // repeats if d == axis else i for d, i in enumerate(t)) for t in _every(new)]


def _rot90(shape, k=1):
    h, w = shape
    k %= 4
    new = shape if k % 2 == 0 else (w, h)
    at = [lambda r, c: (r, c), lambda r, c: (c, w - 1 - r), lambda r, c: (h - 1 - r, w - 1 - c), lambda r, c: (h - 1 - c, r)][k]
    return new, [at(r, c) for r, c in _every(new)]


def _reshaped(new):
    def f(shape, *args, **kw):
        return new(shape, *args, **kw), list(_every(shape))

    return f


def _expand(shape, axis):
    ax = _axes(axis, len(shape) + (1 if isinstance(axis, int) else len(axis)))
    rest = list(shape)
    return tuple(1 if d in ax else rest.pop(0) for d in range(len(shape) + len(ax)))


def _broadcast(shape, to):
    to = (to,) if isinstance(to, int) else tuple(to)
    sh = (1,) * (len(to) - len(shape)) + shape
    if any(s not in (1, d) for s, d in zip(sh, to)):
        raise ValueError
    return to, [tuple(0 if s == 1 else i for i, s in zip(t, sh))[len(to) - len(shape) :] for t in _every(to)]


_rearranged("numpy.flip", _flip)
_rearranged("numpy.flipud", lambda shape: _flip(shape, 0))
_rearranged("numpy.fliplr", lambda shape: _flip(shape, 1))
_rearranged("numpy.roll", _roll)
_rearranged("numpy.moveaxis", _moveaxis)
_rearranged("numpy.rollaxis", lambda shape, axis, start=0: _moveaxis(shape, axis, start if start <= axis else start - 1))
_rearranged("numpy.swapaxes", _swapaxes)
_rearranged("numpy.tile", _tile)
_rearranged("numpy.repeat", _repeat)
_rearranged("numpy.rot90", _rot90)
_rearranged("numpy.expand_dims", _reshaped(_expand))
_rearranged("numpy.squeeze", _reshaped(lambda shape, axis=None: tuple(s for d, s in enumerate(shape) if s != 1 or axis is not None and d not in _axes(axis, len(shape)))))
_rearranged("numpy.ravel", _reshaped(lambda shape: (len(list(_every(shape))),)))
_rearranged("numpy.atleast_2d", _reshaped(lambda shape: (1,) * (2 - len(shape)) + shape))
_rearranged("numpy.broadcast_to", _broadcast)
_rearranged("numpy.delete", lambda shape, n: ((shape[0] - 1,), [t for t in _every(shape) if t[0] != n % shape[0]]) if len(shape) == 1 else [][0])
_rearranged("numpy.ascontiguousarray", _reshaped(lambda shape: shape or (1,)))


@npmodel("numpy.diff")
def _diff(I, args, kw, st, ctx):
    H = _H()
    a = as_arr(I, args[0], st)
    ax = _constant(I, kw["axis"], st) if "axis" in kw else -1
    n = _constant(I, args[1] if len(args) > 1 else kw.get("n", K(1)), st)
    if not isinstance(a, H.HArr) or ax is ... or n != 1 or set(kw) - {"axis", "n"}:
        return call_term(I, "x:numpy.diff", args, kw, st, log=False)
    ax %= len(a.shape)
    new = tuple(s - (d == ax) for d, s in enumerate(a.shape))
    strides = _strides(a.shape)
    at = lambda t: a.data[sum(i * s for i, s in zip(t, strides))]
    return I.new(st, H.HArr(new, [v.sub(at(tuple(i + (d == ax) for d, i in enumerate(t))), at(t)) for t in _every(new)]))


@npmodel("numpy.polyval")
def _np_polyval(I, args, kw, st, ctx):
    c = as_arr(I, args[0], st)
    if isinstance(c, _H().HArr) and len(c.shape) == 1 and len(args) == 2:
        r = K(0)
        for x in c.data:
            r = binop(I, "Add", binop(I, "Mult", r, args[1], st, ctx), x, st, ctx)
        return r
    return call_term(I, "x:numpy.polyval", args, kw, st, log=False)


@npmodel("numpy.ndim")
def _ndim(I, args, kw, st, ctx):
    a = as_arr(I, args[0], st)
    if isinstance(a, _H().HArr):
        return K(len(a.shape))
    return call_term(I, "x:numpy.ndim", args, kw, st, log=False)


@npmodel("numpy.size")
def _size(I, args, kw, st, ctx):
    a = as_arr(I, args[0], st)
    if isinstance(a, _H().HArr) and len(args) == 1 and not kw:
        return K(len(a.data))
    return call_term(I, "x:numpy.size", args, kw, st, log=False)


@npmodel("numpy.shape")
def _np_shape(I, args, kw, st, ctx):
    a = as_arr(I, args[0], st)
    if isinstance(a, _H().HArr):
        return Tup([K(d) for d in a.shape])
    return call_term(I, "x:numpy.shape", args, kw, st, log=False)


def _arg_extreme(name, less):
    def f(I, args, kw, st, ctx):
        a = as_arr(I, args[0], st)
        if isinstance(a, _H().HArr) and len(args) == 1 and not kw and 0 < len(a.data) <= 8:
            best, at = a.data[0], K(0)
            for n, x in enumerate(a.data[1:], 1):
                c = simplify(v.lt(x, best) if less else v.lt(best, x), st.pc)
                best, at = ite(c, x, best), ite(c, K(n), at)
            return at
        return call_term(I, "x:numpy." + name, args, kw, st, log=False)

    NP["numpy." + name] = f


_arg_extreme("argmin", True)
_arg_extreme("argmax", False)


@npmodel("math.prod")
def _mathprod(I, args, kw, st, ctx):
    it = I.items_of(args[0], st)
    if it is None or kw.get("start") is not None:
        return call_term(I, "x:math.prod", args, kw, st, log=False)
    r = K(1)
    for x in it:
        r = v.mul(r, x)
    return r


for _n, _o in {"numpy.absolute": "numpy.abs", "numpy.float_power": "numpy.power", "numpy.round_": "numpy.round", "numpy.rad2deg": "numpy.degrees", "numpy.deg2rad": "numpy.radians", "numpy.amin": "numpy.min", "numpy.amax": "numpy.max", "numpy.fmin": "numpy.minimum", "numpy.fmax": "numpy.maximum", "numpy.remainder": "numpy.mod", "numpy.fix": "numpy.trunc", "numpy.divmod": "builtins.divmod", "numpy.sum.reduce": "numpy.sum", "numpy.add.reduce": "numpy.sum", "numpy.multiply.reduce": "numpy.prod"}.items():
    if _o in NP and _n not in NP:
        NP[_n] = NP[_o]


@npmodel("numpy.logical_and")
def _logical_and(I, args, kw, st, ctx):
    return binop(I, "BitAnd", _bools(I, args[0], st), _bools(I, args[1], st), st, ctx)


@npmodel("numpy.logical_or")
def _logical_or(I, args, kw, st, ctx):
    return binop(I, "BitOr", _bools(I, args[0], st), _bools(I, args[1], st), st, ctx)


@npmodel("numpy.logical_not")
def _logical_not(I, args, kw, st, ctx):
    a = _bools(I, args[0], st)
    o = I.deref(st, a)
    if isinstance(o, _H().HArr):
        return I.new(st, _H().HArr(o.shape, [b_not(x) for x in o.data]))
    return b_not(a) if isbool(a) else call_term(I, "x:numpy.logical_not", args, kw, st, log=False)


def _bools(I, x, st):
    a = as_arr(I, x, st)
    if isinstance(a, _H().HArr):
        return wrap(I, _H().HArr(a.shape, [truth(I, y, st) for y in a.data]), st)
    return truth(I, x, st) if isinstance(a, (K, G)) or isinstance(a, T) and a.is_num else a


@npmodel("numpy.array_equal")
def _array_equal(I, args, kw, st, ctx):
    a, b = as_arr(I, args[0], st), as_arr(I, args[1], st)
    if isinstance(a, _H().HArr) and isinstance(b, _H().HArr):
        if a.shape != b.shape:
            return FALSE
        r = TRUE
        for x, y in zip(a.data, b.data):
            r = b_and(r, v.veq(x, y))
        return r
    return call_term(I, "x:numpy.array_equal", args, kw, st, log=False)


@npmodel("dataclasses.replace")
def _dcreplace(I, args, kw, st, ctx):
    o = I.deref(st, args[0])
    if isinstance(o, _H().HInst) and isinstance(o.cls, Obj) and o.cls.fields is not None:
        new = {n: o.attrs[n] for n, _, _ in o.cls.fields if n in o.attrs}
        new.update(kw)
        return I.construct(o.cls, [], new, st, ctx)
    return call_term(I, "x:dataclasses.replace", args, kw, st, log=False)
