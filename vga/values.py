"""Abstract values for the global value numbering.

A value number is an element of the finite field F(p^2), p = 2^127-1.  Opaque values ("atoms")
are numbered by hashing their operator and operand numbers; arithmetic on value numbers is done
in the field, so two expressions that are equal as rational functions of their atoms receive
the same number (random-interpretation value numbering, Gulwani & Necula, POPL 2004).

Control-flow joins are represented by gates (gated SSA) kept as ordered multi-terminal decision
diagrams over condition atoms.
"""
import hashlib
import os
from fractions import Fraction

P = (1 << 127) - 1
SALT = os.environ.get("VGA_SALT", "1")  # seed of the random interpretation


# ---------------------------------------------------------------- field F(p^2), i^2 = -1
def f_add(a, b):
    return ((a[0] + b[0]) % P, (a[1] + b[1]) % P)


def f_sub(a, b):
    return ((a[0] - b[0]) % P, (a[1] - b[1]) % P)


def f_neg(a):
    return ((-a[0]) % P, (-a[1]) % P)


def f_mul(a, b):
    if a[1] == 0 and b[1] == 0:
        return (a[0] * b[0] % P, 0)
    return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)


def f_inv(a):
    if a[1] == 0:
        return (pow(a[0], P - 2, P), 0)
    n = pow((a[0] * a[0] + a[1] * a[1]) % P, P - 2, P)
    return (a[0] * n % P, (-a[1] * n) % P)


def f_pow(a, n):
    if n < 0:
        return f_pow(f_inv(a), -n)
    r = (1, 0)
    while n:
        if n & 1:
            r = f_mul(r, a)
        a = f_mul(a, a)
        n >>= 1
    return r


def _sq(x):
    """square root in F(p) or None"""
    r = pow(x, (P + 1) // 4, P)
    return r if r * r % P == x % P else None


def f_sqrt(a):
    x, y = a
    if y == 0:
        r = _sq(x)
        if r is not None:
            return (r, 0)
        r = _sq((-x) % P)
        return (0, r)
    s = _sq((x * x + y * y) % P)
    if s is None:
        return None
    inv2 = (P + 1) // 2
    r = _sq((x + s) * inv2 % P)
    if r is None:
        r = _sq((x - s) * inv2 % P)
    if r is None or r == 0:
        return None
    return (r, y * inv2 * pow(r, P - 2, P) % P)


def f_const(fr):
    if isinstance(fr, complex):
        return (f_const(Fraction(repr(fr.real)))[0], f_const(Fraction(repr(fr.imag)))[0])
    fr = Fraction(fr)
    return (fr.numerator % P * pow(fr.denominator % P, P - 2, P) % P, 0)


def f_hash(*parts):
    h = hashlib.sha256((SALT + repr(parts)).encode()).digest()
    return (int.from_bytes(h[:16], "big") % P, 0)


def f_rational(a, bound=1 << 40):
    """Rational reconstruction: the unique small n/d with value number a, or None."""
    if a[1] != 0:
        return None
    x = a[0]
    if x < bound:
        return Fraction(x)
    if P - x < bound:
        return Fraction(x - P)
    r0, r1, t0, t1 = P, x, 0, 1
    while r1 >= bound:
        q = r0 // r1
        r0, r1 = r1, r0 - q * r1
        t0, t1 = t1, t0 - q * t1
    if t1 == 0 or abs(t1) > (1 << 20):
        return None
    return Fraction(r1, t1)


# ---------------------------------------------------------------- provenance
class Where:
    cur = None  # (file, line, function) of the construct being evaluated


# ---------------------------------------------------------------- values
class V:
    __slots__ = ("key", "src")
    is_num = False

    def __eq__(self, o):
        return isinstance(o, V) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    # ---- operator overloading, used by the specifications
    def __add__(self, o):
        return add(self, lift_const(o))

    def __radd__(self, o):
        return add(lift_const(o), self)

    def __sub__(self, o):
        return sub(self, lift_const(o))

    def __rsub__(self, o):
        return sub(lift_const(o), self)

    def __mul__(self, o):
        return mul(self, lift_const(o))

    def __rmul__(self, o):
        return mul(lift_const(o), self)

    def __truediv__(self, o):
        return div(self, lift_const(o))

    def __rtruediv__(self, o):
        return div(lift_const(o), self)

    def __neg__(self):
        return neg(self)

    def __pow__(self, o):
        return power(self, lift_const(o))


def mkkey(vn):
    return ("n", vn)


class K(V):
    """Constant: None, bool, int, Fraction (a float literal), complex, str, bytes, Ellipsis."""

    __slots__ = ("val", "vn", "kind")

    def __init__(self, val, kind=None):
        if isinstance(val, float):
            if val != val or val in (float("inf"), float("-inf")):
                self.val, self.kind = val, "f"
                self.vn = f_hash("float", repr(val))
                self.key = mkkey(self.vn)
                self.src = None
                return
            val = Fraction(repr(val))
            kind = kind or "f"
        if isinstance(val, bool):
            self.val, self.kind, self.vn = val, "b", (int(val), 0)
            self.key = ("b", val)
        elif isinstance(val, int):
            self.val, self.kind = Fraction(val), kind or "i"
            self.vn = f_const(val)
            self.key = mkkey(self.vn)
        elif isinstance(val, Fraction):
            self.val, self.kind = val, kind or "f"
            self.vn = f_const(val)
            self.key = mkkey(self.vn)
        elif isinstance(val, complex):
            self.val, self.kind = val, "c"
            self.vn = f_const(val)
            self.key = mkkey(self.vn)
        else:
            self.val, self.kind = val, "k"
            self.vn = f_hash("const", type(val).__name__, val)
            self.key = ("k", type(val).__name__, val)
        self.src = None

    @property
    def is_num(self):
        return self.kind in "ifbc"

    def __repr__(self):
        if isinstance(self.val, Fraction):
            if self.val.denominator == 1:
                return str(self.val.numerator) + ("." if self.kind == "f" else "")
            f = float(self.val)
            return repr(f) if Fraction(repr(f)) == self.val else str(self.val)
        return repr(self.val)

    def py(self):
        v = self.val
        if isinstance(v, Fraction):
            return int(v) if v.denominator == 1 and self.kind == "i" else (float(v) if self.kind == "f" else int(v))
        return v


NONE, TRUE, FALSE = K(None), K(True), K(False)
UNDEF = K("<undefined>")


INTEGRAL = set()  # keys of values known to be whole numbers, whatever their type


class T(V):
    """Operator term.  op: str, args: tuple of V."""

    __slots__ = ("op", "args", "vn", "kind", "cls")

    def __init__(self, op, args, vn, kind="?", cls=None):
        self.op, self.args, self.vn, self.kind, self.cls = op, args, vn, kind, cls
        self.key = mkkey(vn)
        self.src = Where.cur
        if kind == "i":
            INTEGRAL.add(self.key)

    @property
    def is_num(self):
        return self.kind in ("i", "f", "c", "num")

    def __repr__(self):
        return show(self)


class Tup(V):
    __slots__ = ("items", "names", "cls")

    def __init__(self, items, names=None, cls=None):
        self.items, self.names, self.cls = tuple(items), names, cls
        self.key = ("tup",) + tuple(i.key for i in self.items)
        self.src = None

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ")"


class Ref(V):
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr
        self.key = ("ref", addr)
        self.src = None

    def __repr__(self):
        return f"&{self.addr}"


class Obj(V):
    """Functions, classes, modules, bound methods, external names: compared by key."""

    __slots__ = ("__dict__",)

    def __init__(self, key, **kw):
        self.key = key
        self.src = None
        self.__dict__.update(kw)

    def __repr__(self):
        return "<" + ":".join(str(k) for k in self.key) + ">"


class Ext(V):
    """External (unanalysed) name, e.g. numpy.linalg.norm"""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name
        self.key = ("ext", name)
        self.src = None

    def __repr__(self):
        return f"<ext {self.name}>"


class EnumM(V):
    __slots__ = ("cls", "name", "value", "isstr")

    def __init__(self, cls, name, value, isstr=False):
        self.cls, self.name, self.value, self.isstr = cls, name, value, isstr
        self.key = ("enum", cls.key, name)
        self.src = None

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


# ---------------------------------------------------------------- condition variables and gates
class CV:
    """Condition atom"""

    table = {}
    __slots__ = ("key", "idx", "kind", "arg", "src")

    def __init__(self, key, kind, arg):
        self.key, self.kind, self.arg = key, kind, arg
        self.idx = len(CV.table)
        self.src = Where.cur

    @classmethod
    def get(cls, kind, arg_key, arg):
        k = (kind, arg_key)
        r = cls.table.get(k)
        if r is None:
            r = cls.table[k] = CV(k, kind, arg)
        return r

    def __repr__(self):
        if self.kind == "neg":
            return f"{show(self.arg)} < 0"
        if self.kind == "pos":
            return f"{show(self.arg)} > 0"
        a = self.arg if isinstance(self.arg, (tuple, list)) else (self.arg,)
        return f"{self.kind}({', '.join(show(x) if isinstance(x, V) else str(x) for x in a)})"


class G(V):
    __slots__ = ("var", "hi", "lo", "_n")
    table = {}

    def __init__(self, var, hi, lo, key):
        self.var, self.hi, self.lo = var, hi, lo
        self.key = key
        self.src = None
        self._n = None

    def __repr__(self):
        return show(self)

    @property
    def vn(self):
        return f_hash("gate", self.key)


def mkgate(var, hi, lo):
    if hi.key == lo.key:
        return hi
    k = (var.idx, hi.key, lo.key)
    g = G.table.get(k)
    if g is None:
        h = hashlib.sha256(repr(k).encode()).hexdigest()[:32]
        g = G.table[k] = G(var, hi, lo, ("g", h))
    return g


_apply_memo = {}


def gate(var, hi, lo):
    """decision node; keeps the variable order when a leaf function returned diagrams of its own"""
    if (isinstance(hi, G) and hi.var.idx <= var.idx) or (isinstance(lo, G) and lo.var.idx <= var.idx):
        return _ite(mkgate(var, TRUE, FALSE), hi, lo, {})
    return mkgate(var, hi, lo)


def apply2(f, a, b, tag=None):
    """Lift a binary function on leaves through the decision diagrams."""
    if not isinstance(a, G) and not isinstance(b, G):
        return f(a, b)
    mk = None
    if tag is not None:
        mk = (tag, a.key, b.key, getattr(a, "kind", 0), getattr(b, "kind", 0))
        r = _apply_memo.get(mk)
        if r is not None:
            return r
    va = a.var.idx if isinstance(a, G) else 1 << 60
    vb = b.var.idx if isinstance(b, G) else 1 << 60
    if va == vb:
        r = gate(a.var, apply2(f, a.hi, b.hi, tag), apply2(f, a.lo, b.lo, tag))
    elif va < vb:
        r = gate(a.var, apply2(f, a.hi, b, tag), apply2(f, a.lo, b, tag))
    else:
        r = gate(b.var, apply2(f, a, b.hi, tag), apply2(f, a, b.lo, tag))
    if mk is not None:
        _apply_memo[mk] = r
    return r


def apply1(f, a, memo=None):
    if not isinstance(a, G):
        return f(a)
    if memo is None:
        memo = {}
    r = memo.get(a.key)
    if r is None:
        r = memo[a.key] = gate(a.var, apply1(f, a.hi, memo), apply1(f, a.lo, memo))
    return r


def applyN(f, args, memo=None):
    """Lift an n-ary function on leaves."""
    gs = [a for a in args if isinstance(a, G)]
    if not gs:
        return f(*args)
    v = min((g.var for g in gs), key=lambda x: x.idx)
    hi = [a.hi if isinstance(a, G) and a.var is v else a for a in args]
    lo = [a.lo if isinstance(a, G) and a.var is v else a for a in args]
    if memo is None:
        memo = {}
    k = tuple(a.key for a in args)
    r = memo.get(k)
    if r is None:
        r = memo[k] = gate(v, applyN(f, hi, memo), applyN(f, lo, memo))
    return r


def _and(a, b):
    return TRUE if a.val and b.val else FALSE


def _or(a, b):
    return TRUE if a.val or b.val else FALSE


def b_not(a):
    return apply1(lambda x: FALSE if x.val else TRUE, a)


def b_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    return apply2(_and, a, b, "and")


def b_or(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    return apply2(_or, a, b, "or")


def bvar(var):
    return mkgate(var, TRUE, FALSE)


def ite(c, a, b):
    """value gate: c must be a boolean diagram"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.key == b.key:
        return a
    return _ite(c, a, b, {})


def _ite(c, a, b, memo):
    if not isinstance(c, G):
        return a if c.val else b
    if a.key == b.key:
        return a
    k = (c.key, a.key, b.key)
    r = memo.get(k)
    if r is None:
        v = min((x.var for x in (c, a, b) if isinstance(x, G)), key=lambda x: x.idx)

        def cof(x, h):
            if isinstance(x, G) and x.var is v:
                return x.hi if h else x.lo
            return x

        r = memo[k] = mkgate(v, _ite(cof(c, 1), cof(a, 1), cof(b, 1), memo), _ite(cof(c, 0), cof(a, 0), cof(b, 0), memo))
    return r


def simplify(v, care, memo=None):
    """Drop branches of v that are incompatible with the boolean diagram `care`."""
    if not isinstance(v, G) or care is TRUE:
        return v
    if care is FALSE:
        return v
    if memo is None:
        memo = {}
    k = (v.key, care.key)
    r = memo.get(k)
    if r is not None:
        return r
    if care.var.idx < v.var.idx:
        if care.hi is FALSE:
            r = simplify(v, care.lo, memo)
        elif care.lo is FALSE:
            r = simplify(v, care.hi, memo)
        else:
            r = simplify(v, b_or(care.hi, care.lo), memo)
    else:
        ch, cl = (care.hi, care.lo) if care.var is v.var else (care, care)
        if ch is FALSE:
            r = simplify(v.lo, cl, memo)
        elif cl is FALSE:
            r = simplify(v.hi, ch, memo)
        else:
            r = mkgate(v.var, simplify(v.hi, ch, memo), simplify(v.lo, cl, memo))
    memo[k] = r
    return r


def leaves(v, guard=TRUE):
    """Iterate (guard, leaf) pairs; guards are disjoint."""
    acc = {}
    order = []

    def go(x, path):
        if isinstance(x, G):
            go(x.hi, path + [(x.var, True)])
            go(x.lo, path + [(x.var, False)])
        else:
            if x.key not in acc:
                acc[x.key] = [x, []]
                order.append(x.key)
            acc[x.key][1].append(path)

    if not isinstance(v, G):
        return [(guard, v)]
    # collect leaf guards by diagram cofactors (no path enumeration)
    keys = {}
    seen = set()

    def coll(x):
        if isinstance(x, G):
            if x.key in seen:
                return
            seen.add(x.key)
            coll(x.hi)
            coll(x.lo)
        else:
            keys.setdefault(x.key, x)

    coll(v)
    out = []
    for k, leaf in keys.items():
        g = apply1(lambda y, k=k: TRUE if y.key == k else FALSE, v)
        g = b_and(g, guard)
        if g is not FALSE:
            out.append((g, leaf))
    return out


# ---------------------------------------------------------------- terms
def term(op, *args, kind="?", cls=None):
    return T(op, tuple(args), f_hash(op, tuple(vnof(a) for a in args)), kind, cls)


def vnof(v):
    if isinstance(v, (K, T, G)):
        return v.vn
    return f_hash(v.key)


def sym(name, kind="num", cls=None):
    """A named input of the analysed program."""
    return T("sym:" + name, (), f_hash("sym", name), kind, cls)


_counter = [0]


def top(reason):
    _counter[0] += 1
    return T("TOP:" + reason, (), f_hash("top", reason, _counter[0]))


def lift_const(o):
    return o if isinstance(o, V) else K(o)


def const_of(v):
    """Fraction value of a numeric constant or None"""
    if isinstance(v, K):
        if isinstance(v.val, bool):
            return Fraction(int(v.val))
        if isinstance(v.val, Fraction):
            return v.val
    return None


def as_num(v):
    if isinstance(v, EnumM):
        return v.value
    return v


def _kind2(a, b):
    ka, kb = getattr(a, "kind", "?"), getattr(b, "kind", "?")
    if ka == "b":
        ka = "i"
    if kb == "b":
        kb = "i"
    if ka == "i" and kb == "i":
        return "i"
    if "f" in (ka, kb):
        return "f"
    return "num"


def _mknum(op, args, vn, kind):
    fr = f_rational(vn)
    if fr is not None:
        if kind == "i" and fr.denominator != 1:
            kind = "f"
        return K(fr, "f" if kind in ("f", "num") else "i")
    return T(op, args, vn, kind)


def _isnumlike(v):
    return isinstance(v, T) or (isinstance(v, K) and v.kind in "ifbc")


def _num2(op, ff):
    def leaf(a, b):
        a, b = as_num(a), as_num(b)
        if not (_isnumlike(a) and _isnumlike(b)):
            return term("typeerr:" + op, a, b)
        ca, cb = const_of(a), const_of(b)
        kind = _kind2(a, b)
        if ca is not None and cb is not None:
            r = {"+": lambda: ca + cb, "-": lambda: ca - cb, "*": lambda: ca * cb}[op]()
            return K(r, "i" if kind == "i" else "f")
        for x, y, sg in ((a, b, 1), (b, a, -1 if op == "-" else 1)):
            if op != "*" and isinstance(y, K) and isinstance(y.val, float) and y.val == y.val and not (isinstance(x, K) and isinstance(x.val, float)):
                # finite plus or minus an infinity
                return K(-y.val if (op == "-" and sg == 1) else y.val)
        return _mknum(op, (a, b), ff(a.vn, b.vn), kind)

    return lambda a, b: apply2(leaf, lift_const(a), lift_const(b), op)


add = _num2("+", f_add)
sub = _num2("-", f_sub)
mul = _num2("*", f_mul)


def _div_leaf(a, b):
    a, b = as_num(a), as_num(b)
    if not (_isnumlike(a) and _isnumlike(b)):
        return term("typeerr:/", a, b)
    ca, cb = const_of(a), const_of(b)
    if cb == 0:
        return term("div0", a)
    if ca is not None and cb is not None:
        return K(ca / cb, "f")
    return _mknum("/", (a, b), f_mul(a.vn, f_inv(b.vn)), "f")


def div(a, b):
    return apply2(_div_leaf, lift_const(a), lift_const(b), "/")


def neg(a):
    return sub(K(0), a)


def _pow_leaf(a, b):
    a, b = as_num(a), as_num(b)
    if not (_isnumlike(a) and _isnumlike(b)):
        return term("typeerr:**", a, b)
    ca, cb = const_of(a), const_of(b)
    if cb is not None:
        if cb == 0:
            return K(1, "i" if a.kind == "i" else "f")
        if ca is not None and cb.denominator == 1 and abs(cb) < 200 and not (ca == 0 and cb < 0):
            return K(ca ** int(cb), "i" if a.kind == "i" and b.kind == "i" and cb >= 0 else "f")
        if cb.denominator == 1 and abs(cb) <= 64:
            n = int(cb)
            return _mknum("**", (a, b), f_pow(a.vn, n), "i" if _kind2(a, b) == "i" and n > 0 else "num")
        if cb.denominator in (2, 4) and abs(cb) <= 8:
            r = sqrt(a)
            if cb.denominator == 4:
                r = sqrt(r)
            return _pow_leaf(r, K(Fraction(cb.numerator), "i"))
    if ca == 1:
        return K(1)
    # integer offset in the exponent: a**(n+k) = a**n * a**k
    lf = linform(b)
    if lf is not None and ca is not None and lf[1].denominator == 1 and lf[1] != 0:
        k = lf[1]
        base = _pow_leaf(a, sub(b, K(k, "i")))
        return mul(base, K(ca ** int(k)))
    if lf is not None and ca is not None and len(lf[0]) == 1 and lf[1] == 0:
        (ak, (at, co)), = lf[0].items()
        if co == -1:
            return div(K(1), _pow_leaf(a, at))
    return term("pow", a, b, kind="i" if _kind2(a, b) == "i" else "num")


def power(a, b):
    return apply2(_pow_leaf, lift_const(a), lift_const(b), "**")


def lift1(name):
    def deco(leaf):
        def f(a):
            return apply1(lambda x: leaf(as_num(x)), lift_const(a))

        f.__name__ = name
        return f

    return deco


@lift1("sqrt")
def sqrt(a):
    c = const_of(a)
    if c is not None and c >= 0:
        import math

        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return K(Fraction(n, d), "f")
    if not _isnumlike(a):
        return term("typeerr:sqrt", a)
    vn = f_sqrt(a.vn)
    if vn is None:
        vn = f_hash("sqrt", a.vn)
    return T("sqrt", (a,), vn, "f")


PI = T("pi", (), f_hash("pi"), "f")


def _canon_sign(a):
    """(sign, |a|-representative) so that a and -a share the representative"""
    m = f_neg(a.vn)
    if a.vn <= m:
        return 1, a
    return -1, neg(a)


def _half(a):
    """odd random function of the value number (tangent of the half angle)"""
    s, c = _canon_sign(a)
    t = f_hash("half", vnof(c))
    return t if s > 0 else f_neg(t)


def _trig_const(a):
    """a as a rational multiple of pi/2 if a == r*pi with r multiple of 1/2"""
    fr = f_rational(f_mul(a.vn, f_inv(PI.vn)), 1 << 20)
    return fr


@lift1("sin")
def sin(a):
    if not _isnumlike(a):
        return term("typeerr:sin", a)
    if const_of(a) == 0:
        return K(Fraction(0), "f")
    fr = _trig_const(a)
    if fr is not None and fr.denominator in (1, 2):
        return K(Fraction([0, 1, 0, -1][int(fr * 2) % 4]), "f")
    t = _half(a)
    d = f_inv(f_add((1, 0), f_mul(t, t)))
    return T("sin", (a,), f_mul(f_mul((2, 0), t), d), "f")


@lift1("cos")
def cos(a):
    if not _isnumlike(a):
        return term("typeerr:cos", a)
    if const_of(a) == 0:
        return K(Fraction(1), "f")
    fr = _trig_const(a)
    if fr is not None and fr.denominator in (1, 2):
        return K(Fraction([1, 0, -1, 0][int(fr * 2) % 4]), "f")
    t = _half(a)
    t2 = f_mul(t, t)
    d = f_inv(f_add((1, 0), t2))
    return T("cos", (a,), f_mul(f_sub((1, 0), t2), d), "f")


def tan(a):
    return div(sin(a), cos(a))


def _odd(op):
    @lift1(op)
    def f(a):
        if not _isnumlike(a):
            return term("typeerr:" + op, a)
        c = const_of(a)
        if c == 0:
            return K(Fraction(0), "f")
        s, x = _canon_sign(a)
        r = term(op, x, kind="f")
        return r if s > 0 else neg(r)

    return f


atan = _odd("atan")
asin = _odd("asin")
sinh = _odd("sinh")
sign = _odd("sign")


@lift1("acos")
def acos(a):
    return term("acos", a, kind="f")


@lift1("exp")
def exp(a):
    if not _isnumlike(a):
        return term("typeerr:exp", a)
    if const_of(a) == 0:
        return K(Fraction(1), "f")
    s, x = _canon_sign(a)
    r = term("exp", x, kind="f")
    return r if s > 0 else div(K(1), r)


def _log(op):
    @lift1(op)
    def f(a):
        if const_of(a) == 1:
            return K(Fraction(0), "f")
        return term(op, a, kind="f")

    return f


log = _log("log")
log2 = _log("log2")
log10 = _log("log10")


def radians(a):
    return mul(a, div(PI, K(180)))


def degrees(a):
    return mul(a, div(K(180), PI))


@lift1("abs")
def vabs(a):
    c = const_of(a)
    if c is not None:
        return K(abs(c), a.kind if a.kind != "b" else "i")
    if not _isnumlike(a):
        return term("abs", a)
    if isinstance(a, T) and a.op in ("abs", "sqrt"):
        return a
    s, x = _canon_sign(a)
    return term("abs", x, kind="i" if a.kind == "i" else "num")


_LF = {}


def linform(v, depth=0):
    if not isinstance(v, T):
        return _linform(v, depth)
    e = _LF.get(id(v))
    if e is not None:
        return e[1]
    r = _linform(v, depth)
    _LF[id(v)] = (v, r)
    return r


def _linform(v, depth=0):
    """Linear form of a term over its non-arithmetic atoms: ({atomkey: (atom, coeff)}, const) or None"""
    if isinstance(v, K):
        c = const_of(v)
        return None if c is None else ({}, c)
    if not isinstance(v, T):
        return None
    if v.op in ("+", "-"):
        a, b = linform(v.args[0], depth + 1), linform(v.args[1], depth + 1)
        if a is None or b is None:
            return None
        s = 1 if v.op == "+" else -1
        d = dict(a[0])
        for k, (t, c) in b[0].items():
            c0 = d.get(k, (t, Fraction(0)))[1] + s * c
            if c0 == 0:
                d.pop(k, None)
            else:
                d[k] = (t, c0)
        if len(d) > 40:
            return None
        return d, a[1] + s * b[1]
    if v.op == "*":
        a, b = linform(v.args[0], depth + 1), linform(v.args[1], depth + 1)
        if a is not None and b is not None:
            if not a[0]:
                a, b = b, a
            if not b[0]:
                if b[1] == 0:
                    return {}, Fraction(0)
                return {k: (t, c * b[1]) for k, (t, c) in a[0].items()}, a[1] * b[1]
    if v.op == "/":
        c = const_of(v.args[1])
        a = linform(v.args[0], depth + 1)
        if c and a is not None:
            return {k: (t, x / c) for k, (t, x) in a[0].items()}, a[1] / c
        if c is None and a is not None and (len(a[0]) + (a[1] != 0) > 1) and known_sign(v.args[1]):
            d, k0 = {}, Fraction(0)
            parts = [(t, x) for t, x in a[0].values()] + ([(K(1), a[1])] if a[1] else [])
            for t, x in parts:
                q = div(t, v.args[1])
                cq = const_of(q)
                if cq is None and isinstance(q, T):
                    cq = f_rational(q.vn, 1 << 20)
                if cq is not None:
                    k0 += cq * x
                else:
                    y = d.get(q.key, (q, Fraction(0)))[1] + x
                    if y:
                        d[q.key] = (q, y)
                    else:
                        d.pop(q.key, None)
            return d, k0
    if v.op in ("*", "/", "**"):
        p = _poly(v)
        if p is not None:
            d, k0 = {}, Fraction(0)
            for mono, c in p.items():
                if not mono:
                    k0 += c
                    continue
                t = _monoterm(mono)
                if not isinstance(t, T):
                    return {v.key: (v, Fraction(1))}, Fraction(0)
                y = d.get(t.key, (t, Fraction(0)))[1] + c
                if y:
                    d[t.key] = (t, y)
                else:
                    d.pop(t.key, None)
            return d, k0
    return {v.key: (v, Fraction(1))}, Fraction(0)


_PL, _PATOM, _MONO = {}, {}, {}


def _poly(v, cap=10):
    """sum of rational multiples of monomials in non-arithmetic atoms: {((atom key, exponent), ...): coeff} or None"""
    c = const_of(v)
    if c is not None:
        return {(): Fraction(c)} if c else {}
    if not isinstance(v, T):
        return None
    e = _PL.get(id(v))
    if e is not None:
        return e[1]
    r = None
    if v.op in ("+", "-", "*", "/") and len(v.args) == 2:
        a = _poly(v.args[0], cap)
        b = _poly(v.args[1], cap) if a is not None else None
        if a is not None and b is not None:
            r = {}
            if v.op in ("+", "-"):
                r = dict(a)
                for m, c in b.items():
                    r[m] = r.get(m, 0) + (c if v.op == "+" else -c)
            elif v.op == "*" and len(a) * len(b) <= 4 * cap:
                for m, c in a.items():
                    for n, d in b.items():
                        q = _mmul(m, n, 1)
                        r[q] = r.get(q, 0) + c * d
            elif v.op == "/" and len(b) == 1:
                (n, d), = b.items()
                for m, c in a.items():
                    r[_mmul(m, n, -1)] = c / d
            else:
                r = None
            if r is not None:
                r = {m: c for m, c in r.items() if c}
                if len(r) > cap:
                    r = None
    elif v.op == "**" and const_of(v.args[1]) is not None and 1 < const_of(v.args[1]) <= 4 and const_of(v.args[1]).denominator == 1:
        a = _poly(v.args[0], cap)
        if a is not None:
            r = {(): Fraction(1)}
            for _ in range(int(const_of(v.args[1]))):
                if r is None or len(a) * len(r) > 4 * cap:
                    r = None
                    break
                q = {}
                for m, c in r.items():
                    for n, d in a.items():
                        k = _mmul(m, n, 1)
                        q[k] = q.get(k, 0) + c * d
                r = {m: c for m, c in q.items() if c}
        if r is None or len(r) > cap:
            _PATOM[v.key] = v
            r = {((v.key, 1),): Fraction(1)}
    else:
        _PATOM[v.key] = v
        r = {((v.key, 1),): Fraction(1)}
    _PL[id(v)] = (v, r)
    return r


def _mmul(m, n, s):
    d = dict(m)
    for k, e in n:
        d[k] = d.get(k, 0) + s * e
    return tuple(sorted(((k, e) for k, e in d.items() if e), key=repr))


def _monoterm(mono):
    t = _MONO.get(mono)
    if t is None:
        num, den = None, None
        for k, e in mono:
            for _ in range(abs(e)):
                if e > 0:
                    num = _PATOM[k] if num is None else mul(num, _PATOM[k])
                else:
                    den = _PATOM[k] if den is None else mul(den, _PATOM[k])
        t = num if num is not None else K(1)
        if den is not None:
            t = div(t, den)
        _MONO[mono] = t
    return t


@lift1("floor")
def floor(a):
    c = const_of(a)
    if c is not None:
        import math

        return K(math.floor(c))
    if not _isnumlike(a):
        return term("typeerr:floor", a)
    if a.kind == "i":
        return a
    if a.key in INTEGRAL:
        return T(a.op, a.args, a.vn, "i", a.cls)
    lf = linform(a)
    off = K(0)
    if lf is not None:
        import math

        k = math.floor(lf[1])
        if k:
            off = add(off, K(k))
        for kk, (t, co) in sorted(lf[0].items(), key=lambda z: str(z[0])):
            if (t.kind == "i" or t.key in INTEGRAL) and co.denominator == 1:
                off = add(off, mul(K(int(co)), t))
    rest = sub(a, off)
    if const_of(rest) is not None:
        return add(floor(rest), off)
    if lf is not None and const_of(off) is None:
        # written out without the whole part, so that its bounds stay evident
        r = K(lf[1] - math.floor(lf[1])) if lf[1] != math.floor(lf[1]) else K(0)
        for kk, (t, co) in sorted(lf[0].items(), key=lambda z: str(z[0])):
            if not ((t.kind == "i" or t.key in INTEGRAL) and co.denominator == 1):
                y = div(t, K(co.denominator)) if co.numerator == 1 else mul(t, K(co))
                r = y if const_of(r) == 0 else add(r, y)
        if r.vn == rest.vn:
            rest = r
    nested = _floor_of_floor(rest)
    if nested is not None:
        return add(floor(nested), off)
    return add(term("floor", rest, kind="i"), off)


def _floor_of_floor(x):
    """floor((floor(y) + whole numbers) / n) is floor((y + whole numbers) / n): the argument without the inner floor"""
    lf = linform(x)
    if lf is None:
        return None
    n = lf[1].denominator
    for t, co in lf[0].values():
        if not (t.kind == "i" or t.key in INTEGRAL):
            return None
        n = max(n, co.denominator)
    if lf[1] * n != int(lf[1] * n) or any(co * n != int(co * n) for t, co in lf[0].values()):
        return None
    inner = [(t, co) for t, co in lf[0].values() if co * n == 1 and t.op == "floor"]
    if len(inner) != 1 or n == 1:
        return None
    t, co = inner[0]
    return add(sub(x, div(t, K(n))), div(t.args[0], K(n)))


def ceil(a):
    return neg(floor(neg(a)))


def integral(a):
    """is the value a whole number by its linear form?"""
    if not isinstance(a, T):
        c = const_of(a)
        return c is not None and c == int(c)
    if a.kind == "i" or a.key in INTEGRAL:
        return True
    lf = linform(a)
    return lf is not None and lf[1].denominator == 1 and all(c.denominator == 1 and (t.kind == "i" or t.key in INTEGRAL) and t.key != a.key for t, c in lf[0].values())


@lift1("trunc")
def trunc(a):
    c = const_of(a)
    if c is not None:
        return K(int(c))
    if getattr(a, "kind", "?") == "i":
        return a
    if isinstance(a, T) and a.key in INTEGRAL:
        return T(a.op, a.args, a.vn, "i", a.cls)
    if isinstance(a, T) and a.op in ("sqrt", "abs"):
        return floor(a)
    if isinstance(a, T) and a.op.startswith("typeerr"):
        return a
    if isinstance(a, T) and _isnumlike(a) and integral(a):
        return floor(a)
    return term("trunc", a, kind="i")


# ---------------------------------------------------------------- conditions
def known_sign(x, depth=0):
    """+1 / -1 when the sign of a constant expression over numbers and pi is evident, else 0"""
    c = const_of(x)
    if c is not None:
        return (c > 0) - (c < 0)
    if isinstance(x, T):
        if x.op in ("pi", "exp"):
            return 1
        if x.op in ("*", "/") and depth < 6:
            return known_sign(x.args[0], depth + 1) * known_sign(x.args[1], depth + 1)
    return 0


def strip_scale(d):
    """a term with the same sign as d, without positive constant factors"""
    sg = 1
    while isinstance(d, T):
        if d.op == "*":
            k0, k1 = known_sign(d.args[0]), known_sign(d.args[1])
            if k1:
                sg, d = sg * k1, d.args[0]
                continue
            if k0:
                sg, d = sg * k0, d.args[1]
                continue
        elif d.op == "/":
            k1 = known_sign(d.args[1])
            if k1:
                sg, d = sg * k1, d.args[0]
                continue
        elif d.op == "-" and const_of(d.args[1]) == 0:
            d = d.args[0]
            continue
        elif d.op == "-" and const_of(d.args[0]) == 0:
            sg, d = -sg, d.args[1]
            continue
        elif d.op == "+" and const_of(d.args[1]) == 0:
            d = d.args[0]
            continue
        elif d.op == "+" and const_of(d.args[0]) == 0:
            d = d.args[1]
            continue
        break
    if sg < 0:
        d = neg(d)
    lf = linform(d)
    if lf is not None and lf[0]:
        k = min(lf[0], key=str)
        c = abs(lf[0][k][1])
        if c != 1:
            d = div(d, K(c))
    return d


def _neg_cond(d):
    """boolean diagram for d < 0, d a numeric leaf"""
    if getattr(d, "kind", "?") != "i":
        d = strip_scale(d)
    c = const_of(d)
    if c is not None:
        return TRUE if c < 0 else FALSE
    if isinstance(d, T) and d.op in ("abs", "sqrt", "len"):
        return FALSE
    if getattr(d, "kind", "?") == "i":
        e = sub(sub(K(0), d), K(1))  # d<0  <=>  not (e<0)
        if d.vn <= e.vn:
            return bvar(CV.get("neg", d.vn, d))
        return b_not(bvar(CV.get("neg", e.vn, e)))
    lf = linform(d)
    if lf is not None:
        for at, c in lf[0].values():
            if isinstance(at, T) and at.op == "abs":
                # c|x| + r < 0: both (c > 0) or either (c < 0) of c x + r < 0 and -c x + r < 0
                r = sub(d, mul(at, K(c)))
                x = mul(at.args[0], K(c))
                p, q = _neg_cond(add(r, x)), _neg_cond(sub(r, x))
                return b_and(p, q) if c > 0 else b_or(p, q)
    s, x = _canon_sign(d)
    if s > 0:
        return bvar(CV.get("neg", x.vn, x))
    # d<0 <=> x>0 : not neg(x) and pos(x)
    return b_and(b_not(bvar(CV.get("neg", x.vn, x))), bvar(CV.get("pos", x.vn, x)))


INF = float("inf")


def lt(a, b):
    def leaf(x, y):
        x, y = as_num(x), as_num(y)
        for u, v, first in ((x, y, True), (y, x, False)):
            if isinstance(u, K) and isinstance(u.val, float):
                pos = u.val == INF
                if isinstance(v, K) and isinstance(v.val, float):
                    return TRUE if (x.val < y.val) else FALSE
                # v assumed finite
                if first:
                    return FALSE if pos else TRUE
                return TRUE if pos else FALSE
        if isinstance(x, K) and isinstance(y, K) and isinstance(x.val, str) and isinstance(y.val, str):
            return TRUE if x.val < y.val else FALSE
        if not (_isnumlike(x) and _isnumlike(y)):
            return bvar(CV.get("lt", (x.key, y.key), (x, y)))
        return _neg_cond(sub(x, y))

    return apply2(leaf, lift_const(a), lift_const(b), "lt")


def le(a, b):
    return b_not(lt(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return b_not(lt(a, b))


NEVER_NONE = {"x:pyproj.Transformer.from_crs", "x:pyproj.CRS.from_string", "seq", "dict"}


def never_none(op):
    """results of constructor calls of third-party classes are objects"""
    return op in NEVER_NONE or (op.startswith("x:") and op.rsplit(".", 1)[-1][:1].isupper())


def _eq_leaf(x, y):
    if x.key == y.key:
        return TRUE
    if isinstance(x, EnumM) and isinstance(y, EnumM):
        return FALSE
    if isinstance(x, EnumM) or isinstance(y, EnumM):
        if isinstance(y, EnumM):
            x, y = y, x
        if x.isstr and isinstance(y, (K, T)):
            return _eq_leaf(x.value, y)
        if isinstance(y, K):
            return FALSE
    if isinstance(x, K) and isinstance(y, K):
        return TRUE if (x.is_num and y.is_num and x.vn == y.vn) else FALSE
    if isinstance(x, Tup) and isinstance(y, Tup):
        if len(x.items) != len(y.items):
            return FALSE
        r = TRUE
        for a, b in zip(x.items, y.items):
            r = b_and(r, veq(a, b))
        return r
    xn = isinstance(x, (K, T)) and x.is_num
    yn = isinstance(y, (K, T)) and y.is_num
    if xn and yn:
        d = sub(x, y)
        c = const_of(d)
        if c is not None:
            return TRUE if c == 0 else FALSE
        if d.kind == "i":
            s, x2 = _canon_sign(d)
            return b_and(b_not(_neg_cond(x2)), _neg_cond(sub(x2, K(1))))
        s, x2 = _canon_sign(strip_scale(d))
        return b_and(b_not(bvar(CV.get("neg", x2.vn, x2))), b_not(bvar(CV.get("pos", x2.vn, x2))))
    concrete = (K, Tup, Ref, Obj, Ext, EnumM)
    if isinstance(x, concrete) and isinstance(y, concrete):
        return FALSE
    if isinstance(x, K) and isinstance(y, T) and y.kind in ("i", "f") and not x.is_num:
        return FALSE
    if isinstance(y, K) and isinstance(x, T) and x.kind in ("i", "f") and not y.is_num:
        return FALSE
    for u, v in ((x, y), (y, x)):
        if isinstance(v, K) and v.val is None and isinstance(u, T) and (u.kind in ("num", "s", "o", "cell") or u.op in ("str", "cat", "fmt", "+", "-", "*", "/") or never_none(u.op)):
            return FALSE
        if isinstance(v, K) and isinstance(v.val, str) and v.val == "" and isinstance(u, T) and u.kind == "s":
            # a string is empty exactly when it is false
            if u.op == "cat" and any(isinstance(z, K) and z.val for z in u.args):
                return FALSE
            return b_not(bvar(CV.get("truthy", u.key, u)))
    ks = sorted([(str(x.key), x), (str(y.key), y)], key=lambda z: z[0])
    return bvar(CV.get("eq", (x.key, y.key) if str(x.key) <= str(y.key) else (y.key, x.key), (ks[0][1], ks[1][1])))


def veq(a, b):
    return apply2(_eq_leaf, lift_const(a), lift_const(b), "eq")


def pred(name, *args):
    """opaque boolean predicate on leaves"""
    return applyN(lambda *xs: bvar(CV.get(name, tuple(x.key for x in xs), xs)), [lift_const(a) for a in args])


def vmin(a, b):
    return ite(lt(b, a), b, a)


def vmax(a, b):
    return ite(lt(a, b), b, a)


# ---------------------------------------------------------------- display
def show(v, depth=0, limit=7):
    if isinstance(v, T):
        if v.op.startswith("sym:"):
            return v.op[4:]
        if not v.args:
            return v.op
        if depth > limit:
            return "…"
        a = [show(x, depth + 1, limit) for x in v.args]
        if v.op in ("+", "-", "*", "/", "**"):
            if v.op == "-" and isinstance(v.args[0], K) and v.args[0].val == 0:
                return f"-{a[1]}"
            return f"({a[0]} {v.op} {a[1]})"
        if v.op.startswith("a:"):
            return f"{a[0]}.{v.op[2:]}"
        if v.op.startswith("m:"):
            return f"{a[0]}.{v.op[2:]}({', '.join(a[1:])})"
        if v.op == "item":
            return f"{a[0]}[{a[1]}]"
        return f"{v.op}({', '.join(a)})"
    if isinstance(v, G):
        if depth > limit:
            return "…"
        return f"[{v.var!r} ? {show(v.hi, depth + 1, limit)} : {show(v.lo, depth + 1, limit)}]"
    if isinstance(v, Tup):
        if depth > limit:
            return "…"
        return "(" + ", ".join(show(x, depth + 1, limit) for x in v.items) + ")"
    return repr(v)
