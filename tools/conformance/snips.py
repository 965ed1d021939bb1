import math
from collections import deque, namedtuple, OrderedDict, defaultdict, Counter
from contextlib import contextmanager, ExitStack, closing, suppress
from dataclasses import dataclass, field, replace, asdict
from functools import partial, reduce, wraps, lru_cache, singledispatch
from itertools import chain, islice, product, accumulate, starmap, takewhile, zip_longest, combinations, permutations, count, repeat, groupby
from operator import itemgetter, attrgetter, mul, add
from enum import Enum, IntEnum
from io import StringIO
import numpy as np

def t_iter1(x, y, xs):
    it = iter(xs); a = next(it); b = next(it)
    return [a, b, list(it), next(it, None)]
def t_iter2(x, y, xs):
    it = iter(xs); out = []
    for q in it:
        out.append(q)
        if q > 2: break
    return [out, list(it)]
def t_pairs(x, y, xs):
    it = iter(xs)
    return [p * q for p, q in zip(it, it)]
def t_gen(x, y, xs):
    def g():
        yield x
        yield y
        return
    z = g()
    return [next(z), next(z), next(z, -1)]
def t_genfor(x, y, xs):
    def g():
        for q in xs:
            if q > 1:
                yield q * x
    return sum(g())
def t_deque(x, y, xs):
    d = deque(xs); d.appendleft(x); d.append(y); a = d.popleft(); b = d.pop(); d.rotate(1)
    return [a, b, list(d)]
def t_dequemax(x, y, xs):
    d = deque(maxlen=2)
    for q in xs: d.append(q)
    return list(d)
def t_nt(x, y, xs):
    P = namedtuple("P", "a b"); p = P(x, b=y); q = p._replace(a=5)
    return [p.a, p[1], q.a, q.b, sum(q), p == (x, y)]
def t_dc(x, y, xs):
    @dataclass
    class D:
        a: float
        b: float = 3.0
        c: list = field(default_factory=list)
        def s(self): return self.a + self.b
    d = D(x); e = D(x, y); d.c.append(1)
    return [d.s(), e.s(), len(e.c), d == D(x, 3.0, [1]), replace(e, a=9.0).a]
def t_postinit(x, y, xs):
    @dataclass
    class D:
        a: float
        b: float = 0.0
        def __post_init__(self): self.b = self.a * 2
    return D(x).b
def t_ctx(x, y, xs):
    log = []
    @contextmanager
    def c(n):
        log.append(n)
        try: yield n + 1
        finally: log.append(-n)
    with c(1) as p, c(2) as q: log.append(p * q)
    return log
def t_ctxexc(x, y, xs):
    log = []
    @contextmanager
    def c(n):
        try: yield n
        except ValueError: log.append("caught")
        finally: log.append("fin")
    with c(1): raise ValueError("q")
    return log
def t_exitstack(x, y, xs):
    log = []
    with ExitStack() as s:
        s.callback(log.append, 1); s.callback(log.append, 2); log.append(0)
    return log
def t_suppress(x, y, xs):
    r = [0]
    with suppress(KeyError):
        r[0] = 1; {}["a"]; r[0] = 2
    return r
def t_try(x, y, xs):
    log = []
    for q in (0, 1, 2):
        try:
            log.append(10 // q)
        except ZeroDivisionError:
            log.append("z"); continue
        else: log.append("e")
        finally: log.append("f")
    return log
def t_fin(x, y, xs):
    def f():
        for i in range(3):
            try:
                if i == 1: return i
            finally:
                log.append(i)
    log = []
    return [f(), log]
def t_nonlocal(x, y, xs):
    n = 0
    def f(k):
        nonlocal n
        n += k
        return n
    return [f(1), f(2), n]
def t_late(x, y, xs):
    fs = [lambda: i for i in range(3)]
    gs = [lambda i=i: i for i in range(3)]
    return [f() for f in fs] + [g() for g in gs]
def t_default(x, y, xs):
    def f(a, l=[]):
        l.append(a); return len(l)
    return [f(1), f(2), f(3, [])]
def t_wraps(x, y, xs):
    calls = []
    def d(f):
        @wraps(f)
        def w(*a, **k):
            calls.append(len(a)); return f(*a, **k) + 1
        return w
    @d
    def g(a, b=2): return a * b
    return [g(3), g(3, b=5), calls]
def t_partial(x, y, xs):
    f = partial(lambda a, b, c=0: a - b + c, x, c=7)
    return [f(y), f(b=y), f(y, c=1)]
def t_slices(x, y, xs):
    l = list(range(8)); l[2:4] = [9, 9, 9]; del l[0]; del l[-2:]; l[::2] = [0] * len(l[::2])
    return [l, l[::-1], l[1:-1:2], l[-3:]]
def t_listops(x, y, xs):
    l = [3, 1, 2]; l.sort(reverse=True); m = sorted(l, key=lambda q: -q); l.extend([5]); l.insert(1, 7); l.remove(1)
    return [l, m, l.index(7), l.count(5), l + m, l * 2, min(l), max(m, key=lambda q: -q)]
def t_dict(x, y, xs):
    d = {"a": 1}; d |= {"b": 2}; e = {**d, "a": 3}; d.update(c=4); k = d.pop("a"); z = d.setdefault("q", []); z.append(1)
    return [sorted(d), e["a"], k, d["q"], list(e.items()), d.get("zz", 5), "b" in d, len(d), list({k: v for v, k in e.items()})]
def t_ordered(x, y, xs):
    d = OrderedDict(); d["b"] = 1; d["a"] = 2; d.move_to_end("b")
    return [list(d), d.popitem(last=False)]
def t_dd(x, y, xs):
    d = defaultdict(list); d["a"].append(1); d["b"].append(2); d["a"].append(3); c = Counter("abca")
    return [d["a"], len(d), c["a"], c["z"]]
def t_set(x, y, xs):
    s = {1, 2}; s.add(3); s.discard(1)
    return [sorted(s | {5}), sorted(s & {2, 9}), sorted(s - {2}), 3 in s, s <= {2, 3, 4}, len(s ^ {3, 8})]
def t_reduce(x, y, xs):
    return [reduce(add, xs, 0), reduce(mul, xs), list(accumulate(xs)), list(accumulate(xs, mul)), list(starmap(mul, zip(xs, xs)))]
def t_itert(x, y, xs):
    return [list(islice(xs, 1, 3)), list(takewhile(lambda q: q < 3, xs)), list(chain(xs, [9])), list(chain.from_iterable([[1], [2, 3]])), list(zip_longest(xs, [1], fillvalue=0)), list(combinations(xs, 2)), list(islice(count(3), 2)), list(repeat(x, 2)), [list(g) for k, g in groupby([1, 1, 2])]]
def t_getters(x, y, xs):
    return [itemgetter(1)(xs), itemgetter(0, 2)(xs), attrgetter("real")(x)]
def t_str(x, y, xs):
    s = "ab,cd"; a, b = s.split(","); c, _, d = s.partition(",")
    return [a, b, c, d, s.upper(), "-".join(["x", "y"]), s.replace(",", ""), s.find("c"), s.startswith("ab"), f"{3:04d}|{2.5:.2f}|{'q':<3}|{'q':>3}|{1!r}", "%03d %s" % (7, "z"), s[1:], s.zfill(7), s.ljust(6, "."), s.title(), s.count("a"), "a".center(3), s.strip("ab"), s.rsplit(",", 1), s.isdigit(), "12".isdigit()]
def t_unpack(x, y, xs):
    a, *b = xs; *c, d = xs; (e, f), g = (1, 2), 3; h = i = [0]; h.append(1)
    return [a, b, c, d, e, f, g, i]
def t_cls(x, y, xs):
    class A:
        n = 0
        __slots__ = ("v",)
        def __init__(self, v): self.v = v; A.n += 1
        def __eq__(self, o): return self.v == o.v
        def __hash__(self): return 1
        def __lt__(self, o): return self.v < o.v
        def __add__(self, o): return A(self.v + o.v)
        def __radd__(self, o): return A(self.v + o)
        def __getitem__(self, i): return self.v * i
        def __len__(self): return 4
        def __call__(self, q): return self.v - q
        def __iter__(self): yield self.v; yield 1
        def __contains__(self, q): return q == 2
        def __bool__(self): return False
        def __neg__(self): return -self.v
        @property
        def p(self): return self.v + 1
        @p.setter
        def p(self, q): self.v = q - 1
        @classmethod
        def mk(cls, v): return cls(v + 100)
        @staticmethod
        def st(v): return v * 2
    a, b = A(1), A(2); a.p = 11
    return [(a + b).v, (5 + b).v, sum([a, b]).v, a[3], len(a), a(1), list(a), 2 in a, bool(a), -a, a.p, A.mk(1).v, a.st(4), A.n, sorted([a, b])[0].v, a < b, a == A(10), 1 if a else 2]
def t_inh(x, y, xs):
    class A:
        k = 1
        def f(self): return self.k
        def g(self): return "A"
    class B(A):
        k = 2
        def g(self): return "B" + super().g()
    class C(A):
        def g(self): return "C" + super().g()
    class D(B, C):
        def f(self): return super().f() + 10
    d = D(); D.k = 7
    return [d.f(), d.g(), isinstance(d, C), issubclass(B, C), [c.__name__ for c in D.__mro__][:4], type(d).__name__, hasattr(d, "k"), getattr(d, "zz", 3)]
def t_enum(x, y, xs):
    class E(Enum):
        A = 1
        B = "b"
    class F(str, Enum):
        X = "x"
    return [E(1).name, E["B"].value, [e.name for e in E], E.A is E(1), E.A == 1, F.X == "x", F("x").name, F.X.upper(), len(E), E.A in (E.B, E.A)]
def t_walrus(x, y, xs):
    r = []
    while (n := len(r)) < 3: r.append(n)
    return [r, [k for q in xs if (k := q * 2) > 2], any((w := q) > 2 for q in xs), w]
def t_loops(x, y, xs):
    r = []
    for i in range(10):
        if i == 2: continue
        if i == 5: break
        r.append(i)
    else: r.append("else")
    k = 0
    while True:
        k += 1
        if k > 3: break
    else: r.append("no")
    for i, q in enumerate(xs, 1): r.append(i * q)
    for p, q in zip(xs, reversed(xs)): r.append(p * q)
    return [r, k, i]
def t_cond(x, y, xs):
    return [x if x > y else y, x and y, 0 or y, not x, None or 3, x < y < 10, x == y == 1, () or "e", [] and 1, x is None, bool([]), all([]), any([]), all(q > 0 for q in xs)]
def t_math(x, y, xs):
    return [math.floor(-2.5), math.ceil(2.1), round(2.5), round(3.5), round(2.567, 2), int(-2.7), -7 // 2, -7 % 3, 7 % -3, divmod(-7, 2), abs(-3), pow(2, 3), 2 ** -1, math.fmod(-7, 3), math.trunc(-1.5), math.copysign(2, -1), math.isclose(1, 1), math.hypot(3, 4), 5 & 3, 5 | 3, 5 ^ 3, 1 << 3, 9 >> 1, ~4, math.inf > 3, float("inf") == math.inf, int("12"), float("1.5"), str(3), math.prod(xs), math.fsum(xs), math.gcd(4, 6)]
def t_np(x, y, xs):
    a = np.array([[1.0, 2, 3], [4, 5, 6]]); b = a.copy(); b[0] = 9; c = a.T; d = a.reshape(-1); e = a[:, 1:]; e += 1
    return [a.tolist(), b.tolist(), c.tolist(), d.tolist(), a.sum(axis=0).tolist(), a.mean(axis=1).tolist(), a.max(), a.argmax(), np.flip(a, 0).tolist(), a[::-1].tolist(), a[..., 0].tolist(), a[a > 4].tolist(), np.where(a > 4, 1, 0).tolist(), np.clip(a, 2, 5).tolist(), np.diff(a, axis=1).tolist(), np.cumsum(a).tolist()]
def t_np2(x, y, xs):
    a = np.arange(4); v = np.linspace(0, 1, 5)
    return [np.concatenate([a, [9]]).tolist(), np.stack([a, a], axis=1).tolist(), np.vstack([a, a]).tolist(), np.hstack([a, a]).tolist(), np.column_stack([a, a]).tolist(), v.tolist(), np.outer(a[:2], a[:2]).tolist(), np.roll(a, 1).tolist(), np.tile(a, 2).tolist(), np.repeat(a, 2).tolist(), np.meshgrid([1, 2], [3, 4])[0].tolist(), np.meshgrid([1, 2], [3, 4])[1].tolist(), np.full((2,), 3).tolist(), np.eye(2).tolist(), np.diag([1, 2]).tolist(), np.append(a, 5).tolist(), np.insert(a, 1, 7).tolist(), np.delete(a, 1).tolist(), np.searchsorted(a, 2), np.any(a > 2), np.all(a > 2), np.count_nonzero(a), np.min(a), np.argsort([3, 1, 2]).tolist(), np.sort([3, 1, 2]).tolist(), np.unique([2, 1, 2]).tolist(), np.swapaxes(np.ones((2, 3)), 0, 1).shape, np.expand_dims(a, 0).shape, np.squeeze(np.ones((1, 3))).shape, a[None].shape, a[:, np.newaxis].shape, np.atleast_2d(a).shape, np.dot(a, a), (a @ a), np.cross([1, 0, 0], [0, 1, 0]).tolist(), np.linalg.norm([3, 4]), np.polyval([1, 2, 3], 2), np.interp(0.5, [0, 1], [2, 4]), np.sign(-2.0), np.floor_divide(7, 2), np.mod(-1, 3), np.ndim(a), np.size(a)]
def t_np3(x, y, xs):
    a = np.zeros((2, 2)); a[0, 1] = x; a[1] = [3, 4]; a[:, 0] *= 2; b = a.view(); b[0, 0] = 8; c = np.asarray(a); c[1, 1] = 7; d = a.ravel(); d[0] = 5; e = a.flatten(); e[0] = 100; f = a.astype(int); m = a != 0; a[m] = 1
    return [a.tolist(), f.tolist(), e.tolist(), m.tolist(), np.array(xs).dtype.kind, np.moveaxis(np.zeros((2, 3, 4)), 2, 0).shape, np.transpose(np.zeros((2, 3, 4)), (1, 2, 0)).shape, np.zeros_like(f).tolist()]
def t_sio(x, y, xs):
    s = StringIO(); s.write("ab"); print("q", file=s); return s.getvalue()
def t_lru(x, y, xs):
    n = []
    @lru_cache(maxsize=None)
    def f(k):
        n.append(k); return [k]
    f(1).append(5); f(2)
    return [f(1), f(2), n]
def t_getattr(x, y, xs):
    class A:
        def __init__(self): self.a = 1
        def __getattr__(self, n): return n + "!"
        def __setattr__(self, n, q): object.__setattr__(self, n, q * 2)
    a = A(); a.b = 4
    return [a.a, a.b, a.zz, vars(a) == {"a": 2, "b": 8}]
def t_varargs(x, y, xs):
    def f(a, *b, c=1, **d): return [a, b, c, sorted(d.items())]
    return [f(1), f(1, 2, 3, c=4, e=5), f(*xs), f(**{"a": 1, "z": 2})]
def t_global(x, y, xs):
    global GG
    GG = 3
    def f():
        global GG
        GG += 1
        return GG
    return [f(), f(), GG]
def t_lambda(x, y, xs):
    return [list(map(lambda q: q * x, xs)), list(filter(lambda q: q > 1, xs)), list(map(max, xs, reversed(xs))), sorted(xs, key=lambda q: (q % 2, q)), max(xs, default=0), max([], default=4), min(xs, key=lambda q: abs(q - 2)), sum([[1], [2]], [])]
def t_nested(x, y, xs):
    m = [[0] * 2 for _ in range(2)]; m[0][0] = 1; k = [[0] * 2] * 2; k[0][0] = 1
    return [m, k, [c for r in m for c in r], list(zip(*m)), [[r[i] for r in m] for i in range(2)]]
def t_exc(x, y, xs):
    class E1(ValueError): pass
    log = []
    for e in (E1("a"), KeyError("b"), TypeError("c"), IndexError("d")):
        try:
            try: raise e
            except ValueError as q: log.append("v" + str(q)); raise RuntimeError("n") from q
            except (KeyError, IndexError): log.append("k"); raise
        except LookupError as z: log.append(type(z).__name__)
        except Exception as z: log.append("x" + type(z).__name__)
    return log
def t_del(x, y, xs):
    d = {"a": 1, "b": 2}; del d["a"]; l = [1, 2, 3]; del l[1]
    class A: pass
    a = A(); a.q = 1; del a.q
    return [d, l, hasattr(a, "q")]
def t_chaincmp(x, y, xs):
    return [1 < 2 < 3, 3 > 2 > 2, (1, 2) < (1, 3), [1] == [1], (1,) == [1], "a" < "b", None == 0, 1 == 1.0, True == 1, "1" == 1, (1, 2) + (3,), {1: 2} == {1: 2.0}]
def t_bytes(x, y, xs):
    b = b"ab"; return [b.decode(), "x".encode() == b"x", len(b), b + b"c" == b"abc", bytes([65]).decode(), b.hex()]
def t_swap(x, y, xs):
    a, b = x, y; a, b = b, a; l = [1, 2]; l[0], l[1] = l[1], l[0]; i = 0; i, l[i] = 1, 9
    return [a, b, l]
def t_copy(x, y, xs):
    import copy
    a = [[1], {"k": [2]}]; b = copy.copy(a); c = copy.deepcopy(a); a[0].append(5); a[1]["k"].append(6)
    return [b, c]
def t_matchst(x, y, xs):
    def f(q):
        match q:
            case 1 | 2: return "low"
            case [a, b] if a > b: return a - b
            case [a, b]: return b - a
            case {"k": z}: return z
            case str() as s: return s + "!"
            case None: return "none"
            case _: return "other"
    return [f(1), f(2), f([5, 3]), f((3, 5)), f({"k": 8}), f("s"), f(None), f(3.5), f([1])]
def t_augattr(x, y, xs):
    class A: c = []; n = 0
    a, b = A(), A(); a.c += [1]; a.n += 1
    return [A.c, b.c, A.n, a.n, b.n, "n" in vars(a)]
def t_genclose(x, y, xs):
    def g():
        r = yield 1
        yield r
    z = g()
    return [next(z), z.send(5)]
def t_genlazy(x, y, xs):
    log = []
    def g():
        for i in range(3):
            log.append(i); yield i
    for q in g():
        if q == 1: break
    return log
def t_genlazy2(x, y, xs):
    log = []
    def chk(q): log.append(q); return q > 1
    any(chk(q) for q in xs); next(q for q in xs if chk(q))
    return log
def t_reviter(x, y, xs):
    r = reversed(xs)
    return [next(r), list(r), list(r)]
def t_mapnext(x, y, xs):
    m = map(lambda q: q + 1, xs); e = enumerate(xs); z = zip(xs, xs)
    return [next(m), next(m), list(m), next(e), next(e), next(z), list(z)]
def t_filternext(x, y, xs):
    f = filter(lambda q: q > 1, xs)
    return [next(f), list(f), list(f)]
def t_dictiter(x, y, xs):
    d = {"a": 1, "b": 2}; it = iter(d.items()); f = iter(d)
    return [next(it), next(it), next(f), list(f), list(reversed(d))]
def t_ctxret(x, y, xs):
    log = []
    @contextmanager
    def c(n):
        log.append("in"); yield n
        log.append("out")
    def f(k):
        for i in range(4):
            with c(i) as q:
                if k == q: return "r"
                if q == 1 and k == 9: break
                if q == 0: continue
                log.append(q)
        return "end"
    return [f(2), f(9), f(7), log]
def t_ctxmeth(x, y, xs):
    class A:
        def __init__(self): self.n = 0
        @contextmanager
        def up(self):
            self.n += 1
            try: yield self
            finally: self.n -= 1
    a = A(); r = []
    with a.up() as b, a.up(): r.append(b.n)
    try:
        with a.up(): raise KeyError("x")
    except KeyError: r.append(a.n)
    return r
def t_closing(x, y, xs):
    class R:
        def __init__(self): self.o = 1
        def close(self): self.o = 0
    r = R()
    with closing(r) as q: a = q.o
    with ExitStack() as s:
        z = s.enter_context(closing(R()))
        a2 = z.o
    return [a, r.o, a2, z.o]
