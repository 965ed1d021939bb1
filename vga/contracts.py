"""Models of the third-party calls whose documented meaning the obligations rely on."""
from . import lib
from . import values as v
from .interp import Dead, HArr, HDict, HInst
from .values import Ext, FALSE, G, K, NONE, Obj, Ref, T, TRUE, Tup, term


class Search:
    """one call of scipy.optimize.minimize"""

    def __init__(self):
        self.guard = self.objective = self.raises = self.x0 = self.method = self.options = self.where = self.point = None


def install(a):
    C = a.w.contracts
    a.searches = []

    def minimize(I, st, args, kw, ctx):
        kw = dict(kw)
        for i, n in enumerate(("fun", "x0", "args", "method")):
            if len(args) > i:
                kw[n] = args[i]
        s = Search()
        s.guard, s.where = st.pc, v.Where.cur
        n = len(a.searches)
        s.point = [v.sym(f"search{n}.{c}") for c in ("x", "y")]
        sub = st.fork()
        pt = I.new(sub, HArr((2,), list(s.point)))
        extra = I.items_of(kw["args"], st) if "args" in kw else []
        saved = I.pending
        I.pending = [[]]
        try:
            try:
                s.objective = lib.unbox(I, I.call(kw["fun"], [pt] + list(extra or []), {}, sub, ctx), sub)
            except Dead:
                s.objective = None
            s.raises = I.pending[0]
        finally:
            I.pending = saved
        s.state = sub
        if s.objective is not None:
            # the search has evaluated the objective: whatever that leaves behind stays
            late = sub.fork()
            st.heap = late.heap
        s.x0 = a.comps(st, kw["x0"], 2)
        s.method = kw.get("method", NONE)
        o = kw.get("options", NONE)
        s.options = {}
        if isinstance(o, Ref):
            h = I.deref(st, o)
            if isinstance(h, HDict):
                s.options = {k.val: x for g, k, x in h.entries.values() if isinstance(k, K)}
        for nm in ("tol",):
            if nm in kw:
                s.options[nm] = kw[nm]
        sx = s.options.get("initial_simplex")
        if sx is not None:
            s.simplex = [a.comps(st, p, 2) for p in a.comps(st, sx, 3)]
        else:
            s.simplex = None
        s.bounds = None
        if kw.get("bounds") is not None:
            s.bounds = [q for b in a.comps(st, kw["bounds"], 2) for q in a.comps(st, b, 2)]
        a.searches.append(s)
        xs = I.new(st, HArr((2,), [v.sym(f"argmin{n}.{c}") for c in ("x", "y")]))
        return I.new(st, HInst(Ext("scipy.optimize.OptimizeResult"), {"x": xs}))

    C[("ext", "scipy.optimize.minimize")] = minimize
    C[("ext", "scipy.optimize._minimize.minimize")] = minimize

    def lstsq(I, st, args, kw, ctx):
        A = lib.as_arr(I, args[0] if args else kw["a"], st)
        b = lib.as_arr(I, args[1] if len(args) > 1 else kw["b"], st)
        if not (isinstance(A, HArr) and isinstance(b, HArr) and len(A.shape) == 2 and len(b.data) == A.shape[0]):
            return None
        rc = args[2] if len(args) > 2 else kw.get("rcond", kw.get("cond"))
        if rc is not None and rc.key != v.NONE.key and not (lib.const_of(rc) is not None and lib.const_of(rc) < 1e-12):
            # directions whose singular value is below that fraction of the largest are left out
            b = HArr(b.shape, [v.applyN(lambda q, k: v.term("truncated", q, k, kind="num"), [q, rc]) for q in b.data])
        m, n = A.shape
        col = lambda j: [A.data[i * n + j] for i in range(m)]
        cols = [col(j) for j in range(n)]
        return I.mk_tuple(st, [I.new(st, HArr((n,), lsq_solution(cols, list(b.data))))] + [term("lsq.aux", K(i)) for i in range(3)]) if hasattr(I, "mk_tuple") else Tup([I.new(st, HArr((n,), lsq_solution(cols, list(b.data))))] + [term("lsq.aux", K(i)) for i in range(3)])

    C[("ext", "numpy.linalg.lstsq")] = lstsq
    C[("ext", "scipy.linalg.lstsq")] = lstsq

    lib.METHOD_MODELS["transform"] = proj_transform


def lsq_solution(cols, b):
    """terms for the least-squares solution of cols·x = b, independent of row and column order"""

    def dot(p, q):
        s = K(0)
        for x, y in zip(p, q):
            s = v.add(s, v.mul(x, y))
        return s

    n = len(cols)
    own = []
    N = {}
    for i in range(n):
        for j in range(i, n):
            N[i, j] = N[j, i] = dot(cols[i], cols[j])
    for i in range(n):
        row = sorted((N[i, j] for j in range(n)), key=lambda t: repr(t.key))
        own.append(term("lsq.col", N[i, i], dot(cols[i], b), *row))
    glob = term("lsq.sys", *sorted(own, key=lambda t: repr(t.key)))
    return [term("lsq", o, glob, kind="num") for o in own]


def direction_of(d):
    if d is None:
        return "FORWARD"
    if isinstance(d, K):
        return str(d.val).upper()
    if isinstance(d, Ext):
        return d.name.split(".")[-1]
    return None


def proj_transform(I, x, name, args, kw, st, ctx):
    """pyproj Transformer.transform(xx, yy[, zz], radians=, direction=)"""
    if not (isinstance(x, T) and "Transformer" in x.op):
        return None
    kw = dict(kw)
    pos = list(args)
    for n in ("xx", "yy", "zz", "tt"):
        if n in kw:
            pos.append(kw.pop(n))
    d = direction_of(kw.pop("direction", None))
    r = kw.pop("radians", FALSE)
    if d is None or kw or any(isinstance(p, T) and p.op == "star" for p in pos):
        return None
    ops = [I.freeze(lib.unbox(I, p, st), st) for p in pos]
    return Tup([v.applyN(lambda *q, i=i: term(f"proj.{d}.{i}", *q, kind="num"), [x, r] + ops) for i in range(len(pos))])
