"""Coordinate objects, their text form, and geodetic/geocentric conversion."""
import math

from vga import lib
from vga import values as v
from vga.spec import ob
from vga.values import FALSE, K, NONE, TRUE, T, term

P = "aws.osml.photogrammetry."


@ob("P13", "photogrammetry/coordinates.py:WorldCoordinate/GeodeticWorldCoordinate/ImageCoordinate", "named components are views of the stored vector; construction copies; wrong sizes are rejected")
def coordinate_components(a):
    table = [
        ("WorldCoordinate", 3, {"x": 0, "y": 1, "z": 2}),
        ("GeodeticWorldCoordinate", 3, {"x": 0, "y": 1, "z": 2, "longitude": 0, "latitude": 1, "elevation": 2}),
        ("ImageCoordinate", 2, {"x": 0, "y": 1, "c": 0, "r": 1}),
    ]
    for cls, n, names in table:
        c = [a.sym(f"c{i}") for i in range(n)]
        for nm, i in names.items():
            st = a.state()
            src = a.arr(st, c)
            w = a.new(st, P + cls, src)
            a.eq(st, a.attr(st, w, nm), c[i], f"{cls}.{nm}")
            nv = a.sym("new")
            a.I.setattr(w, nm, nv, st, None)
            want = [nv if j == i else c[j] for j in range(n)]
            a.eq(st, a.coord(st, w, n), want, f"{cls}.coordinate after setting {nm}")
            for m2, j in names.items():
                a.eq(st, a.attr(st, w, m2), want[j], f"{cls}.{m2} after setting {nm}")
            a.eq(st, a.comps(st, src, n), c, f"caller's array after setting {cls}.{nm}")
            a.never_raises(cls)
        st = a.state()
        src = a.arr(st, c)
        w = a.new(st, P + cls, src)
        lib.setitem(a.I, src, K(0), a.sym("other"), st, None)
        a.eq(st, a.coord(st, w, n), c, f"{cls} after its source array is changed")
        st = a.state()
        w = a.new(st, P + cls)
        a.eq(st, a.coord(st, w, n), [K(0)] * n, f"default {cls}")
        a.never_raises(cls)
        # two default coordinates never share storage
        w2 = a.new(st, P + cls)
        a.I.setattr(w2, "x", a.sym("q"), st, None)
        a.eq(st, a.coord(st, w, n), [K(0)] * n, f"default {cls} after another one is changed")
        for k in (1, 2, 3, 4):
            if k != n:
                st = a.state()
                w = a.new(st, P + cls, a.lst(st, [a.sym(f"c{i}") for i in range(k)]))
                a.must_raise(st, ["ValueError"], TRUE, f"{cls} with {k} components")


@ob("P13", "photogrammetry/coordinates.py:WorldCoordinate/ImageCoordinate", "components are kept as floating point numbers, also when they are given as integers")
def component_width(a):
    """types are followed for this one: wide(x) is x converted to floating point"""
    floats = ("float", "float64", "float_", "float32", "double", "single", "longdouble")
    wide = lambda x: v.apply1(lambda l: l if isinstance(l, T) and l.op == "wide" else term("wide", l, kind="num"), x)
    plain = lib.astype
    lib.astype = lambda I, x, t, st: wide(x) if lib.dtype_name(t) in floats else plain(I, x, t, st)
    conv = lib.NP["builtins.float"]
    lib.NP["builtins.float"] = lambda I, args, kw, st, ctx: wide(conv(I, args, kw, st, ctx))
    lib.NP["numpy.float64"] = lib.NP["builtins.float"]
    # an array allocated with a floating-point type converts what is stored into it
    store, made = lib.arr_set, {n: lib.NP["numpy." + n] for n in ("zeros", "ones", "empty", "full")}

    def alloc(n):
        def f(I, args, kw, st, ctx):
            at = 2 if n == "full" else 1
            d = kw.get("dtype", args[at] if len(args) > at else None)
            r = made[n](I, args, kw, st, ctx)
            integral = (n == "full" and d is None) or (d is not None and d is not lib.NONE and lib.dtype_name(d) not in floats)
            h = I.deref(st, r)
            if not integral and hasattr(h, "shape"):
                I.hset(st, r.addr, type(h)(h.shape, [wide(x) for x in h.data]))
            return r

        return f

    def arr_set(I, o, h, k, val, st):
        whole = lib.as_arr(I, val, st)
        if all(isinstance(x, T) and x.op == "wide" for x in h.data):
            if hasattr(whole, "shape"):
                val = I.new(st, type(whole)(whole.shape, [wide(x) for x in whole.data]))
            else:
                val = wide(whole)
        return store(I, o, h, k, val, st)

    lib.arr_set = arr_set
    for n in made:
        lib.NP["numpy." + n] = alloc(n)
    try:
        for cls, n in (("WorldCoordinate", 3), ("GeodeticWorldCoordinate", 3), ("ImageCoordinate", 2)):
            for form in ("list", "array"):
                st = a.state()
                c = [a.sym(f"c{i}", "i") for i in range(n)]
                w = a.new(st, P + cls, a.lst(st, c) if form == "list" else a.arr(st, c))
                a.eq(st, a.coord(st, w, n), [wide(x) for x in c], f"{cls} of an integer {form}")
            w = a.new(st, P + cls)
            got = a.comps(st, a.coord(st, w, n), n)
            if got is not None:
                for q in got:
                    a.check(not (isinstance(q, K) and isinstance(q.val, int)), f"default {cls}", "components are integers")
    finally:
        lib.astype = plain
        lib.NP["builtins.float"] = conv
        lib.NP["numpy.float64"] = conv
        lib.arr_set = store
        for n in made:
            lib.NP["numpy." + n] = made[n]


# assignments used only to refute a range that could not be derived: angles next to whole minutes and degrees
WIT = [{"lat": s * math.radians(d), "lon": t * math.radians(d), "h": 0.0} for s in (1, -1) for t in (1, -1) for b in (0, 10, 10.5, 44 + 59 / 60, 7 + 1 / 60, 3 + 13 / 60, 89.25, 23 + 17 / 3600) for e in (0, 1e-7, -1e-7, 4e-7, -4e-7, 1e-9, -1e-9, 0.3, 1e-4, -1e-4) for d in (b + e,) if d >= 0]


def one(a, lat_neg, lon_neg):
    st = a.state()
    g = a.syms("lon lat h")
    pc = v.lt(g[1], 0) if lat_neg else v.ge(g[1], 0)
    pc = v.b_and(pc, v.lt(g[0], 0) if lon_neg else v.ge(g[0], 0))
    st.pc = pc
    w = a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, g))
    f = lambda s: a.m(st, w, "__format__", K(s))
    return st, w, g, f


@ob("P14", "photogrammetry/coordinates.py:GeodeticWorldCoordinate.__format__", "degrees, minutes, seconds are in range and denote the angle to within a second; hemisphere letter matches the sign")
def dms_parts(a):
    for ln in (False, True):
        for on in (False, True):
            st, w, g, f = one(a, ln, on)
            for axis, ch, idx, neg, pad, letters in (("latitude", "l", 1, ln, "02d", "NS"), ("longitude", "o", 0, on, "03d", "EW")):
                deg = v.degrees(g[idx])
                mag = -deg if neg else deg
                parts = {}
                for p in "dms":
                    r = f(f"%{ch}{p}")
                    r = None if r is None else v.simplify(r, st.pc)
                    want = pad if p == "d" else "02d"
                    leaves = [l for g_, l in v.leaves(r)] if r is not None else [None]
                    if not all(isinstance(l, T) and l.op == "fmt" for l in leaves):
                        a.fail(f"{axis} {p}", f"%{ch}{p} is {v.show(r) if r is not None else None}, not a number", undecided=not any(isinstance(l, K) for l in leaves))
                        return
                    for l in leaves:
                        sp = l.args[1]
                        a.check(isinstance(sp, K) and sp.val in (want, want.rstrip("d")), f"{axis} %{ch}{p} width", f"formatted with {v.show(sp)}, expected {want}", [l.src] if l.src else None)
                        a.check(l.args[0].kind == "i", f"{axis} %{ch}{p} integer", "not an integer")
                    parts[p] = v.apply1(lambda l: l.args[0], r)
                for p in "ms":
                    a.within(st, parts[p], 0, 60, f"{axis} %{ch}{p}", strict_hi=True, witnesses=WIT)
                a.within(st, parts["d"], 0, None, f"{axis} %{ch}d", witnesses=WIT)
                tot = parts["d"] * 3600 + parts["m"] * 60 + parts["s"]
                a.within(st, tot - mag * 3600, K(-1.01), K(0.01), f"{axis} total seconds minus the angle", witnesses=WIT)
                a.eq(st, f(f"%{ch}H"), K(letters[neg]), f"{axis} hemisphere")
                a.eq(st, f(f"%{ch}h"), K(letters[neg].lower()), f"{axis} lower-case hemisphere")
            a.eq(st, f("%L"), a.call(st, v.Ext("builtins.str"), g[1]), "%L")
            a.eq(st, f("%O"), a.call(st, v.Ext("builtins.str"), g[0]), "%O")
            a.eq(st, f("%E"), a.call(st, v.Ext("builtins.str"), g[2]), "%E")
            a.eq(st, f("%%"), K("%"), "%%")
            cat = lambda ps: lib.concat(a.I, [f(p) if p.startswith("%") else K(p) for p in ps])
            lay = ["%ld", "%lm", "%ls", "%lH", "%od", "%om", "%os", "%oH"]
            a.eq(st, a.m(st, w, "to_dms_string"), cat(lay), "to_dms_string")
            a.eq(st, f(""), cat(lay[:4] + [" "] + lay[4:] + [" ", "%E"]), "default format")
            mix = ["a", "%oH", "-", "%ld", "x", "%E", "z"]
            a.eq(st, f("".join(mix)), cat(mix), "literal text between directives")
            for u in "qDHx9":
                a.eq(st, f(f"%{u}"), K(""), f"unknown directive %{u}")
                a.eq(st, f(f"<%{u}>%lm"), cat(["<", ">", "%lm"]), f"unknown directive %{u} in a text")
            a.never_raises("formatting")


@ob("P13", "photogrammetry/coordinates.py:geodetic_to_geocentric/geocentric_to_geodetic", "WGS84 transform in radians, argument order (lon, lat, h) / (x, y, z), opposite directions of one transform")
def ecef(a):
    st = a.state()
    g = a.syms("lon lat h")
    e = a.syms("x y z")
    f = a.call(st, a.get(P + "geodetic_to_geocentric"), a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, g)))
    b = a.call(st, a.get(P + "geocentric_to_geodetic"), a.new(st, P + "WorldCoordinate", a.lst(st, e)))
    pj = lambda p: a.I.call(v.Ext("pyproj.Proj"), [], {"proj": K(p), "ellps": K("WGS84"), "datum": K("WGS84")}, st, None)
    tr = a.call(st, v.Ext("pyproj.Transformer.from_proj"), pj("latlong"), pj("geocent"))
    ex = lambda d, c: [term(f"proj.{d}.{i}", tr, TRUE, *c, kind="num") for i in range(3)]
    a.eq(st, a.coord(st, f, 3), ex("FORWARD", g), "geocentric")
    a.eq(st, a.coord(st, b, 3), ex("INVERSE", e), "geodetic")
    cls = lambda x: a.I.deref(st, x).cls.name
    a.check(cls(b) == "GeodeticWorldCoordinate", "result type", "geocentric_to_geodetic does not return a geodetic coordinate")
    a.never_raises("conversion")
