"""Projective transforms, chipped images, composite and georeferenced (affine) sensor models, elevation models."""
from vga import lib
from vga import values as v
from vga.contracts import lsq_solution
from vga.interp import HDict
from vga.spec import elev, i2w, ob, w2i
from vga.values import K, NONE, TRUE, Tup, term

P = "aws.osml.photogrammetry."


def fwd(p, x, y):
    a0, a1, a2, b0, b1, b2, c0, c1 = p
    d = K(1) + c0 * x + c1 * y
    return [(a0 + a1 * x + a2 * y) / d, (b0 + b1 * x + b2 * y) / d]


def inv(p, x, y):
    """the source point whose forward image is (x, y): Cramer's rule on the 2x2 linear system"""
    a0, a1, a2, b0, b1, b2, c0, c1 = p
    m11, m12, r1 = a1 - x * c0, a2 - x * c1, x - a0
    m21, m22, r2 = b1 - y * c0, b2 - y * c1, y - b0
    det = m11 * m22 - m12 * m21
    return [(r1 * m22 - m12 * r2) / det, (m11 * r2 - r1 * m21) / det]


def estimate(src, dst):
    cols = [[] for _ in range(8)]
    b = []
    for (x, y), (u, w) in zip(src, dst):
        for j, e in enumerate([K(1), x, y, K(0), K(0), K(0), -(u * x), -(u * y)]):
            cols[j].append(e)
        b.append(u)
        for j, e in enumerate([K(0), K(0), K(0), K(1), x, y, -(w * x), -(w * y)]):
            cols[j].append(e)
        b.append(w)
    return lsq_solution(cols, b)


@ob("P04", "photogrammetry/transforms.py:ProjectiveTransform.forward/inverse", "forward is the projective map and inverse is its exact algebraic inverse, for any number of points")
def projective_transform(a):
    st = a.state()
    p = [a.sym(n) for n in "a0 a1 a2 b0 b1 b2 c0 c1".split()]
    for n in (1, 3):
        t = a.new(st, P + "transforms.ProjectiveTransform", a.arr(st, p))
        pts = [[a.sym(f"x{i}"), a.sym(f"y{i}")] for i in range(n)]
        f = a.m(st, t, "forward", a.arr(st, pts))
        g = a.m(st, t, "inverse", a.arr(st, pts))
        a.eq(st, [q for r in a.comps(st, f) for q in r], [q for x, y in pts for q in fwd(p, x, y)], "forward")
        a.eq(st, [q for r in a.comps(st, g) for q in r], [q for x, y in pts for q in inv(p, x, y)], "inverse")
        back = a.m(st, t, "inverse", f)
        a.eq(st, [q for r in a.comps(st, back) for q in r], [q for r in pts for q in r], "inverse of forward")
        again = a.m(st, t, "forward", g)
        a.eq(st, [q for r in a.comps(st, again) for q in r], [q for r in pts for q in r], "forward of inverse")
    a.never_raises("transform")


@ob("P04", "photogrammetry/transforms.py:ProjectiveTransform.estimate", "the fitted transform is the least-squares solution of the linearised correspondence equations")
def projective_estimate(a):
    for n in (4, 5):
        st = a.state()
        src = [[a.sym(f"sx{i}"), a.sym(f"sy{i}")] for i in range(n)]
        dst = [[a.sym(f"dx{i}"), a.sym(f"dy{i}")] for i in range(n)]
        t = a.m(st, a.get(P + "transforms.ProjectiveTransform"), "estimate", a.arr(st, src), a.arr(st, dst))
        q = a.syms("x y")
        p = estimate(src, dst)
        f = a.m(st, t, "forward", a.arr(st, [q]))
        g = a.m(st, t, "inverse", a.arr(st, [q]))
        a.eq(st, a.comps(st, f)[0], fwd(p, *q), "forward of the estimate")
        a.eq(st, a.comps(st, g)[0], inv(p, *q), "inverse of the estimate")


def coords(a, st, cls, pts):
    return a.lst(st, [a.new(st, P + cls, a.lst(st, p)) for p in pts])


def chip(a, st, n=4):
    full = a.obj("full", P + "SensorModel")
    org = [[a.sym(f"ox{i}"), a.sym(f"oy{i}")] for i in range(n)]
    chp = [[a.sym(f"cx{i}"), a.sym(f"cy{i}")] for i in range(n)]
    m = a.new(st, P + "ChippedImageSensorModel", coords(a, st, "ImageCoordinate", org), coords(a, st, "ImageCoordinate", chp), full)
    return m, full, estimate(org, chp)


@ob("P04 P07", "photogrammetry/chipped_image_sensor_model.py:ChippedImageSensorModel", "a chip pixel is geolocated by the full-image model at the matching full-image pixel, with the caller's elevation model and options")
def chipped_model(a):
    for n in (4, 5, 7):
        st = a.state()
        m, full, p = chip(a, st, n)
        t = a.syms("x y")
        ic = a.new(st, P + "ImageCoordinate", a.lst(st, t))
        em, op = a.obj("terrain", P + "ElevationModel"), a.sym("options", "?")
        r = a.m(st, m, "image_to_world", ic, em, op)
        a.eq(st, a.coord(st, r, 3), i2w(full, *inv(p, *t), em, op), "image_to_world(elevation_model, options)")
        r = a.m(st, m, "image_to_world", ic)
        a.eq(st, a.coord(st, r, 3), i2w(full, *inv(p, *t)), "image_to_world()")
        g = a.syms("lon lat h")
        r = a.m(st, m, "world_to_image", a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, g)))
        a.eq(st, a.coord(st, r, 2), fwd(p, *w2i(full, g)), "world_to_image")
        a.never_raises("chip model")


@ob("P04 P07", "photogrammetry/projective_sensor_model.py:ProjectiveSensorModel", "lon/lat to pixel projective fit used in both directions, elevation from the supplied model")
def projective_model(a):
    for n in (4, 6):
        st = a.state()
        wd = [[a.sym(f"lon{i}"), a.sym(f"lat{i}"), a.sym(f"h{i}")] for i in range(n)]
        im = [[a.sym(f"x{i}"), a.sym(f"y{i}")] for i in range(n)]
        p = estimate([w[:2] for w in wd], im)
        m = a.new(st, P + "ProjectiveSensorModel", coords(a, st, "GeodeticWorldCoordinate", wd), coords(a, st, "ImageCoordinate", im))
        t = a.syms("x y")
        ic = a.new(st, P + "ImageCoordinate", a.lst(st, t))
        em, op = a.obj("terrain", P + "ElevationModel"), a.sym("options", "?")
        ll = inv(p, *t)
        a.eq(st, a.coord(st, a.m(st, m, "image_to_world", ic), 3), ll + [K(0)], "image_to_world()")
        a.eq(st, a.coord(st, a.m(st, m, "image_to_world", ic, em, op), 3), ll + [elev(em, *ll, K(0))], "image_to_world(elevation_model)")
        g = a.syms("lon lat h")
        r = a.m(st, m, "world_to_image", a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, g)))
        a.eq(st, a.coord(st, r, 2), fwd(p, g[0], g[1]), "world_to_image")
        a.never_raises("projective model")


@ob("P06 P07", "photogrammetry/composite_sensor_model.py:CompositeSensorModel", "precision model started from the approximate answer; caller options, elevation model kept and not modified")
def composite_model(a):
    for mode in ("options", "none"):
        st = a.state()
        ap, pr = a.obj("approx", P + "SensorModel"), a.obj("precise", P + "SensorModel")
        m = a.new(st, P + "CompositeSensorModel", ap, pr)
        t = a.syms("x y")
        ic = a.new(st, P + "ImageCoordinate", a.lst(st, t))
        em = a.obj("terrain", P + "ElevationModel")
        if mode == "options":
            op = a.dict(st, {"custom": a.sym("custom", "?"), "initial_guess": a.sym("og", "?")})
            before = a.I.freeze(op, st)
            r = a.m(st, m, "image_to_world", ic, em, op)
            a.eq(st, op, before, "caller's options after the call")
            ex = {"custom": a.sym("custom", "?")}
        else:
            before = NONE
            em = NONE
            r = a.m(st, m, "image_to_world", ic)
            ex = {}
        ag = i2w(ap, *t, em, before)
        ex["initial_guess"] = a.lst(st, ag[:2])
        ex["initial_search_distance"] = v.radians(K(0.005))
        want = i2w(pr, *t, em, a.I.freeze(a.dict(st, ex), st))
        a.eq(st, a.coord(st, r, 3), want, f"image_to_world ({mode})")
        g = a.syms("lon lat h")
        r = a.m(st, m, "world_to_image", a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, g)))
        a.eq(st, a.coord(st, r, 2), w2i(pr, g), "world_to_image")
        a.never_raises("composite model")


def proj(d, tr, x, y, z):
    return [term(f"proj.{d}.{i}", tr, v.FALSE, x, y, z, kind="num") for i in range(3)]


@ob("P05 P07", "photogrammetry/gdal_sensor_model.py:GDALAffineSensorModel", "affine geotransform (degrees, or native CRS through pyproj in x,y order) and its exact inverse")
def affine_model(a):
    for wkt in (False, True):
        st = a.state()
        g = [a.sym(f"g{i}") for i in range(6)]
        args = [a.lst(st, g)]
        if wkt:
            args.append(a.sym("wkt", "s"))
            from vga.values import b_and, pred
        st.pc = a.I.truth(args[1], st) if wkt else TRUE
        m = a.new(st, P + "GDALAffineSensorModel", *args)
        t = a.syms("x y")
        ic = a.new(st, P + "ImageCoordinate", a.lst(st, t))
        em = a.obj("terrain", P + "ElevationModel")
        u = [g[0] + g[1] * t[0] + g[2] * t[1], g[3] + g[4] * t[0] + g[5] * t[1]]
        gw = a.syms("lon lat h")
        dw = [v.degrees(gw[0]), v.degrees(gw[1])]
        r1 = a.m(st, m, "image_to_world", ic)
        r2 = a.m(st, m, "image_to_world", ic, em, a.sym("options", "?"))
        r3 = a.m(st, m, "world_to_image", a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, gw)))
        if wkt:
            tr = None
            for e in st.events:
                if e.name == "x:pyproj.Transformer.from_crs":
                    tr = e.result
                    fa = e.args
                    kw = e.kwargs
            if tr is None:
                a.fail("coordinate system", "no pyproj transformer is built for the image's coordinate system", undecided=True)
                continue
            xy = kw.get("always_xy") or (fa[2] if len(fa) > 2 else None)
            a.check(xy is not None and xy.key == TRUE.key, "axis order", "the transformer is not built with x,y (longitude, latitude) axis order")
            a.eq(st, fa[0], term("x:pyproj.CRS.from_string", args[1]), "source coordinate system")
            a.eq(st, fa[1], a.I.freeze(a.attr(st, a.get(P + "coordinates.LLA_PROJ"), "crs"), st), "target coordinate system")
            u = proj("FORWARD", tr, u[0], u[1], K(1.0))[:2]
            dw = proj("INVERSE", tr, dw[0], dw[1], K(1.0))
        else:
            dw = dw + [K(1)]
        ll = [v.radians(u[0]), v.radians(u[1])]
        a.eq(st, a.coord(st, r1, 3), ll + [K(0)], "image_to_world()")
        a.eq(st, a.coord(st, r2, 3), ll + [elev(em, *ll, K(0))], "image_to_world(elevation_model)")
        det = g[1] * g[5] - g[2] * g[4]
        dx, dy = dw[0] - g[0] * dw[2], dw[1] - g[3] * dw[2]
        a.eq(st, a.coord(st, r3, 2), [(g[5] * dx - g[2] * dy) / det, (g[1] * dy - g[4] * dx) / det], "world_to_image")


@ob("P05 P17", "photogrammetry/gdal_sensor_model.py:GDALAffineSensorModel.__init__", "a geotransform that cannot be inverted is rejected with ValueError and nothing else")
def affine_singular(a):
    st = a.state(flags=("linalg",))
    g = [a.sym(f"g{i}") for i in range(6)]
    a.new(st, P + "GDALAffineSensorModel", a.lst(st, g))
    a.never_raises("constructor", allow=("ValueError",))
    a.check(a.raise_guard("ValueError") is not v.FALSE, "singular geotransform", "a singular geotransform is accepted")


@ob("P07", "photogrammetry/elevation_model.py:ConstantElevationModel", "constant elevation is assigned, position kept, region summary is the constant")
def constant_elevation(a):
    st = a.state()
    c = a.sym("c")
    m = a.new(st, P + "ConstantElevationModel", c)
    g = a.syms("lon lat h")
    w = a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, g))
    a.m(st, m, "set_elevation", w)
    a.eq(st, a.coord(st, w, 3), [g[0], g[1], c], "coordinate after set_elevation")
    s = a.m(st, m, "describe_region", w)
    a.eq(st, [a.attr(st, s, "min_elevation"), a.attr(st, s, "max_elevation")], [c, c], "region elevation range")
    a.never_raises("constant elevation")
