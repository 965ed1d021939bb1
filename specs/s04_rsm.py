"""Replacement sensor model: polynomials, ground domains, sections and the image-to-ground search."""
import importlib

from vga import lib
from vga import values as v
from vga.interp import HDict
from vga.spec import elev, i2w, ob, w2i
from vga.values import K, NONE, TRUE, ite, term

P = "aws.osml.photogrammetry."
R = P + "replacement_sensor_model."


def rpc():
    return importlib.import_module("spec_s01_rpc")


def poly(p, c, x, y, z):
    """RSMPCA order: x power varies fastest, then y, then z"""
    r, n = K(0), 0
    for k in range(p[2] + 1):
        for j in range(p[1] + 1):
            for i in range(p[0] + 1):
                r = r + c[n] * v.power(x, K(i)) * v.power(y, K(j)) * v.power(z, K(k))
                n += 1
    return r


def ncoef(p):
    return (p[0] + 1) * (p[1] + 1) * (p[2] + 1)


@ob("P02", "photogrammetry/replacement_sensor_model.py:RSMPolynomial", "trivariate polynomial with x fastest; wrong coefficient counts rejected")
def rsm_polynomial(a):
    shapes = [(0, 0, 0), (1, 1, 1), (1, 2, 3), (3, 1, 2), (2, 3, 0), (0, 4, 1), (5, 0, 2), (2, 0, 5)]
    if a.tier == "thorough":
        shapes = [(i, j, k) for i in range(6) for j in range(6) for k in range(6) if (i + j + k) % 2 == 0 or max(i, j, k) < 4]
    for p in shapes:
        st = a.state()
        c = [a.sym(f"c{i}") for i in range(ncoef(p))]
        w = a.syms("x y z")
        q = a.new(st, P + "RSMPolynomial", *p, a.lst(st, c))
        wc = a.new(st, P + "WorldCoordinate", a.lst(st, w))
        a.eq(st, a.m(st, q, "evaluate", wc), poly(p, c, *w), f"evaluate{p}")
        a.eq(st, a.call(st, q, wc), poly(p, c, *w), f"call{p}")
        a.never_raises(f"polynomial {p}")
        for n in (ncoef(p) - 1, ncoef(p) + 1):
            st = a.state()
            a.new(st, P + "RSMPolynomial", *p, a.lst(st, [a.sym(f"c{i}") for i in range(n)]))
            a.must_raise(st, ["ValueError"], TRUE, f"{n} coefficients for powers {p}")


LOW = ["", "x", "y", "z", "xx", "xy", "xz", "yy", "yz", "zz"]


def low(c, x, y, z):
    e = {"x": x, "y": y, "z": z}
    r = K(0)
    for ci, t in zip(c, LOW):
        m = ci
        for q in t:
            m = m * e[q]
        r = r + m
    return r


@ob("P02", "photogrammetry/replacement_sensor_model.py:RSMLowOrderPolynomial", "quadratic used to choose a section follows the RSMPIA term order")
def rsm_low_order(a):
    st = a.state()
    c = [a.sym(f"c{i}") for i in range(10)]
    w = a.syms("x y z")
    q = a.new(st, P + "RSMLowOrderPolynomial", a.lst(st, c))
    wc = a.new(st, P + "WorldCoordinate", a.lst(st, w))
    a.eq(st, a.m(st, q, "evaluate", wc), low(c, *w), "evaluate")
    a.eq(st, a.call(st, q, wc), low(c, *w), "call")
    a.never_raises("low order polynomial")
    for n in (9, 11):
        st = a.state()
        a.new(st, P + "RSMLowOrderPolynomial", a.lst(st, [a.sym(f"c{i}") for i in range(n)]))
        a.must_raise(st, ["ValueError"], TRUE, f"{n} coefficients")


FORMS = {"GEODETIC": "G", "GEODETIC_2PI": "H", "RECTANGULAR": "R"}


def ecef(a, st, g):
    f = a.call(st, a.get(P + "geodetic_to_geocentric"), a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, g)))
    return a.coord(st, f, 3)


def geodetic(a, st, e):
    f = a.call(st, a.get(P + "geocentric_to_geodetic"), a.new(st, P + "WorldCoordinate", a.lst(st, e)))
    return a.coord(st, f, 3)


class Dom:
    pass


def domain(a, st, form, grp=False, plane=False):
    d = Dom()
    d.form = form
    d.v = [[a.sym(f"v{i}{c}") for c in "xyz"] for i in range(8)]
    kw = {"ground_domain_form": a.get(P + "RSMGroundDomainForm." + form), "ground_domain_vertices": a.lst(st, [a.new(st, P + "WorldCoordinate", a.lst(st, q)) for q in d.v])}
    if form == "RECTANGULAR":
        d.o = a.syms("ox oy oz")
        d.u = [a.syms(f"u{r}x u{r}y u{r}z") for r in range(3)]
        kw["rectangular_coordinate_origin"] = a.new(st, P + "WorldCoordinate", a.lst(st, d.o))
        kw["rectangular_coordinate_unit_vectors"] = a.lst(st, [a.lst(st, r) for r in d.u])
    d.grp = None
    if grp:
        d.grp = a.syms("gx gy gz")
        kw["ground_reference_point"] = a.new(st, P + "WorldCoordinate", a.lst(st, d.grp))
    d.ref = a.new(st, P + "RSMGroundDomain", **kw)
    return d


def to_domain(a, st, d, g):
    if d.form == "RECTANGULAR":
        e = [x - o for x, o in zip(ecef(a, st, g), d.o)]
        return [r[0] * e[0] + r[1] * e[1] + r[2] * e[2] for r in d.u]
    if d.form == "GEODETIC_2PI":
        t = K(2) * v.PI
        return [g[0] - t * v.floor(g[0] / t), g[1], g[2]]
    return list(g)


def from_domain(a, st, d, w):
    if d.form == "RECTANGULAR":
        u = d.u
        det = lib.det([list(r) for r in u])
        sol = []
        for j in range(3):
            m = [[w[r] if c == j else u[r][c] for c in range(3)] for r in range(3)]
            sol.append(lib.det(m) / det)
        return geodetic(a, st, [s + o for s, o in zip(sol, d.o)])
    return list(w)


@ob("P02", "photogrammetry/replacement_sensor_model.py:RSMGroundDomain", "conversion between geodetic and ground-domain coordinates for each of the three domain forms")
def rsm_ground_domain(a):
    for form, code in FORMS.items():
        st = a.state()
        d = domain(a, st, form)
        g = a.syms("lon lat h")
        r = a.m(st, d.ref, "geodetic_to_ground_domain_coordinate", a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, g)))
        a.eq(st, a.coord(st, r, 3), to_domain(a, st, d, g), f"geodetic to {form}")
        w = a.syms("wx wy wz")
        r = a.m(st, d.ref, "ground_domain_coordinate_to_geodetic", a.new(st, P + "WorldCoordinate", a.lst(st, w)))
        a.eq(st, a.coord(st, r, 3), from_domain(a, st, d, w), f"{form} to geodetic")
        e = a.get(P + "RSMGroundDomainForm." + form)
        a.eq(st, a.attr(st, e, "value"), K(code), f"code of {form}")
        a.never_raises("ground domain " + form)


@ob("P02", "photogrammetry/replacement_sensor_model.py:RSMGroundDomain.__init__", "wrong number of vertices or an undefined rectangular system is rejected")
def rsm_ground_domain_bad(a):
    for n in (4, 7, 9):
        st = a.state()
        vs = a.lst(st, [a.new(st, P + "WorldCoordinate", a.lst(st, [a.sym(f"v{i}{c}") for c in "xyz"])) for i in range(n)])
        a.new(st, P + "RSMGroundDomain", a.get(P + "RSMGroundDomainForm.GEODETIC"), vs)
        a.must_raise(st, ["ValueError"], TRUE, f"{n} vertices")
    for part in ("origin", "vectors", "neither"):
        st = a.state()
        vs = a.lst(st, [a.new(st, P + "WorldCoordinate", a.lst(st, [a.sym(f"v{i}{c}") for c in "xyz"])) for i in range(8)])
        kw = {}
        if part == "origin":
            kw["rectangular_coordinate_origin"] = a.new(st, P + "WorldCoordinate", a.lst(st, a.syms("ox oy oz")))
        if part == "vectors":
            kw["rectangular_coordinate_unit_vectors"] = a.lst(st, [a.lst(st, a.syms(f"u{r}x u{r}y u{r}z")) for r in range(3)])
        a.new(st, P + "RSMGroundDomain", a.get(P + "RSMGroundDomainForm.RECTANGULAR"), vs, **kw)
        a.must_raise(st, ["ValueError"], TRUE, f"rectangular domain given {part}")


NORM = "row_norm_offset column_norm_offset x_norm_offset y_norm_offset z_norm_offset row_norm_scale column_norm_scale x_norm_scale y_norm_scale z_norm_scale".split()
PW = {"row_numerator_poly": (1, 2, 1), "row_denominator_poly": (1, 1, 1), "column_numerator_poly": (2, 1, 1), "column_denominator_poly": (1, 0, 1)}


def model(a, st, d):
    dom = a.new(st, P + "RSMImageDomain", *a.syms("min_row max_row min_col max_col"))
    ctx = a.new(st, P + "RSMContext", d.ref, dom)
    par = {n: a.sym(n) for n in NORM}
    co = {n: [a.sym(f"{n}.{i}") for i in range(ncoef(p))] for n, p in PW.items()}
    kw = dict(par)
    for n, p in PW.items():
        kw[n] = a.new(st, P + "RSMPolynomial", *p, a.lst(st, co[n]))
    m = a.new(st, P + "RSMPolynomialSensorModel", context=ctx, section_row=a.sym("srow", "i"), section_col=a.sym("scol", "i"), **kw)
    return m, par, co


def project(par, co, w):
    n = [(c - par[f"{q}_norm_offset"]) / par[f"{q}_norm_scale"] for c, q in zip(w, "xyz")]
    f = lambda k: poly(PW[k], co[k], *n)
    row = f("row_numerator_poly") / f("row_denominator_poly")
    col = f("column_numerator_poly") / f("column_denominator_poly")
    return [col * par["column_norm_scale"] + par["column_norm_offset"], row * par["row_norm_scale"] + par["row_norm_offset"]]


@ob("P02", "photogrammetry/replacement_sensor_model.py:RSMPolynomialSensorModel.world_to_image", "normalise, ratio of polynomials, denormalise, for every ground domain form")
def rsm_world_to_image(a):
    for form in FORMS:
        st = a.state()
        d = domain(a, st, form)
        m, par, co = model(a, st, d)
        g = a.syms("lon lat h")
        gc = a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, g))
        r = a.m(st, m, "world_to_image", gc)
        a.eq(st, a.coord(st, r, 2), project(par, co, to_domain(a, st, d, g)), f"image coordinate ({form})")
        a.eq(st, a.coord(st, gc, 3), g, f"caller's coordinate after the call ({form})")
        w = a.syms("wx wy wz")
        r = a.m(st, m, "ground_domain_to_image", a.new(st, P + "WorldCoordinate", a.lst(st, w)))
        a.eq(st, a.coord(st, r, 2), project(par, co, w), f"ground domain to image ({form})")
        t = a.syms("x y")
        ic = a.new(st, P + "ImageCoordinate", a.lst(st, t))
        nm = [(t[0] - par["column_norm_offset"]) / par["column_norm_scale"], (t[1] - par["row_norm_offset"]) / par["row_norm_scale"]]
        a.eq(st, a.coord(st, a.m(st, m, "normalize_image_coordinate", ic), 2), nm, "normalised image coordinate")
        wc = a.new(st, P + "WorldCoordinate", a.lst(st, w))
        dn = [c * par[f"{q}_norm_scale"] + par[f"{q}_norm_offset"] for c, q in zip(w, "xyz")]
        a.eq(st, a.coord(st, a.m(st, m, "denormalize_world_coordinate", wc), 3), dn, "denormalised world coordinate")
        a.never_raises("ground to image " + form)


def i2w_case(a, form, with_em, opts, grp=False):
    st = a.state()
    d = domain(a, st, form, grp)
    gv = [from_domain(a, st, d, q) for q in d.v]
    m, par, co = model(a, st, d)
    em = a.obj("terrain", P + "ElevationModel") if with_em else None
    t = a.syms("col row")
    ic = a.new(st, P + "ImageCoordinate", a.lst(st, t))
    guess = [(gv[0][0] + gv[3][0]) / 2, (gv[0][1] + gv[3][1]) / 2]
    dist = v.sqrt((gv[0][0] - gv[3][0]) ** 2 + (gv[0][1] - gv[3][1]) ** 2)
    kw = {}
    if opts:
        guess, dist = a.syms("g0 g1"), a.sym("dist")
        o = a.I.new(st, HDict({}))
        lib.setitem(a.I, o, a.get(P + "SensorModelOptions.INITIAL_GUESS"), a.lst(st, guess), st, None)
        lib.setitem(a.I, o, a.get(P + "SensorModelOptions.INITIAL_SEARCH_DISTANCE"), dist, st, None)
        kw["options"] = o
    if em is not None:
        kw["elevation_model"] = em
    r = a.m(st, m, "image_to_world", ic, **kw)
    if len(a.searches) != 1:
        a.never_raises("image to ground") and a.fail("search", f"{len(a.searches)} searches recorded, expected one", undecided=True)
        return
    s = a.searches[0]
    if grp:
        height = from_domain(a, st, d, d.grp)[2]
    else:
        height = K(0)
        for q in gv:
            height = height + q[2]
        height = height / 8
    ext = lambda n, i: a.call(st, v.Ext("builtins." + n), a.lst(st, [q[i] for q in gv]))
    bounds = [ext("min", 0), ext("max", 0), ext("min", 1), ext("max", 1)]
    rpc().check_search(a, st, s, lambda x, y, h: project(par, co, to_domain(a, s.state, d, [x, y, h])), em, height, t, guess, dist, bounds)
    x, y = v.sym("argmin0.x"), v.sym("argmin0.y")
    h = height if em is None else elev(em, x, y, height)
    a.eq(st, a.coord(st, r, 3), [x, y, h], "geodetic result")
    a.never_raises("image to ground")


@ob("P06 P07", "photogrammetry/replacement_sensor_model.py:RSMPolynomialSensorModel.image_to_world", "search objective, start, size, bounds and result (geodetic domain, no terrain)")
def rsm_i2w_geodetic(a):
    i2w_case(a, "GEODETIC", False, False)


@ob("P06 P07", "photogrammetry/replacement_sensor_model.py:RSMPolynomialSensorModel.image_to_world", "search over terrain (2-pi geodetic domain, caller options)")
def rsm_i2w_2pi(a):
    i2w_case(a, "GEODETIC_2PI", True, True)


@ob("P06 P07", "photogrammetry/replacement_sensor_model.py:RSMPolynomialSensorModel.image_to_world", "search (rectangular domain with ground reference point)")
def rsm_i2w_rectangular(a):
    i2w_case(a, "RECTANGULAR", True, False, grp=True)


def clamp_index(q, lo, size, n):
    i = v.floor((q - lo) / size)
    return ite(v.lt(i, 0), K(0), ite(v.ge(i, n), K(n - 1), i))


def pick(r, c, rows, cols, f):
    out = f(rows - 1, cols - 1)
    for i in range(rows):
        for j in range(cols):
            out = ite(v.b_and(v.veq(r, K(i)), v.veq(c, K(j))), f(i, j), out)
    return out


@ob("P02 P07", "photogrammetry/replacement_sensor_model.py:RSMSectionedPolynomialSensorModel", "the section containing the pixel (clamped to the grid) answers, with elevation model and options passed on")
def rsm_sections(a):
    rows, cols = 2, 3
    for form in ("GEODETIC", "RECTANGULAR"):
        st = a.state(flags=("gateidx",))
        d = domain(a, st, form)
        mr, mc = a.syms("min_row min_col")
        dom = a.new(st, P + "RSMImageDomain", mr, a.sym("max_row"), mc, a.sym("max_col"))
        ctx = a.new(st, P + "RSMContext", d.ref, dom)
        rs, cs = a.syms("rsize csize")
        rc = [a.sym(f"r{i}") for i in range(10)]
        cc = [a.sym(f"c{i}") for i in range(10)]
        sec = [[a.obj(f"section{i}{j}", P + "SensorModel") for j in range(cols)] for i in range(rows)]
        lo = lambda c: a.new(st, P + "RSMLowOrderPolynomial", a.lst(st, c))
        m = a.new(st, P + "RSMSectionedPolynomialSensorModel", ctx, rows, cols, rs, cs, lo(rc), lo(cc), a.lst(st, [a.lst(st, r) for r in sec]))
        t = a.syms("x y")
        em, op = a.obj("terrain", P + "ElevationModel"), a.sym("options", "?")
        r = a.m(st, m, "image_to_world", a.new(st, P + "ImageCoordinate", a.lst(st, t)), em, op)
        ri, ci = clamp_index(t[1], mr, rs, rows), clamp_index(t[0], mc, cs, cols)
        want = [pick(ri, ci, rows, cols, lambda i, j, k=k: i2w(sec[i][j], *t, em, op)[k]) for k in range(3)]
        a.eq(st, a.coord(st, r, 3), want, f"image_to_world ({form})")
        a.never_raises("sectioned image to ground")
        st = a.state(flags=("gateidx",))
        d = domain(a, st, form)
        ctx = a.new(st, P + "RSMContext", d.ref, a.new(st, P + "RSMImageDomain", mr, a.sym("max_row"), mc, a.sym("max_col")))
        m = a.new(st, P + "RSMSectionedPolynomialSensorModel", ctx, rows, cols, rs, cs, lo(rc), lo(cc), a.lst(st, [a.lst(st, r) for r in sec]))
        g = a.syms("lon lat h")
        r = a.m(st, m, "world_to_image", a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, g)))
        w = to_domain(a, st, d, g)
        ri, ci = clamp_index(low(rc, *w), mr, rs, rows), clamp_index(low(cc, *w), mc, cs, cols)
        want = [pick(ri, ci, rows, cols, lambda i, j, k=k: w2i(sec[i][j], g)[k]) for k in range(2)]
        a.eq(st, a.coord(st, r, 2), want, f"world_to_image ({form})")
        a.never_raises("sectioned ground to image")
