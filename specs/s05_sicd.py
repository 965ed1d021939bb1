"""SICD/SIDD geometry: coordinate conversion, range/range-rate sets, surface projections and the sensor model."""
from vga import values as v
from vga.spec import elev, ob
from vga.values import K, NONE, TRUE, ite, term

P = "aws.osml.photogrammetry."
S = P + "sicd_sensor_model."
NP1 = "numpy.polynomial.Polynomial"


# ---------------------------------------------------------------- vector algebra of the reference
def dot(p, q):
    r = K(0)
    for x, y in zip(p, q):
        r = r + x * y
    return r


def cross(p, q):
    return [p[(i + 1) % 3] * q[(i + 2) % 3] - p[(i + 2) % 3] * q[(i + 1) % 3] for i in range(3)]


def norm(p):
    return v.sqrt(dot(p, p))


def plus(*ps):
    r = [K(0)] * len(ps[0])
    for p in ps:
        r = [x + y for x, y in zip(r, p)]
    return r


def times(k, p):
    return [k * x for x in p]


def minus(p, q):
    return [x - y for x, y in zip(p, q)]


def unit(p):
    n = norm(p)
    return [x / n for x in p]


def horner(cs, t):
    r = K(0)
    for i, c in enumerate(cs):
        r = r + c * v.power(t, K(i))
    return r


def dpoly(cs):
    return [K(i) * c for i, c in enumerate(cs)][1:]


def poly2(cs, x, y):
    r = K(0)
    for i, row in enumerate(cs):
        for j, c in enumerate(row):
            r = r + c * v.power(x, K(i)) * v.power(y, K(j))
    return r


# ---------------------------------------------------------------- building inputs
def vec(a, n):
    return a.syms(f"{n}x {n}y {n}z")


def world(a, st, e):
    return a.new(st, P + "WorldCoordinate", a.lst(st, e))


def np_poly(a, st, cs):
    from vga.values import Ext

    return a.call(st, Ext(NP1), a.arr(st, cs))


class Geo:
    """symbolic collection geometry shared by the projection sets"""


def geometry(a, st, n=3, biased=True):
    g = Geo()
    g.scp = vec(a, "scp")
    g.urow, g.ucol = vec(a, "ur"), vec(a, "uc")
    g.tc = [[a.sym(f"t{i}{j}") for j in range(2)] for i in range(2)]
    g.arp = [[a.sym(f"arp{c}{i}") for i in range(n)] for c in "xyz"]
    g.scp_ref = world(a, st, g.scp)
    g.time_poly = a.new(st, S + "Polynomial2D", a.lst(st, [list(r) for r in g.tc]))
    g.arp_poly = a.new(st, S + "PolynomialXYZ", *[np_poly(a, st, c) for c in g.arp])
    g.kw = {"coa_time_poly": g.time_poly, "arp_poly": g.arp_poly}
    if biased:
        g.da, g.dv, g.rb = vec(a, "da"), vec(a, "dv"), a.sym("rb")
        g.kw.update(delta_arp=a.arr(st, g.da), delta_varp=a.arr(st, g.dv), range_bias=g.rb)
    else:
        g.da = g.dv = [K(0)] * 3
        g.rb = K(0)
    return g


def arp_at(g, t):
    return [horner(c, t) for c in g.arp], [horner(dpoly(c), t) for c in g.arp]


def rrdot(g, x, y, grid):
    t = poly2(g.tc, x, y)
    p, q = arp_at(g, t)
    r, rd = grid(g, x, y, t, p, q)
    return r + g.rb, rd, t, plus(p, g.da), plus(q, g.dv)


# the five grid types of the SICD projections volume
def grid_pfa(a, st, g):
    g.pa, g.sf = a.syms("pa0 pa1 pa2"), a.syms("sf0 sf1 sf2")
    ref = a.new(st, S + "PFAProjectionSet", scp_ecf=g.scp_ref, polar_ang_poly=np_poly(a, st, g.pa), spatial_freq_sf_poly=np_poly(a, st, g.sf), **g.kw)

    def f(g, x, y, t, p, q):
        d = minus(p, g.scp)
        r0 = norm(d)
        th, dth = horner(g.pa, t), horner(dpoly(g.pa), t)
        k, dk = horner(g.sf, th), horner(dpoly(g.sf), th)
        c, s = v.cos(th), v.sin(th)
        ka, kc = x * c + y * s, y * c - x * s
        return r0 + k * ka, dot(q, d) / r0 + (dk * ka + k * kc) * dth

    return ref, f


def grid_rgaz(a, st, g):
    az = a.sym("az")
    ref = a.new(st, S + "RGAZCOMPProjectionSet", scp_ecf=g.scp_ref, az_scale_factor=az, **g.kw)

    def f(g, x, y, t, p, q):
        d = minus(p, g.scp)
        r0 = norm(d)
        return r0 + x, dot(q, d) / r0 - norm(q) * az * y

    return ref, f


def grid_inca(a, st, g):
    rca, tp = a.sym("rca"), a.syms("tp0 tp1 tp2")
    dr = [[a.sym(f"dr{i}{j}") for j in range(3)] for i in range(2)]
    ref = a.new(st, S + "INCAProjectionSet", r_ca_scp=rca, inca_time_coa_poly=np_poly(a, st, tp), drate_sf_poly=a.new(st, S + "Polynomial2D", a.lst(st, [list(r) for r in dr])), **g.kw)

    def f(g, x, y, t, p, q):
        tca = horner(tp, y)
        _, vca = arp_at(g, tca)
        rate = poly2(dr, x, y)
        dt = t - tca
        vv = dot(vca, vca)
        r = v.sqrt((rca + x) * (rca + x) + rate * vv * dt * dt)
        return r, rate * vv * dt / r

    return ref, f


def grid_plane(a, st, g):
    ref = a.new(st, S + "PlaneProjectionSet", scp_ecf=g.scp_ref, image_plane_urow=a.arr(st, g.urow), image_plane_ucol=a.arr(st, g.ucol), **g.kw)

    def f(g, x, y, t, p, q):
        d = minus(p, plus(g.scp, times(x, g.urow), times(y, g.ucol)))
        r = norm(d)
        return r, dot(q, d) / r

    return ref, f


GRIDS = {"PFA": grid_pfa, "RGAZCOMP": grid_rgaz, "INCA": grid_inca, "PLANE": grid_plane}


@ob("P03", "photogrammetry/sicd_sensor_model.py:Polynomial2D/PolynomialXYZ", "polynomials are sums of coefficient times powers, with the first index on the row coordinate; derivatives are exact; bad shapes rejected")
def sicd_polynomials(a):
    for m, n in ((1, 1), (2, 3), (4, 2)):
        st = a.state()
        c = [[a.sym(f"c{i}{j}") for j in range(n)] for i in range(m)]
        x, y = a.syms("x y")
        q = a.new(st, S + "Polynomial2D", a.lst(st, [list(r) for r in c]))
        a.eq(st, a.call(st, q, x, y), poly2(c, x, y), f"polynomial of shape {m}x{n}")
    st = a.state()
    a.new(st, S + "Polynomial2D", a.lst(st, a.syms("p q r")))
    a.must_raise(st, ["ValueError"], TRUE, "one-dimensional coefficients")
    st = a.state()
    cs = [[a.sym(f"k{c}{i}") for i in range(4)] for c in "xyz"]
    t = a.sym("t")
    p = a.new(st, S + "PolynomialXYZ", *[np_poly(a, st, c) for c in cs])
    a.eq(st, a.call(st, p, t), [horner(c, t) for c in cs], "position")
    a.eq(st, a.call(st, a.m(st, p, "deriv"), t), [horner(dpoly(c), t) for c in cs], "first derivative")
    a.eq(st, a.call(st, a.m(st, p, "deriv", m=2), t), [horner(dpoly(dpoly(c)), t) for c in cs], "second derivative")


@ob("P03", "photogrammetry/sicd_sensor_model.py:SARImageCoordConverter", "row/column, slant-plane metre and image-plane-point coordinates convert by the published formulas, and each pair is mutually inverse")
def sicd_converter(a):
    st = a.state()
    g = geometry(a, st)
    sx, sy, rs, cs, fx, fy = a.syms("sx sy rs cs fx fy")
    cc = a.new(st, S + "SARImageCoordConverter", scp_pixel=a.new(st, P + "ImageCoordinate", a.lst(st, [sx, sy])), scp_ecf=g.scp_ref, u_row=a.arr(st, g.urow), u_col=a.arr(st, g.ucol), row_ss=rs, col_ss=cs, first_pixel=a.new(st, P + "ImageCoordinate", a.lst(st, [fx, fy])))
    r, c = a.syms("r c")
    xy = a.m(st, cc, "rowcol_to_xrowycol", a.arr(st, [r, c]))
    a.eq(st, xy, [(r - sy) * rs, (c - sx) * cs], "row/column to metres")
    a.eq(st, a.m(st, cc, "xrowycol_to_rowcol", xy), [r, c], "metres back to row/column")
    x, y = a.syms("x y")
    ipp = a.m(st, cc, "xrowycol_to_ipp", a.arr(st, [x, y]))
    a.eq(st, ipp, plus(g.scp, times(x, g.urow), times(y, g.ucol)), "metres to image plane point")
    p = vec(a, "p")
    d = minus(p, g.scp)
    k = dot(g.urow, g.ucol)
    s2 = K(1) - k * k
    a.eq(st, a.m(st, cc, "ipp_to_xrowycol", a.arr(st, p)), [(dot(d, g.urow) - k * dot(d, g.ucol)) / s2, (dot(d, g.ucol) - k * dot(d, g.urow)) / s2], "image plane point to metres")
    a.never_raises("coordinate conversion")


def _grid(kind):
    def run(a):
        for biased in (True, False):
            st = a.state()
            g = geometry(a, st, biased=biased)
            ref, f = GRIDS[kind](a, st, g)
            x, y = a.syms("x y")
            got = a.comps(st, a.m(st, ref, "precise_rrdot_computation", a.arr(st, [x, y])), 5)
            exp = rrdot(g, x, y, f)
            for q, e, n in zip(got, exp, ("range", "range rate", "time", "position", "velocity")):
                a.eq(st, q, e, f"{kind} {n}")
            # the same set asked twice answers the same (no state carried between pixels)
            again = a.comps(st, a.m(st, ref, "precise_rrdot_computation", a.arr(st, [x, y])), 5)
            for q, e, n in zip(again, exp, ("range", "range rate", "time", "position", "velocity")):
                a.eq(st, q, e, f"{kind} {n} on a second call")
            a.never_raises(f"{kind} projection")

    return run


@ob("P03", "photogrammetry/sicd_sensor_model.py:PFAProjectionSet", "polar format range and range rate at the centre of aperture, with position, velocity and range bias added afterwards")
def sicd_pfa(a):
    _grid("PFA")(a)


@ob("P03", "photogrammetry/sicd_sensor_model.py:RGAZCOMPProjectionSet", "range/azimuth compressed range and range rate")
def sicd_rgazcomp(a):
    _grid("RGAZCOMP")(a)


@ob("P03", "photogrammetry/sicd_sensor_model.py:INCAProjectionSet", "closest-approach range and range rate")
def sicd_inca(a):
    _grid("INCA")(a)


@ob("P03", "photogrammetry/sicd_sensor_model.py:PlaneProjectionSet", "planar grid range and range rate")
def sicd_plane(a):
    _grid("PLANE")(a)


# ---------------------------------------------------------------- surfaces
def normal_at(g):
    """ellipsoid normal at a geodetic point"""
    return [v.cos(g[1]) * v.cos(g[0]), v.cos(g[1]) * v.sin(g[0]), v.sin(g[1])]


def to_geo(a, st, e):
    return a.coord(st, a.call(st, a.get(P + "geocentric_to_geodetic"), world(a, st, e)), 3)


def to_ecf(a, st, g):
    return a.coord(st, a.call(st, a.get(P + "geodetic_to_geocentric"), a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, g))), 3)


def ground_plane(ref, uz, r, rd, arp, varp):
    """returns the plane point and the condition under which a solution exists"""
    d = minus(arp, ref)
    az = dot(d, uz)
    gd = v.sqrt(r * r - az * az)
    vz = dot(varp, uz)
    vx = v.sqrt(dot(varp, varp) - vz * vz)
    ux = [(p - vz * z) / vx for p, z in zip(varp, uz)]
    uy = cross(uz, ux)
    cosaz = (vz * az / r - rd) / (vx * gd / r)
    look = v.sign(dot(cross(d, varp), uz))
    sinaz = look * v.sqrt(K(1) - cosaz * cosaz)
    pt = plus(minus(arp, times(az, uz)), times(gd * cosaz, ux), times(gd * sinaz, uy))
    ok = v.b_and(v.b_not(v.lt(r, az)), v.b_not(v.lt(K(1), v.vabs(cosaz))))
    return pt, ok


@ob("P03", "photogrammetry/sicd_sensor_model.py:GroundPlaneRRDotSurfaceProjection", "the point of the range/range-rate contour on the ground plane, on the side of the reference point; unsolvable geometry is an error")
def sicd_ground_plane(a):
    GT = S + "GroundPlaneRRDotSurfaceProjection.GroundPlaneNormalType."
    for kind in ("given", "SPHERICAL_EARTH", "GEODETIC_EARTH", "default"):
        st = a.state()
        ref = vec(a, "ref")
        rr = world(a, st, ref)
        if kind == "given":
            n = vec(a, "gn")
            s = a.new(st, S + "GroundPlaneRRDotSurfaceProjection", rr, a.arr(st, n))
            uz = unit(n)
        elif kind == "SPHERICAL_EARTH":
            s = a.new(st, S + "GroundPlaneRRDotSurfaceProjection", rr, None, a.get(GT + kind))
            uz = unit(ref)
        else:
            s = a.new(st, S + "GroundPlaneRRDotSurfaceProjection", rr, None, *([a.get(GT + kind)] if kind != "default" else []))
            uz = normal_at(to_geo(a, st, ref))
        arp, varp = vec(a, "arp"), vec(a, "varp")
        r, rd = a.syms("r rd")
        got = a.m(st, s, "rrdot_to_ground", r, rd, a.arr(st, arp), a.arr(st, varp))
        pt, ok = ground_plane(ref, uz, r, rd, arp, varp)
        if got is not None:
            rows = a.comps(st, got, 1)
            a.eq(st, rows[0], pt, f"ground plane point ({kind} normal)")
        else:
            a._no_value("ground plane point", st)
        a.must_raise(st, ["ValueError"], v.b_not(ok), f"no solution ({kind} normal)")


def hae_point(a, st, scp, look, hae, thr, nmax, r, rd, arp, varp):
    g0 = to_geo(a, st, scp)
    u = normal_at(g0)
    ref = plus(scp, times(hae - g0[2], u))
    res, live = [], TRUE
    solvable = TRUE
    for n in range(1, nmax + 1):
        pt, ok = ground_plane(ref, unit(u), r, rd, arp, varp)
        solvable = v.b_and(solvable, v.b_or(v.b_not(live), ok))
        gl = to_geo(a, st, pt)
        up = normal_at(gl)
        dh = gl[2] - hae
        done = TRUE if n == nmax else v.le(dh, thr)
        res.append((v.b_and(live, done), pt, up, dh))
        live = v.b_and(live, v.b_not(done))
        ref, u = minus(pt, times(dh, up)), up
    final = None
    for g, pt, up, dh in reversed(res):
        spn = cross(times(look, varp), minus(pt, arp))
        us = unit(spn)
        slp = minus(pt, times(dh / dot(up, us), us))
        sl = to_geo(a, st, slp)
        out = to_ecf(a, st, [sl[0], sl[1], hae])
        final = out if final is None else [ite(g, x, y) for x, y in zip(out, final)]
    return final, solvable


@ob("P03", "photogrammetry/sicd_sensor_model.py:HAERRDotSurfaceProjection", "the contour point at a constant height above the ellipsoid by the published iteration, for each side of track")
def sicd_hae(a):
    for side, look, kw in (("L", 1, {}), ("R", -1, {}), ("R", -1, {"height_threshold": 0.25, "max_number_iterations": 2})):
        st = a.state()
        scp = vec(a, "scp")
        h = a.sym("hae")
        s = a.new(st, S + "HAERRDotSurfaceProjection", scp_ecf=world(a, st, scp), side_of_track=side, hae=h, **kw)
        arp, varp = vec(a, "arp"), vec(a, "varp")
        r, rd = a.syms("r rd")
        got = a.m(st, s, "rrdot_to_ground", r, rd, a.arr(st, arp), a.arr(st, varp))
        exp, ok = hae_point(a, st, scp, K(look), h, K(kw.get("height_threshold", 1)), kw.get("max_number_iterations", 3), r, rd, arp, varp)
        a.eq(st, a.comps(st, got, 1)[0] if got is not None else None, exp, f"constant height point, side {side}")


# ---------------------------------------------------------------- the sensor model
def converter(a, st, g, first=True):
    g.spx, g.spy, g.rs, g.cs = a.syms("spx spy rs cs")
    kw = {}
    g.fx, g.fy = (a.syms("fx fy") if first else (K(0), K(0)))
    if first:
        kw["first_pixel"] = a.new(st, P + "ImageCoordinate", a.lst(st, [g.fx, g.fy]))
    return a.new(st, S + "SARImageCoordConverter", scp_pixel=a.new(st, P + "ImageCoordinate", a.lst(st, [g.spx, g.spy])), scp_ecf=g.scp_ref, u_row=a.arr(st, g.urow), u_col=a.arr(st, g.ucol), row_ss=g.rs, col_ss=g.cs, **kw)


def model(a, st, g, side="L", gpn=True, grid="PLANE", first=True):
    cc = converter(a, st, g, first)
    ps, f = GRIDS[grid](a, st, g)
    g.spn = vec(a, "spn")
    g.gpn = vec(a, "gpn") if gpn else None
    g.f = f
    return a.new(st, S + "SICDSensorModel", coord_converter=cc, coa_projection_set=ps, u_spn=a.arr(st, g.spn), side_of_track=side, **({"u_gpn": a.arr(st, g.gpn)} if gpn else {}))


@ob("P03", "photogrammetry/sicd_sensor_model.py:SICDSensorModel.image_to_world", "without terrain the pixel is projected to the default ground plane through the scene centre, counted from the first pixel")
def sicd_image_to_world(a):
    for gpn, grid in ((True, "PLANE"), (False, "RGAZCOMP")):
        st = a.state()
        g = geometry(a, st)
        m = model(a, st, g, gpn=gpn, grid=grid)
        x, y = a.syms("x y")
        got = a.m(st, m, "image_to_world", a.new(st, P + "ImageCoordinate", a.lst(st, [x, y])))
        r, rd, t, p, q = rrdot(g, (y + g.fy - g.spy) * g.rs, (x + g.fx - g.spx) * g.cs, g.f)
        uz = unit(g.gpn) if gpn else normal_at(to_geo(a, st, g.scp))
        pt, ok = ground_plane(g.scp, uz, r, rd, p, q)
        a.eq(st, a.coord(st, got, 3), to_geo(a, st, pt), f"image to world ({grid})")


@ob("P03", "photogrammetry/sicd_sensor_model.py:SICDSensorModel.world_to_image", "fixed-point iteration of the projections volume: start at the scene point, project to the image plane along the slant normal, correct by the ground residual, stop at 1 cm or ten rounds")
def sicd_world_to_image(a):
    st = a.state()
    g = geometry(a, st, n=2, biased=False)
    m = model(a, st, g)
    w = a.syms("lon lat h")
    got = a.m(st, m, "world_to_image", a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, w)))
    s = to_ecf(a, st, w)
    ipn = unit(cross(g.urow, g.ucol))
    sf = dot(g.spn, ipn)
    k = dot(g.urow, g.ucol)
    s2 = K(1) - k * k
    uz = unit(g.gpn)
    gn = s
    res = []
    for n in range(1, 11):
        dist = dot(minus(g.scp, gn), ipn) / sf
        i = plus(gn, times(dist, g.spn))
        d = minus(i, g.scp)
        x, y = (dot(d, g.urow) - k * dot(d, g.ucol)) / s2, (dot(d, g.ucol) - k * dot(d, g.urow)) / s2
        r, rd, t, p, q = rrdot(g, x, y, g.f)
        pt, ok = ground_plane(g.scp, uz, r, rd, p, q)
        df = minus(s, pt)
        more = v.lt(v.lift_const(0.01), norm(df)) if n < 10 else v.FALSE
        res.append((more, [y / g.cs + g.spx - g.fx, x / g.rs + g.spy - g.fy]))
        gn = plus(gn, df)
    exp = res[-1][1]
    for more, xy in reversed(res[:-1]):
        exp = [ite(more, e, q) for e, q in zip(exp, xy)]
    a.eq(st, a.coord(st, got, 2), exp, "world to image")


@ob("P03", "photogrammetry/sicd_sensor_model.py:SICDSensorModel.compute_u_spn/compute_u_gpn", "slant-plane normal oriented by side of track, ground-plane normal oriented away from the earth's centre")
def sicd_normals(a):
    for side, k in (("L", 1), ("R", -1)):
        st = a.state()
        scp, arp, varp = vec(a, "scp"), vec(a, "arp"), vec(a, "varp")
        got = a.call(st, a.get(S + "SICDSensorModel.compute_u_spn"), world(a, st, scp), a.arr(st, arp), a.arr(st, varp), side)
        a.eq(st, got, times(K(k), unit(cross(varp, minus(scp, arp)))), f"slant plane normal, side {side}")
    st = a.state()
    scp, ur, uc = vec(a, "scp"), vec(a, "ur"), vec(a, "uc")
    got = a.call(st, a.get(S + "SICDSensorModel.compute_u_gpn"), world(a, st, scp), a.arr(st, ur), a.arr(st, uc))
    n = unit(cross(ur, uc))
    neg = v.lt(dot(n, scp), K(0))
    a.eq(st, got, [ite(neg, -q, q) for q in n], "ground plane normal")


def dem_contour(a, st, side, em, scp, r, rd, arp, varp, npts, step=10, thr=0.001):
    """(condition, point) for each terrain crossing of npts contour samples, in order"""
    look = K(-1 if side == "R" else 1)
    lle = to_geo(a, st, scp)
    summ = a.m(st, em, "describe_region", a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, lle)))
    hmin, hmax, post = [a.attr(st, summ, n) for n in ("min_elevation", "max_elevation", "post_spacing")]
    vm = norm(varp)
    uv = unit(varp)
    cdca = -rd / vm
    sdca = v.sqrt(K(1) - cdca * cdca)
    ctr = plus(arp, times(r * cdca, uv))
    rrrc = r * sdca
    ury = unit(cross(unit(arp), uv))
    urx = cross(ury, uv)
    pa, ok1 = hae_point(a, st, scp, look, hmax, K(1), 3, r, rd, arp, varp)
    pb, ok2 = hae_point(a, st, scp, look, hmin, K(1), 3, r, rd, arp, varp)
    ca = dot(minus(pa, ctr), urx) / rrrc
    cb = dot(minus(pb, ctr), urx) / rrrc
    sb = v.vabs(look * v.sqrt(K(1) - cb * cb))
    dc = -v.vmin(v.lift_const(step) * sb / rrrc, (post / K(2)) * (sb / cb) / rrrc)
    n = v.floor((ca - cb) / dc) + K(2)

    def at(k):
        c = cb + k * dc
        return plus(ctr, times(rrrc, plus(times(c, urx), times(look * v.sqrt(K(1) - c * c), ury))))

    out = []
    t = v.lift_const(thr)
    prev = None
    for i in range(npts):
        p = at(K(i))
        g = to_geo(a, st, p)
        dh = g[2] - elev(em, *g)
        on = v.lt(v.vabs(dh), t)
        above = v.b_and(v.b_not(on), v.lt(t, dh))
        below = v.b_and(v.b_not(on), v.b_not(v.lt(t, dh)))
        out.append((on, p))
        if prev is not None:
            pab, pbe, pdh = prev
            cross_ = v.b_or(v.b_and(pab, below), v.b_and(pbe, above))
            out.append((cross_, at(K(i - 1) + pdh / (pdh - dh))))
        prev = above, below, dh
    return n, out, v.b_and(ok1, ok2)


@ob("P03 P07", "photogrammetry/sicd_sensor_model.py:DEMRRDotSurfaceProjection", "with terrain, the contour between the highest and lowest terrain is sampled and the first crossing of the elevation surface is the answer (2 and 3 samples)")
def sicd_dem(a):
    for side, npts in (("L", 2), ("R", 3)):
        st = a.state(flags=[f"count={npts}"])
        scp = vec(a, "scp")
        em = a.obj("em", P + "elevation_model.ElevationModel")
        s = a.new(st, S + "DEMRRDotSurfaceProjection", world(a, st, scp), side, em)
        arp, varp = vec(a, "arp"), vec(a, "varp")
        r, rd = a.syms("r rd")
        got = a.m(st, s, "rrdot_to_ground", r, rd, a.arr(st, arp), a.arr(st, varp))
        n, pts, ok = dem_contour(a, st, side, em, scp, r, rd, arp, varp, npts)
        if got is None:
            a._no_value("terrain intersection", st)
            continue
        pc = st.pc
        # the first reported point
        first = None
        some = v.FALSE
        for g, p in reversed(pts):
            first = p if first is None else [ite(g, x, y) for x, y in zip(p, first)]
            some = v.b_or(some, g)
        a.check(v.simplify(v.veq(n, K(npts)), pc) is TRUE, "number of contour samples", "the number of samples is not floor((cos a - cos b) / step) + 2")
        row = a.comps(st, lst_first(a, st, got), 3)
        a.eq(st, row, first, f"first terrain crossing, side {side}, {npts} samples", care=v.b_and(v.b_and(pc, some), ok))


def lst_first(a, st, x):
    from vga import lib

    try:
        return lib.getitem(a.I, x, K(0), st, None)
    except Exception:
        return x


@ob("P03 P07", "photogrammetry/sicd_sensor_model.py:SICDSensorModel.image_to_world (elevation model)", "with an elevation model the answer is the first terrain crossing of that pixel's contour, using the model's scene centre and side of track")
def sicd_image_to_world_dem(a):
    for side in ("L", "R"):
        st = a.state(flags=["count=2"])
        g = geometry(a, st)
        m = model(a, st, g, side=side, grid="RGAZCOMP")
        em = a.obj("em", P + "elevation_model.ElevationModel")
        x, y = a.syms("x y")
        got = a.m(st, m, "image_to_world", a.new(st, P + "ImageCoordinate", a.lst(st, [x, y])), em)
        pc = st.pc
        r, rd, t, p, q = rrdot(g, (y + g.fy - g.spy) * g.rs, (x + g.fx - g.spx) * g.cs, g.f)
        n, pts, ok = dem_contour(a, st, side, em, g.scp, r, rd, p, q, 2)
        first, some = None, v.FALSE
        for c, pt in reversed(pts):
            e = to_geo(a, st, pt)
            first = e if first is None else [ite(c, i, j) for i, j in zip(e, first)]
            some = v.b_or(some, c)
        a.eq(st, a.coord(st, got, 3), first, f"terrain crossing, side {side}", care=v.b_and(v.b_and(pc, some), ok))
