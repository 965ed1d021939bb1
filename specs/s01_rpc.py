"""RPC sensor model: RPC00B ground-to-image functions and the image-to-ground search."""
from vga import values as v
from vga.spec import elev, ob
from vga.values import K, NONE, TRUE

P = "aws.osml.photogrammetry."

# RPC00B term order (NITF STDI-0002 appendix E): monomials in L (lon), P (lat), H (height)
TERMS = ["", "L", "P", "H", "LP", "LH", "PH", "LL", "PP", "HH", "LPH", "LLL", "LPP", "LHH", "LLP", "PPP", "PHH", "LLH", "PPH", "HHH"]


def poly(c, L, Pv, H):
    env = {"L": L, "P": Pv, "H": H}
    r = K(0)
    for ci, t in zip(c, TERMS):
        m = ci
        for q in t:
            m = m * env[q]
        r = r + m
    return r


NAMES = "err_bias err_rand line_off samp_off lat_off long_off height_off line_scale samp_scale lat_scale long_scale height_scale".split()
POLYS = "line_num_poly line_den_poly samp_num_poly samp_den_poly".split()


def build(a, st):
    par = {n: a.sym(n) for n in NAMES}
    co = {n: [a.sym(f"{n}.{i}") for i in range(20)] for n in POLYS}
    kw = dict(par)
    for n in POLYS:
        kw[n] = a.new(st, P + "RPCPolynomial", a.lst(st, co[n]))
    return a.new(st, P + "RPCSensorModel", **kw), par, co


def reference(par, co, lon, lat, h):
    L = (v.degrees(lon) - par["long_off"]) / par["long_scale"]
    Pv = (v.degrees(lat) - par["lat_off"]) / par["lat_scale"]
    H = (h - par["height_off"]) / par["height_scale"]
    r = poly(co["line_num_poly"], L, Pv, H) / poly(co["line_den_poly"], L, Pv, H)
    c = poly(co["samp_num_poly"], L, Pv, H) / poly(co["samp_den_poly"], L, Pv, H)
    return [c * par["samp_scale"] + par["samp_off"], r * par["line_scale"] + par["line_off"]]


@ob("P01", "photogrammetry/rpc_sensor_model.py:RPCSensorModel.world_to_image", "ground-to-image value graph equals the RPC00B rational cubic")
def rpc_world_to_image(a):
    st = a.state()
    m, par, co = build(a, st)
    g = a.syms("lon lat h")
    r = a.m(st, m, "world_to_image", a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, g)))
    a.eq(st, a.coord(st, r, 2), reference(par, co, *g), "image coordinate")
    a.eq(st, [a.attr(st, r, "x"), a.attr(st, r, "y")], reference(par, co, *g), "(x, y)")
    a.never_raises("ground to image")


@ob("P01", "photogrammetry/rpc_sensor_model.py:RPCPolynomial", "polynomial evaluation, by method and by call, is the 20-term RPC00B cubic")
def rpc_polynomial(a):
    st = a.state()
    c = [a.sym(f"c{i}") for i in range(20)]
    w = a.syms("x y z")
    p = a.new(st, P + "RPCPolynomial", a.lst(st, c))
    wc = a.new(st, P + "WorldCoordinate", a.lst(st, w))
    a.eq(st, a.m(st, p, "evaluate", wc), poly(c, *w), "evaluate")
    a.eq(st, a.call(st, p, wc), poly(c, *w), "call")


def triangle(cx, cy, d):
    s3 = v.sqrt(K(3))
    return [[cx, cy + d * s3 / 3], [cx - d / 2, cy - d * s3 / 6], [cx + d / 2, cy - d * s3 / 6]]


def check_search(a, st, s, ref, em, height, target, guess, dist, bounds=None):
    """the recorded search minimises the pixel distance to the target over lon/lat on the surface"""
    x, y = s.point
    h = height if em is None else elev(em, x, y, height)
    pr = ref(x, y, h)
    want = v.sqrt((target[0] - pr[0]) ** 2 + (target[1] - pr[1]) ** 2)
    a.eq(s.state, s.objective, want, "search objective")
    a.eq(st, s.x0, guess, "search starting point")
    if s.simplex is not None:
        a.eq(st, [q for p in s.simplex for q in p], [q for p in triangle(guess[0], guess[1], dist) for q in p], "initial simplex")
    else:
        a.fail("initial simplex", "the search is started without the simplex sized by the search distance", [s.where])
    if s.bounds is not None or bounds is not None:
        if s.bounds is not None and bounds is not None:
            a.eq(st, s.bounds, bounds, "search bounds")
        elif s.bounds is not None:
            a.fail("search bounds", "the search is restricted although the model has no ground domain limits", [s.where])
        else:
            a.fail("search bounds", "the search is not restricted to the ground domain", [s.where])
    for nm, bound in (("xatol", v.radians(K(1e-6))), ("fatol", K(0.5))):
        t = s.options.get(nm)
        if t is None:
            a.fail("search tolerance " + nm, "tolerance not given: the library default is looser than required", [s.where])
        else:
            d = v.const_of(v.div(t, bound))
            a.check(d is not None and 0 < d <= 1, "search tolerance " + nm, f"tolerance {v.show(t)} is looser than {v.show(bound)}", [s.where])


def i2w_case(a, with_em, opts):
    st = a.state()
    m, par, co = build(a, st)
    em = a.obj("terrain", P + "ElevationModel") if with_em else None
    t = a.syms("col row")
    ic = a.new(st, P + "ImageCoordinate", a.lst(st, t))
    guess = [v.radians(par["long_off"]), v.radians(par["lat_off"])]
    dist = v.radians(K(0.5))
    o = None
    if opts:
        guess = a.syms("g0 g1")
        dist = a.sym("dist")
        key = (lambda n: a.get(P + "SensorModelOptions." + n)) if opts == "enum" else (lambda n: K(n.lower()))
        val = a.arr(st, guess) if opts == "array" else a.lst(st, guess)
        o = a.I.new(st, __import__("vga.interp", fromlist=["HDict"]).HDict({}))
        from vga import lib

        lib.setitem(a.I, o, key("INITIAL_GUESS"), val, st, None)
        lib.setitem(a.I, o, key("INITIAL_SEARCH_DISTANCE"), dist, st, None)
    args = {}
    if em is not None:
        args["elevation_model"] = em
    if o is not None:
        args["options"] = o
    r = a.m(st, m, "image_to_world", ic, **args)
    ref = lambda x, y, h: reference(par, co, x, y, h)
    if a.checked or True:
        if len(a.searches) != 1:
            a.never_raises("image to ground") and a.fail("search", f"{len(a.searches)} searches recorded, expected one", undecided=True)
            return
    s = a.searches[0]
    check_search(a, st, s, ref, em, par["height_off"], t, guess, dist)
    x, y = v.sym("argmin0.x"), v.sym("argmin0.y")
    h = par["height_off"] if em is None else elev(em, x, y, par["height_off"])
    a.eq(st, a.coord(st, r, 3), [x, y, h], "geodetic result")
    a.never_raises("image to ground")


@ob("P06 P07", "photogrammetry/rpc_sensor_model.py:RPCSensorModel.image_to_world", "search objective, start, size and result value graphs (no elevation model, no options)")
def rpc_i2w_plain(a):
    i2w_case(a, False, None)


@ob("P06 P07", "photogrammetry/rpc_sensor_model.py:RPCSensorModel.image_to_world", "search over the supplied terrain")
def rpc_i2w_terrain(a):
    i2w_case(a, True, None)


@ob("P06", "photogrammetry/rpc_sensor_model.py:RPCSensorModel.image_to_world", "caller-supplied starting point and search distance are used")
def rpc_i2w_options_enum(a):
    i2w_case(a, True, "enum")


@ob("P06", "photogrammetry/rpc_sensor_model.py:RPCSensorModel.image_to_world", "options keyed by the documented strings, guess as an array")
def rpc_i2w_options_array(a):
    i2w_case(a, False, "array")
