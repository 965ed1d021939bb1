"""Sensor models keep no memory of the projections they have been asked for."""
import importlib

from vga import lib
from vga import values as v
from vga.interp import HDict
from vga.spec import ob
from vga.values import K, TRUE

P = "aws.osml.photogrammetry."


def mod(n):
    return importlib.import_module("spec_" + n)


def options(a, st, tag):
    o = a.I.new(st, HDict({}))
    g = a.syms(f"{tag}.g0 {tag}.g1")
    lib.setitem(a.I, o, a.get(P + "SensorModelOptions.INITIAL_GUESS"), a.lst(st, g), st, None)
    lib.setitem(a.I, o, a.get(P + "SensorModelOptions.INITIAL_SEARCH_DISTANCE"), a.sym(f"{tag}.d"), st, None)
    lib.setitem(a.I, o, K("extra " + tag), a.sym(f"{tag}.extra"), st, None)
    return o


def search(a, st, s):
    """what a recorded search looks for, as plain values"""
    return [s.objective] + s.x0 + [q for p in s.simplex or [] for q in p] + (s.bounds or [])


class Query:
    """one projection; run() answers with the values it gives"""

    def __init__(self, kind, tag, em=None, opt=None):
        self.kind, self.tag, self.em, self.opt = kind, tag, em, opt
        self.name = f"{kind}({tag}{', terrain' if em else ''}{', options' if opt else ''})"

    def run(self, a, st, m, spoil=False):
        a.searches = []
        dims = "x y" if self.kind == "image_to_world" else "lon lat h"
        c = a.syms(" ".join(f"{self.tag}.{d}" for d in dims.split()))
        p = a.new(st, P + ("ImageCoordinate" if len(c) == 2 else "GeodeticWorldCoordinate"), a.lst(st, c))
        kw = {}
        if self.em:
            kw["elevation_model"] = a.obj(self.em, P + "ElevationModel")
        if self.opt:
            kw["options"] = options(a, st, self.opt)
        r = a.m(st, m, self.kind, p, **kw)
        n = 5 - len(c)
        got = a.coord(st, r, n)
        if got is None:
            return None
        seen = [search(a, st, s) for s in a.searches]
        a.eq(st, a.coord(st, p, len(c)), c, f"the location passed to {self.name}, after the call")
        if self.opt:
            a.eq(st, kw["options"], options(a, st, self.opt), f"the options passed to {self.name}, after the call")
        if spoil:
            # the caller is free to change the answer and the location afterwards
            for q, k in ((r, n), (p, len(c))):
                d = a.attr(st, q, "coordinate")
                for i in range(k):
                    lib.setitem(a.I, d, K(i), a.sym(f"spoilt{i}"), st, None)
        return got, seen


def check(a, name, make, queries, flags=()):
    fresh = {}
    for q in queries:
        if q.name not in fresh:
            st = a.state(flags=flags)
            fresh[q.name] = q.run(a, st, make(a, st))
            if fresh[q.name] is None:
                a._no_value(f"{name}: {q.name}", st)
                return
    st = a.state(flags=flags)
    m = make(a, st)
    done = []
    for q in queries:
        r = q.run(a, st, m, spoil=True)
        what = f"{name}: {q.name} after " + (", ".join(done) or "nothing")
        done.append(q.name)
        if r is None:
            a._no_value(what, st)
            return
        a.eq(st, r[0], fresh[q.name][0], what)
        if len(r[1]) != len(fresh[q.name][1]):
            a.fail(what, f"{len(r[1])} searches instead of {len(fresh[q.name][1])}")
            return
        for s, t in zip(r[1], fresh[q.name][1]):
            a.eq(st, s, t, what + ": search")


def neighbours(a, name, make, flags=()):
    """two models in use at the same time, built from different metadata"""

    def other(st):
        a.prefix = "other."
        try:
            return make(a, st)
        finally:
            a.prefix = ""

    qs = [i("p"), w("A")]
    fresh = []
    for mk in (lambda st: make(a, st), other):
        for q in qs:
            st = a.state(flags=flags)
            fresh.append(q.run(a, st, mk(st)))
    st = a.state(flags=flags)
    ms = [make(a, st), other(st)]
    for m, q in ((1, 0), (0, 0), (0, 1), (1, 1), (1, 0), (0, 0)):
        what = f"{name}: {qs[q].name} of model {m} while two models are in use"
        r, f = qs[q].run(a, st, ms[m], spoil=True), fresh[2 * m + q]
        if r is None or f is None:
            a._no_value(what, st)
            return
        a.eq(st, r[0], f[0], what)
        a.check(len(r[1]) == len(f[1]), what, "the number of searches differs")
        for s, t in zip(r[1], f[1]):
            a.eq(st, s, t, what + ": search")


def w(t):
    return Query("world_to_image", t)


def i(t, em=None, opt=None):
    return Query("image_to_world", t, em, opt)


# a projection whose description differs from its neighbour's only far into the text
UTM = """PROJCS["unnamed",GEOGCS["WGS 84",DATUM["WGS_1984",SPHEROID["WGS 84",6378137,298.257223563]],PRIMEM["Greenwich",0],UNIT["degree",0.0174532925199433]],PROJECTION["Transverse_Mercator"],PARAMETER["latitude_of_origin",0],PARAMETER["central_meridian",%d],PARAMETER["scale_factor",0.9996],PARAMETER["false_easting",500000],PARAMETER["false_northing",0],UNIT["metre",1]]"""

PLAN = [i("p", "terrain", "o"), w("A"), i("p"), i("q", "hills"), w("B"), i("p", "terrain"), w("A"), i("q", None, "o")]
BACK = [w("A"), i("q"), i("p", "hills"), i("q", None, "o"), w("B"), i("q"), w("A")]


def plans(a, name, make, flags=()):
    for p in (PLAN, BACK):
        check(a, name, make, p, flags)
    neighbours(a, name, make, flags)


@ob("P08", "photogrammetry/rpc_sensor_model.py:RPCSensorModel", "every answer of a used model is that of a fresh one")
def rpc_history(a):
    plans(a, "RPC", lambda a, st: mod("s01_rpc").build(a, st)[0])


@ob("P08", "photogrammetry/replacement_sensor_model.py:RSMPolynomialSensorModel", "every answer of a used model is that of a fresh one, for each ground domain form")
def rsm_history(a):
    s = mod("s04_rsm")
    for form in s.FORMS:
        plans(a, "RSM " + form, lambda a, st: s.model(a, st, s.domain(a, st, form, grp=form == "RECTANGULAR"))[0])

    def sectioned(form):
        def f(a, st):
            d = s.domain(a, st, form)
            ctx = a.new(st, P + "RSMContext", d.ref, a.new(st, P + "RSMImageDomain", *a.syms("min_row max_row min_col max_col")))
            low = lambda n: a.new(st, P + "RSMLowOrderPolynomial", a.lst(st, [a.sym(f"{n}{k}") for k in range(10)]))
            sec = a.lst(st, [a.lst(st, [a.obj(f"section{r}{c}", P + "SensorModel") for c in range(2)]) for r in range(2)])
            return a.new(st, P + "RSMSectionedPolynomialSensorModel", ctx, 2, 2, *a.syms("rsize csize"), low("r"), low("c"), sec)

        return f

    for form in ("GEODETIC", "RECTANGULAR"):
        plans(a, "sectioned RSM " + form, sectioned(form), flags=("gateidx",))


@ob("P08", "photogrammetry/gdal_sensor_model.py, projective_sensor_model.py, chipped_image_sensor_model.py, composite_sensor_model.py", "every answer of a used model is that of a fresh one")
def other_history(a):
    s = mod("s02_models")

    def affine(wkt):
        def make(a, st):
            t = [a.sym(f"t{k}") for k in range(6)]
            return a.new(st, P + "GDALAffineSensorModel", a.lst(st, t), *([K(wkt % (-69 if a.prefix else -75))] if wkt else []))

        return make

    plans(a, "affine", affine(None))
    plans(a, "affine with projection", affine(UTM))

    def projective(a, st):
        wd = [[a.sym(f"lon{k}"), a.sym(f"lat{k}"), a.sym(f"h{k}")] for k in range(4)]
        im = [[a.sym(f"x{k}"), a.sym(f"y{k}")] for k in range(4)]
        return a.new(st, P + "ProjectiveSensorModel", s.coords(a, st, "GeodeticWorldCoordinate", wd), s.coords(a, st, "ImageCoordinate", im))

    plans(a, "projective", projective)
    plans(a, "chip", lambda a, st: s.chip(a, st)[0])
    plans(a, "composite", lambda a, st: a.new(st, P + "CompositeSensorModel", a.obj("fast", P + "SensorModel"), a.obj("exact", P + "SensorModel")))
    plans(a, "composite of RPC", lambda a, st: a.new(st, P + "CompositeSensorModel", projective(a, st), mod("s01_rpc").build(a, st)[0]))


@ob("P08", "photogrammetry/sicd_sensor_model.py:SICDSensorModel", "every answer of a used model is that of a fresh one, for each grid type")
def sicd_history(a):
    s = mod("s05_sicd")

    def make(grid, gpn, first):
        def f(a, st):
            g = s.geometry(a, st, n=2, biased=grid == "PFA")
            return s.model(a, st, g, gpn=gpn, grid=grid, first=first)

        return f

    short = [i("p"), w("A"), i("q"), i("p"), w("A")]
    for grid, gpn, first in (("PLANE", True, True), ("RGAZCOMP", False, False), ("PFA", True, False), ("INCA", False, True)):
        check(a, grid, make(grid, gpn, first), short if grid == "RGAZCOMP" or a.tier == "thorough" else [i("p"), i("q"), i("p")])
        if grid == "RGAZCOMP" or a.tier == "thorough":
            neighbours(a, grid, make(grid, gpn, first))
    terrain = [i("p", "hills"), i("p"), i("q", "terrain"), i("p", "hills")]
    check(a, "RGAZCOMP with terrain", make("RGAZCOMP", True, True), terrain, flags=["count=2"])
