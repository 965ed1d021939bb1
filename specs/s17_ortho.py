"""Orthophoto tiles: which pixels are read, how they are mapped, displayed and masked."""
import importlib

from vga import lib
from vga import values as v
from vga.interp import Dead, HArr
from vga.spec import ob
from vga.values import FALSE, K, NONE, T, TRUE, Tup, b_and, b_not, ite, term

IP = "aws.osml.image_processing."
Gd = "aws.osml.gdal."
PH = "aws.osml.photogrammetry."
FILE = "image_processing/gdal_tile_factory.py:"
ROWS, COLS = 2, 2

STUB = """
import math
import numpy as np
import vga_stub

class Level:
    def __init__(self, band, level):
        self.band, self.level = band, level
    def ReadAsArray(self, xoff=0, yoff=0, win_xsize=None, win_ysize=None):
        return np.array(plane(self.band, self.level, xoff, yoff, win_xsize, win_ysize))

def plane(band, level, x, y, w, h):
    return [[vga_stub.pixel(band.number, level, x, y, w, h, r, c) for c in range(COLS)] for r in range(ROWS)]

class Band:
    def __init__(self, number, overviews, lo, hi, statistics=True):
        self.number, self.overviews, self.lo, self.hi, self.statistics = number, overviews, lo, hi, statistics
    def ReadAsArray(self, xoff=0, yoff=0, win_xsize=None, win_ysize=None):
        return np.array(plane(self, 0, xoff, yoff, win_xsize, win_ysize))
    def GetOverviewCount(self):
        return self.overviews
    def GetOverview(self, i):
        return Level(self, i + 1)
    def GetMinimum(self):
        return self.lo
    def GetMaximum(self):
        return self.hi
    def GetHistogram(self, min=-0.5, max=255.5, buckets=256, include_out_of_range=0, approx_ok=1):
        return [vga_stub.counts(self.number, min, max, buckets, include_out_of_range, approx_ok)]
    def GetStatistics(self, approx_ok, force):
        if not self.statistics:
            return None
        return [vga_stub.statistic(self.number, k) for k in range(4)]
    def ComputeStatistics(self, approx_ok):
        return self.GetStatistics(approx_ok, 1)

class Driver:
    ShortName = "GTiff"

class Image:
    def __init__(self, bands, w, h):
        self.bands = bands
        self.RasterCount = len(bands)
        self.RasterXSize, self.RasterYSize = w, h
    def GetDriver(self):
        return Driver()
    def GetRasterBand(self, n):
        return self.bands[n - 1]

def image(specs, w, h):
    return Image([Band(*s) for s in specs], w, h)

class FailingModel:
    # a sensor model without an answer for some locations
    def __init__(self, model):
        self.model = model
    def image_to_world(self, image_coordinate, elevation_model=None, options=None):
        return self.model.image_to_world(image_coordinate, elevation_model, options)
    def world_to_image(self, world_coordinate):
        if vga_stub.outside(world_coordinate.longitude, world_coordinate.latitude):
            raise RuntimeError("outside")
        return self.model.world_to_image(world_coordinate)

# ---- what a tile is
def locations(box):
    west, south, east, north = box
    return [[(lon, lat) for lon in (west, (west + east) / 2, east)] for lat in (north, (north + south) / 2, south)]

def known(box):
    return all(not vga_stub.outside(lon, lat) for row in locations(box) for lon, lat in row)

def positions(model, box, ds, image_point, world_point):
    z = model.image_to_world(image_point([ds.RasterXSize / 2, ds.RasterYSize / 2])).elevation
    p = [[model.world_to_image(world_point([lon, lat, z])) for lon, lat in row] for row in locations(box)]
    return [[q.x for q in row] for row in p], [[q.y for q in row] for row in p]

def extent(xs):
    a = [x for row in xs for x in row]
    return math.floor(min(a)), math.ceil(max(a))

def overlaps(xs, ys, ds):
    (x0, x1), (y0, y1) = extent(xs), extent(ys)
    return not (x0 > ds.RasterXSize or y0 > ds.RasterYSize or x1 < 0 or y1 < 0)

def level(xs, ys, ds, width):
    (x0, x1), (y0, y1) = extent(xs), extent(ys)
    r = max(0, math.floor(math.log2(min(x1 - x0, y1 - y0) / width)))
    return min(r, ds.GetRasterBand(1).GetOverviewCount())

def window(xs, ys, ds, r):
    (x0, x1), (y0, y1) = extent(xs), extent(ys)
    b = [max(x0, 0), max(y0, 0), min(x1, ds.RasterXSize), min(y1, ds.RasterYSize)]
    b = [int(q / 2 ** r) for q in b]
    return b[0], b[1], b[2] - b[0], b[3] - b[1]

def bilinear(z, row, col, h, w):
    u, t = 2 * row / (h - 1), 2 * col / (w - 1)
    i, j = min(int(u), 1), min(int(t), 1)
    u, t = u - i, t - j
    return (z[i][j] * (1 - t) + z[i][j + 1] * t) * (1 - u) + (z[i + 1][j] * (1 - t) + z[i + 1][j + 1] * t) * u

def bordered(p):
    q = [[row[0]] * 2 + row + [row[-1]] * 2 for row in p]
    return [q[0]] * 2 + q + [q[-1]] * 2

def clip(x):
    return np.clip(x, 0, 255)

def byte(x):
    return np.array([x]).astype(np.uint8)[0]

def limits(band, p):
    lo, hi = band.GetMinimum(), band.GetMaximum()
    a = [x for row in p for x in row]
    return (min(a) if lo is None else lo), (max(a) if hi is None else hi)

def minmax(band, p):
    lo, hi = limits(band, p)
    return [[byte(clip((x - lo) * 255 / max(hi, 1))) for x in row] for row in p]

def dra(band, p):
    lo, hi = limits(band, p)
    if not hi > lo:
        hi = lo + 1
    counts = band.GetHistogram(lo, hi, max(256, int(hi - lo)))
    a, b = [vga_stub.suggested(k, counts, lo, hi, 0.02, 0.97) for k in (0, 1)]
    return [[byte(clip(255 * (x - a) / max(b - a, 1))) for x in row] for row in p]

def display(ds, planes, adjustment):
    if adjustment == "NONE":
        return [[[byte(x) for x in row] for row in p] for p in planes]
    if len(planes) == 2:
        if ds.bands[0].statistics:
            m = math.sqrt(sum([(s[3] * 50 / 68 + s[2]) ** 2 for s in [b.GetStatistics(True, False) for b in ds.bands]]))
        else:
            power = [math.sqrt(abs(i * i + q * q)) for rows in zip(*planes) for i, q in zip(*rows)]
            power = [p for p in power if math.isfinite(p)]
            m = sum(power) / len(power)
        return [[[clip(255 * math.sqrt(abs(i * i + q * q)) / (3 * m)) for i, q in zip(*rows)] for rows in zip(*planes)]]
    f = minmax if adjustment == "MINMAX" else dra
    return [f(ds.GetRasterBand(k + 1), p) for k, p in enumerate(planes[:3])]

def tile(model, box, size, ds, adjustment, image_point, world_point):
    w, h = size
    xs, ys = positions(model, box, ds, image_point, world_point)
    r = level(xs, ys, ds, w)
    win = window(xs, ys, ds, r)
    at = r if r > 0 else 0
    planes = [plane(b, at, *win) for b in ds.bands]
    planes = [vga_stub.plane(bordered(p)) for p in display(ds, planes, adjustment)]
    result = []
    for row in range(h):
        for col in range(w):
            x = bilinear(xs, row, col, h, w) / 2 ** r - win[0] + 2
            y = bilinear(ys, row, col, h, w) / 2 ** r - win[1] + 2
            bands = [vga_stub.remap(p, x, y) for p in planes]
            alpha = 255 if all([b != 0 for b in bands]) else 0
            if len(bands) == 1:
                bands = bands * 3
            elif len(bands) == 3:
                bands = bands[::-1]
            result.append(bands + [alpha])
    return result
"""


class Env:
    def __init__(self, a):
        self.a = a
        lib.OPAQUE_MINMAX = True
        lib.NARROW = False
        self.r = a.ref(STUB.replace("COLS", str(COLS)).replace("ROWS", str(ROWS)))
        self.encoded = []
        C = a.w.contracts
        C[("ext", "cv2.copyMakeBorder")] = self.border
        C[("ext", "cv2.remap")] = self.remap
        C[("ext", "cv2.imencode")] = self.encode
        C[("ext", "scipy.interpolate.RectBivariateSpline")] = self.spline
        C[("ext", "vga_stub.plane")] = lambda I, st, args, kw, ctx: self.plane(I, lib.as_arr(I, args[0], st), st)
        C[("ext", "vga_stub.outside")] = lambda I, st, args, kw, ctx: v.pred("outside", v.add(v.mul(args[0], K(1)), K(0)), args[1])
        C[("ext", "vga_stub.remap")] = lambda I, st, args, kw, ctx: sample(*args)
        C[("ext", "vga_stub.suggested")] = lambda I, st, args, kw, ctx: suggested(I, st, *args)
        C[("fn", "DRAParameters", "from_counts")] = self.from_counts
        C[("fn", "GDALTileFactory", "_create_gdal_translate_kwargs")] = lambda I, st, f, args, kw: NONE

    def from_counts(self, I, st, f, args, kw):
        names = ["counts", "first_bucket_value", "last_bucket_value", "min_percentage", "max_percentage", "a", "b"]
        args = [x for x in args if not (isinstance(x, v.V) and "DRAParameters" in repr(x)[:60] and len(args) and x is args[0])]
        d = {"first_bucket_value": NONE, "last_bucket_value": NONE, "min_percentage": v.lift_const(0.02), "max_percentage": v.lift_const(0.98), "a": v.lift_const(0.2), "b": v.lift_const(0.4)}
        d.update(zip(names, args))
        d.update(kw)
        lo, hi = [suggested(I, st, K(k), d["counts"], d["first_bucket_value"], d["last_bucket_value"], d["min_percentage"], d["max_percentage"], d["a"], d["b"]) for k in (0, 1)]
        cls = self.a.get(Gd + "dynamic_range_adjustment.DRAParameters")
        return I.call(cls, [], {"suggested_min_value": lo, "suggested_max_value": hi, "actual_min_value": term("actual_min"), "actual_max_value": term("actual_max")}, st, None)

    def plane(self, I, z, st):
        return I.opq("plane", *[K(n) for n in z.shape], *z.data)

    def border(self, I, st, args, kw, ctx):
        names = ["src", "top", "bottom", "left", "right", "borderType", "dst", "value"]
        d = dict(zip(names, args))
        d.update(kw)
        z = lib.as_arr(I, d["src"], st)
        n = [lib.const_of(d[k]) for k in names[1:5]]
        if not isinstance(z, HArr) or any(q is None for q in n):
            return lib.call_term(I, "x:cv2.copyMakeBorder", args, kw, st, log=False)
        kind = d.get("borderType")
        rep = kind is not None and "BORDER_REPLICATE" in repr(kind)
        h, w = z.shape[:2]
        k = z.shape[2] if len(z.shape) == 3 else 1
        t, b, l, r_ = [int(q) for q in n]
        data = []
        for i in range(-t, h + b):
            for j in range(-l, w + r_):
                inside = 0 <= i < h and 0 <= j < w
                for c in range(k):
                    p = z.data[(min(max(i, 0), h - 1) * w + min(max(j, 0), w - 1)) * k + c]
                    data.append(p if inside or rep else I.opq("border", I.freeze(kind, st), p))
        return I.new(st, HArr((h + t + b, w + l + r_) + z.shape[2:], data))

    def remap(self, I, st, args, kw, ctx):
        names = ["src", "map1", "map2", "interpolation", "dst", "borderMode", "borderValue"]
        d = dict(zip(names, args))
        d.update(kw)
        z, mx, my = [lib.as_arr(I, d[n], st) for n in names[:3]]
        if not all(isinstance(q, HArr) for q in (z, mx, my)) or len(mx.shape) != 2:
            return lib.call_term(I, "x:cv2.remap", args, kw, st, log=False)
        self.a.check(mx.shape == my.shape, "maps", f"have shapes {mx.shape} and {my.shape}")
        k = z.shape[2] if len(z.shape) == 3 else 1
        planes = [self.plane(I, HArr(z.shape[:2], z.data[c::k]), st) for c in range(k)]
        usual = lambda x: v.apply1(lambda l: K("usual") if l.key in (v.Ext("cv2.INTER_LINEAR").key, v.Ext("cv2.BORDER_CONSTANT").key) else l, x)
        extra = [usual(I.freeze(d[n], st)) for n in ("interpolation", "borderMode", "borderValue") if n in d]
        extra = [x for x in extra if x.key != K("usual").key]
        data = [sample(p, x, y, *extra) for x, y in zip(mx.data, my.data) for p in planes]
        return I.new(st, HArr(mx.shape + z.shape[2:], data))

    def spline(self, I, st, args, kw, ctx):
        """the interpolating spline of degree one in both directions is bilinear in every cell"""
        names = ["x", "y", "z", "bbox", "kx", "ky", "s"]
        d = {"kx": K(3), "ky": K(3), "s": K(0)}
        d.update(zip(names, args))
        d.update(kw)
        x, y, z = [lib.as_arr(I, d[n], st) for n in "xyz"]
        if not all(isinstance(q, HArr) for q in (x, y, z)) or z.shape != x.shape + y.shape or any(lib.const_of(q) is None for q in x.data + y.data):
            return lib.call_term(I, "x:RectBivariateSpline", args, kw, st, log=False)
        exact = all(lib.const_of(d[n]) == 1 for n in ("kx", "ky")) and lib.const_of(d["s"]) == 0
        kx, ky = [[lib.const_of(q) for q in t.data] for t in (x, y)]
        self.a.check(all(p < q for t in (kx, ky) for p, q in zip(t, t[1:])), "interpolation grid", "coordinates are not increasing")

        def at(u, w):
            def cell(ks, q):
                q = min(max(q, ks[0]), ks[-1])
                i = max(n for n in range(len(ks) - 1) if ks[n] <= q)
                return i, (q - ks[i]) / (ks[i + 1] - ks[i])

            (i, s), (j, t) = cell(kx, u), cell(ky, w)
            n = len(ky)
            if not exact:
                return term("spline", *x.data, *y.data, *z.data, d["kx"], d["ky"], d["s"], K(u), K(w), kind="num")
            p = lambda a, b: z.data[min(a, len(kx) - 1) * n + min(b, n - 1)]
            mix = lambda a, b, f: v.add(v.mul(a, K(1 - f)), v.mul(b, K(f)))
            return mix(mix(p(i, j), p(i, j + 1), t), mix(p(i + 1, j), p(i + 1, j + 1), t), s)

        def model(I2, a2, kw2, st2):
            d2 = dict(zip(["x", "y", "dx", "dy", "grid"], a2))
            d2.update(kw2)
            g = d2.get("grid", TRUE)
            xs, ys = [lib.as_arr(I2, d2[q], st2) for q in "xy"]
            if not isinstance(xs, HArr) or not isinstance(ys, HArr) or any(lib.const_of(q) is None for q in xs.data + ys.data):
                return lib.call_term(I2, "x:spline", a2, kw2, st2, log=False)
            if isinstance(g, K) and not g.val or g is FALSE:
                return I2.new(st2, HArr(xs.shape, [at(lib.const_of(p), lib.const_of(q)) for p, q in zip(xs.data, ys.data)]))
            return I2.new(st2, HArr(xs.shape + ys.shape, [at(lib.const_of(p), lib.const_of(q)) for p in xs.data for q in ys.data]))

        return v.Obj(("pymodel", "spline", str(len(self.encoded)), v.vnof(z.data[0]) if hasattr(v, "vnof") else 0), fn=lambda I2, s2, a2, kw2, ctx2: model(I2, a2, kw2, s2))

    def encode(self, I, st, args, kw, ctx):
        self.encoded.append((st.pc, args[0], lib.as_arr(I, args[1], st), list(args[2:]) + list(kw.items())))
        n = len(self.encoded)
        return Tup([v.sym(f"encodes{n}", "b"), v.sym(f"png{n}", "o")])


def sample(p, x, y, *extra):
    return v.applyN(lambda *q: term("remap", *q, kind="num"), [p, x, y, *extra])


def suggested(I, st, k, counts, lo, hi, pmin, pmax, a=None, b=None):
    return v.applyN(lambda *q: term("suggested", *q, kind="num"), [k, I.freeze(lib.unbox(I, counts, st), st), lo, hi, pmin, pmax, v.lift_const(0.2) if a is None else a, v.lift_const(0.4) if b is None else b])


def setup(a, st, bands, adjustment, known=True, failing=False, statistics=True):
    e = Env(a)
    n = a.sym("overviews", "i")
    a.assume(st, v.le(K(0), n))
    W, H = a.sym("W", "i"), a.sym("H", "i")
    specs = [Tup([K(i + 1), n, a.sym(f"lo{i}") if known else NONE, a.sym(f"hi{i}") if known else NONE, K(statistics)]) for i in range(bands)]
    ds = a.call(st, e.r("image"), a.lst(st, specs), W, H)
    model = a.obj("model", PH + "sensor_model.SensorModel")
    ref = model
    if failing:
        model = a.call(st, e.r("FailingModel"), model)
    f = a.new(st, IP + "gdal_tile_factory.GDALTileFactory", ds, model, range_adjustment=a.get(Gd + "typing.RangeAdjustmentType." + adjustment))
    return e, ds, ref, f


def compare(a, st, bands, adjustment, size, known=True, failing=False, statistics=True):
    e, ds, model, f = setup(a, st, bands, adjustment, known, failing, statistics)
    box = a.syms("west south east north")
    pts = [a.get(PH + "ImageCoordinate"), a.get(PH + "GeodeticWorldCoordinate")]
    start = st.pc
    xs, ys = a.items(st, a.call(st, e.r("positions"), model, Tup(box), ds, *pts))
    over = a.I.truth(a.call(st, e.r("overlaps"), xs, ys, ds), st)
    if failing:
        over = b_and(over, a.I.truth(a.call(st, e.r("known"), Tup(box)), st))
    want = a.call(st, e.r("tile"), model, Tup(box), Tup([K(q) for q in size]), ds, K(adjustment), *pts)
    want = [q for p in a.items(st, want) for q in a.items(st, p)]
    what = f"{bands} bands, {adjustment}, {size[0]}x{size[1]}" + ("" if known else ", range unknown")
    got = a.m(st, f, "create_orthophoto_tile", Tup(box), Tup([K(q) for q in size]))
    g = FALSE
    for pc, ext, z, more in e.encoded:
        g = v.b_or(g, pc)
        a.eq(st, ext, K(".png"), what + ": format", care=pc)
        if not isinstance(z, HArr):
            a.fail(what, f"encoded pixels are {z!r}"[:300], undecided=True)
            continue
        k = len(want) // (size[0] * size[1])
        a.check(z.shape == (size[1], size[0], k), what, f"tile has shape {z.shape}, expected {(size[1], size[0], k)}")
        if len(z.data) == len(want):
            for i, (x, y) in enumerate(zip(z.data, want)):
                a.eq(st, x, y, f"{what}: row {i // k // size[0]} column {i // k % size[0]} channel {i % k}", care=pc)
    a.eq(st, g, b_and(start, over), what + ": a tile is made", care=TRUE)
    if len(e.encoded) == 1:
        a.eq(st, got, ite(over, ite(a.I.truth(a.sym("encodes1", "b"), st), a.sym("png1", "o"), NONE), NONE), what + ": result")


F = FILE + "GDALTileFactory.create_orthophoto_tile"


@ob("P26", F, "every tile pixel is sampled at the image position of its ground location: longitudes west to east over the columns, latitudes north to south over the rows, at the elevation of the image centre, bilinear between a 3 by 3 grid; the pixels are those of the overview closest in resolution, over the window of the image that the tile covers; no tile outside the image")
def position(a):
    for size in ((4, 3), (2, 5), (3, 3)):
        compare(a, a.state(), 1, "NONE", size)
    a.never_raises("orthophoto")


@ob("P26", F, "no tile where the sensor model has no image position for a tile location")
def unknown_locations(a):
    compare(a, a.state(), 1, "NONE", (2, 3), failing=True)
    a.never_raises("orthophoto")


@ob("P26", F, "color tiles are encoded blue, green, red, alpha; a pixel is opaque where none of its bands is zero")
def color(a):
    compare(a, a.state(), 3, "NONE", (3, 2))
    a.never_raises("orthophoto")


@ob("P26", FILE + "GDALTileFactory._normalize_image_for_display", "MINMAX scales the pixels above the band's minimum by 255 over its maximum, each band with its own range (the tile's where the image has none), only the first three bands")
def minmax_display(a):
    for bands in (1, 3, 4):
        for known in (True, False):
            compare(a, a.state(), bands, "MINMAX", (2, 2), known)
    a.never_raises("orthophoto")


@ob("P26", FILE + "GDALTileFactory._normalize_image_for_display", "DRA maps the suggested range of each band's own histogram to 0..255")
def dra_display(a):
    for bands in (1, 3, 4):
        for known in (True, False):
            compare(a, a.state(), bands, "DRA", (2, 2), known)
    a.never_raises("orthophoto")


@ob("P26", FILE + "GDALTileFactory._normalize_complex_sar", "two band images are shown as quarter power images with the mean of the whole image")
def sar_display(a):
    for n in ("numpy.isfinite", "math.isfinite"):  # images of numbers; P28 covers the others
        lib.NP[n] = lib._elem1(lambda x: TRUE)
    for adjustment in ("MINMAX", "DRA"):
        for statistics in (True, False):
            compare(a, a.state(), 2, adjustment, (2, 2), statistics=statistics)
    a.never_raises("orthophoto")
