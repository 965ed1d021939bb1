"""Opening images, pixel types, value scaling and dynamic range adjustment."""
from vga import lib
from vga import values as v
from vga.spec import ob
from vga.values import K, NONE, TRUE, Tup

Gd = "aws.osml.gdal."
U = Gd + "gdal_utils."
TYPES = {"Byte": (0, 2**8 - 1), "UInt16": (0, 2**16 - 1), "Int16": (-(2**15), 2**15 - 1), "UInt32": (0, 2**32 - 1), "Int32": (-(2**31), 2**31 - 1), "UInt64": (0, 2**64 - 1), "Int64": (-(2**63), 2**63 - 1), "Float32": (-3.4028235e38, 3.4028235e38), "Float64": (-1.7976931348623157e308, 1.7976931348623157e308)}
OTHERS = ("Unknown", "CInt16", "CInt32", "CFloat32", "CFloat64")

# A dataset with known band types and arbitrary statistics and histograms
STUB = """
class Band:
    def __init__(self, t, stats, hist, requests):
        self.DataType = t
        self.stats = stats
        self.hist = hist
        self.requests = requests
    def GetStatistics(self, approx_ok, force):
        self.requests.append(("stats", force))
        return list(self.stats)
    def ComputeStatistics(self, approx_ok):
        self.requests.append(("stats", 1))
        return list(self.stats)
    def GetHistogram(self, min=-0.5, max=255.5, buckets=256, include_out_of_range=0, approx_ok=1, callback=None, callback_data=None):
        self.requests.append((min, max, buckets, bool(include_out_of_range)))
        return list(self.hist)

class Dataset:
    def __init__(self, bands):
        self.bands = bands
        self.RasterCount = len(bands)
    def GetRasterBand(self, n):
        return self.bands[n - 1]

def dataset(specs):
    return Dataset([Band(*s) for s in specs])

def limit(x, lo, hi):
    return max(lo, min(x, hi))

class DRA:
    def __init__(self, smin, smax, amin, amax):
        self.suggested_min_value = smin
        self.suggested_max_value = smax
        self.actual_min_value = amin
        self.actual_max_value = amax

def from_counts(counts, first_bucket_value=None, last_bucket_value=None, min_percentage=0.02, max_percentage=0.98, a=0.2, b=0.4):
    n = len(counts)
    first = 0 if first_bucket_value is None else first_bucket_value
    last = n if last_bucket_value is None else last_bucket_value
    lo = 0
    while lo < n and counts[lo] == 0:
        lo += 1
    hi = n - 1
    while hi > 0 and counts[hi] == 0:
        hi -= 1
    cum = []
    total = 0
    for c in counts:
        total = total + c
        cum.append(total)
    emin = 0
    while cum[emin] < min_percentage * total and emin < n - 1:
        emin += 1
    emax = n - 1
    while cum[emax] > max_percentage * total and emax > 0:
        emax -= 1
    width = emax - emin
    step = (last - first) / n
    at = lambda i: i * step + first
    return [at(max(lo, emin - a * width)), at(min(hi, emax + b * width)), at(lo), at(hi)]
"""


def const(a, n):
    return K(lib.GDALCONST["GDT_" + n])


@ob("P19", "gdal/gdal_utils.py:get_minmax_for_type", "the smallest and largest value of every GDAL pixel type; [0, 255] for types without an order")
def type_ranges(a):
    st = a.state()
    f = a.get(U + "get_minmax_for_type")
    for n, (lo, hi) in TYPES.items():
        a.eq(st, a.call(st, f, const(a, n)), [K(lo), K(hi)], n)
    for n in OTHERS:
        a.eq(st, a.call(st, f, const(a, n)), [K(0), K(255)], n)
    a.never_raises("pixel type range")


def bands(a, st, r, types, tag="", n=2):
    reqs = [a.lst(st, []) for _ in types]
    specs = []
    syms = []
    for i, t in enumerate(types):
        stats = a.syms(f"{tag}smin{i} {tag}smax{i} {tag}mean{i} {tag}std{i}")
        hist = [a.sym(f"{tag}h{i}_{j}", "i") for j in range(n)]
        syms.append((stats, hist))
        specs.append(Tup([const(a, t), a.lst(st, stats), a.lst(st, hist), reqs[i]]))
    return a.call(st, r("dataset"), a.lst(st, specs)), syms, reqs


@ob("P19", "gdal/gdal_utils.py:get_type_and_scales", "without range adjustment every band maps its full input range to the full output range, in band order")
def scales_plain(a):
    f = a.get(U + "get_type_and_scales")
    r = a.ref(STUB)
    none = a.get(Gd + "typing.RangeAdjustmentType.NONE")
    for types in (["Byte"], ["UInt16", "Float32", "Int16"], ["Float64", "UInt64"], ["CFloat32", "Byte"]):
        for out in (None, "Byte", "UInt16", "Float32"):
            st = a.state()
            ds, syms, reqs = bands(a, st, r, types)
            got = a.call(st, f, ds, **({} if out is None else {"desired_output_type": const(a, out)}), **({"range_adjustment": none} if len(types) > 1 else {}))
            rng = [TYPES.get(t, (0, 255)) for t in types]
            orng = rng if out is None else [TYPES[out]] * len(types)
            want = [[K(x) for x in s + o] for s, o in zip(rng, orng)]
            t = const(a, out or types[-1])
            a.eq(st, got, Tup([t, a.lst(st, want)]), f"{types} to {out}")
            for q in reqs:
                a.eq(st, q, a.lst(st, []), f"{types} to {out}: no statistics are computed")
            a.never_raises("scales")


@ob("P19", "gdal/gdal_utils.py:get_type_and_scales", "range adjustment selects the histogram range (MINMAX) or suggested range (DRA) of each band's own statistics")
def scales_adjusted(a):
    f = a.get(U + "get_type_and_scales")
    r = a.ref(STUB)
    for mode in ("MINMAX", "DRA"):
        for types in (["UInt16"], ["Float32"], ["Byte", "Int16"]):
            for out in ("Byte", None):
                st = a.state()
                ds, syms, reqs = bands(a, st, r, types)
                a.assume(st, *[v.lt(stats[0], stats[1]) for stats, h in syms])
                got = a.call(st, f, ds, None if out is None else const(a, out), a.get(Gd + "typing.RangeAdjustmentType." + mode))
                want = []
                for t, (stats, hist) in zip(types, syms):
                    d = a.comps(st, a.call(st, r("from_counts"), a.lst(st, hist), stats[0], stats[1]), 4)
                    o = TYPES[out or t]
                    want.append((d[2:] if mode == "MINMAX" else d[:2]) + [K(o[0]), K(o[1])])
                got = a.comps(st, got, 2)
                a.eq(st, got[0], const(a, out or types[-1]), f"{mode} {types} output type")
                a.eq(st, got[1], a.lst(st, want), f"{mode} {types} to {out}")
                a.never_raises(f"{mode} {types}")


@ob("P19", "gdal/dynamic_range_adjustment.py:DRAParameters.from_counts", "the suggested range excludes the outlying 2% at each end (widened by 20%/40%) within the occupied buckets; bucket positions map linearly onto the value range")
def dra_ranges(a):
    f = a.get(Gd + "dynamic_range_adjustment.DRAParameters.from_counts")
    r = a.ref(STUB)("from_counts")
    names = ["suggested_min_value", "suggested_max_value", "actual_min_value", "actual_max_value"]
    for n in (1, 2, 3, 4):
        st = a.state()
        h = [a.sym(f"h{j}", "i") for j in range(n)]
        a.assume(st, *[v.b_not(v.lt(x, K(0))) for x in h])
        lo, hi = a.syms("first last")
        for kw in ({}, {"first_bucket_value": lo, "last_bucket_value": hi}, {"first_bucket_value": K(-10), "last_bucket_value": K(0)}, {"first_bucket_value": lo, "last_bucket_value": hi, "min_percentage": K(0.1), "max_percentage": K(0.9), "a": a.sym("a"), "b": a.sym("b")}):
            counts = a.lst(st, h)
            d = a.call(st, f, counts, **kw)
            want = a.comps(st, a.call(st, r, a.lst(st, h), **kw), 4)
            for nm, w in zip(names, want):
                a.eq(st, a.attr(st, d, nm), w, f"{n} buckets, {sorted(kw)}: {nm}")
            a.eq(st, counts, a.lst(st, h), "the counts are left alone")
        a.never_raises("histogram range")


OPEN = """
class Source:
    def __init__(self, w, h, gt, gcps, proj, tres, dess, shape):
        self.RasterXSize = w
        self.RasterYSize = h
        self.gt = gt
        self.gcps = gcps
        self.proj = proj
        self.tres = tres
        self.dess = dess
        self.RasterCount = shape
    def GetGeoTransform(self, can_return_null=False):
        return self.gt if can_return_null else (self.gt or [0.0, 1.0, 0.0, 0.0, 0.0, 1.0])
    def GetGCPs(self):
        return self.gcps
    def GetProjection(self):
        return self.proj
    def GetProjectionRef(self):
        return self.proj
    def GetMetadata(self, domain=""):
        if domain == "xml:TRE":
            return self.tres
        if domain == "xml:DES":
            return self.dess
        return {}

def source(*args):
    return Source(*args)

def fails(path, *args):
    raise RuntimeError("not an image")

def missing(path, *args):
    return None

class Builder:
    def __init__(self, actual_image_width, actual_image_height, xml_tres=None, xml_dess=None, geo_transform=None, proj_wkt=None, ground_control_points=None, selected_sensor_model_types=None):
        self.all = (actual_image_width, actual_image_height, xml_tres, xml_dess, geo_transform, proj_wkt, ground_control_points)
        self.types = selected_sensor_model_types
    def build(self):
        return (self.all, [t in self.types for t in TYPES] if self.types is not None else [True, True, True, True, True])

def builder(*args, **kwargs):
    return Builder(*args, **kwargs)
"""


@ob("P18", "gdal/gdal_utils.py:load_gdal_dataset", "the factory is given the raster's size and all of its georeferencing metadata with every model type selected; a file GDAL cannot open raises ValueError")
def load_dataset(a):
    f = a.get(U + "load_gdal_dataset")
    path = a.sym("path", "s")
    r = a.ref(OPEN + "\nfrom aws.osml.gdal.sensor_model_factory import SensorModelTypes\nTYPES = [SensorModelTypes.AFFINE, SensorModelTypes.PROJECTIVE, SensorModelTypes.RPC, SensorModelTypes.RSM, SensorModelTypes.SICD]\n")
    a.w.contracts[("new", "SensorModelFactory")] = lambda I, st, cls, args, kw: I.call(r("builder"), args, kw, st, None)
    from vga.xmlmodel import element

    cases = [(n, d, g) for n in ("none", "empty", "one", "two") for d in ("some", "none", "empty") for g in ("some", "none")]
    for n, d, g in cases:
        st = a.state()
        doc = element(a, st, "tres", {}, [])
        other = element(a, st, "tres", {}, [])
        t, t2 = a.sym("tre_text", "s"), a.sym("tre_text2", "s")
        a.documents[t.key], a.documents[t2.key] = doc, other
        tres = {"none": NONE, "empty": a.lst(st, []), "one": a.lst(st, [t]), "two": a.lst(st, [t, t2])}[n]
        W, H, gt, gc, pj = a.sym("W", "i"), a.sym("H", "i"), a.sym("geotransform", "o"), a.sym("gcps", "o"), a.sym("wkt", "s")
        de = {"some": a.lst(st, [a.sym("des", "s")]), "none": NONE, "empty": a.lst(st, [])}[d]
        gt = NONE if g == "none" else gt
        what = f"{n} TREs, {d} DES, {g} geotransform"
        ds = a.call(st, r("source"), W, H, gt, gc, pj, tres, de, K(1))
        a.w.contracts[("ext", "gdal.Open")] = lambda I, s, args, kw, ctx: ds
        got = a.comps(st, a.call(st, f, path), 2)
        want = a.call(st, r("builder"), W, H, doc if n in ("one", "two") else NONE, de, gt, pj, gc, NONE)
        a.eq(st, got[0], ds, f"{what}: the opened dataset")
        a.eq(st, got[1], a.m(st, want, "build"), f"{what}: factory inputs")
        a.never_raises(f"load ({what})")
    for how in ("fails", "missing"):
        st = a.state()
        a.stub("gdal.Open", r(how))
        a.call(st, f, path)
        a.must_raise(st, ["ValueError"], TRUE, f"open {how}")


@ob("P19", "gdal/gdal_utils.py:get_type_and_scales", "histograms are requested over the band's statistics range with at least one bucket, never over an empty range")
def histogram_requests(a):
    f = a.get(U + "get_type_and_scales")
    r = a.ref(STUB)
    for mode in ("MINMAX", "DRA"):
        for t in ("Byte", "Int16", "Float32", "Float64", "UInt32"):
            for kind in ("range", "single"):
                st = a.state()
                ds, syms, reqs = bands(a, st, r, [t])
                lo, hi = syms[0][0][:2]
                if kind == "range":
                    a.assume(st, v.lt(lo, hi))
                else:
                    a.assume(st, v.b_not(v.lt(lo, hi)), v.b_not(v.lt(hi, lo)))
                out = "UInt16" if t == "Byte" else None
                got = a.call(st, f, ds, None if out is None else const(a, out), a.get(Gd + "typing.RangeAdjustmentType." + mode))
                if not a.never_raises(f"{mode} {t} {kind}"):
                    continue
                scale = a.comps(st, a.comps(st, a.comps(st, got, 2)[1], 1)[0], 4)
                for x, w, n in zip(scale[2:], TYPES[out or t], ("low", "high")):
                    a.eq(st, x, K(w), f"{mode} {t} {kind}: {n} end of the output range")
                q = a.comps(st, a.comps(st, reqs[0])[-1])
                if len(q) != 4:
                    a.fail(f"{mode} {t}", "no histogram is requested", undecided=True)
                    continue
                a.eq(st, q[0], lo, f"{mode} {t} {kind}: histogram minimum")
                a.eq(st, q[3], TRUE, f"{mode} {t} {kind}: values outside the (approximate) statistics are counted")
                if kind == "range":
                    a.eq(st, q[1], hi, f"{mode} {t} {kind}: histogram maximum")
                a.eq(st, v.apply2(v.lt, q[0], q[1]), TRUE, f"{mode} {t} {kind}: histogram range is not empty")
                a.eq(st, v.apply2(v.lt, q[2], K(1)), v.FALSE, f"{mode} {t} {kind}: at least one bucket")
                if kind == "range":
                    need = K(255) if t.startswith("Float") else v.trunc(v.sub(hi, lo))
                    a.eq(st, v.apply2(v.lt, q[2], need), v.FALSE, f"{mode} {t}: buckets resolve the range")
