"""Digital elevation models: tile names, tile loading, interpolation and caching."""
from vga import lib
from vga import values as v
from vga.interp import HArr
from vga.spec import ob, w2i
from vga.values import FALSE, K, NONE, Ref, TRUE, Tup, b_and, b_not, b_or, ite, term

# tile names as the tile sets make them: same file name in different folders, names that differ in case, a prefix of another
A, B, C = "w005/n45.dt2", "e005/n45.dt2", "e005/N45.dt2"
PG = "aws.osml.photogrammetry."
Gd = "aws.osml.gdal."

IDS = """
from math import degrees, floor

def srtm(lon, lat, prefix, version, extension):
    o, l = floor(degrees(lon)), floor(degrees(lat))
    if l > 59 or l < -56:
        return None
    return prefix + ("s" if l < 0 else "n") + f"{abs(l):02d}" + "_" + ("w" if o < 0 else "e") + f"{abs(o):03d}" + "_" + version + extension

def generic(lon, lat, form, lo_lat, hi_lat, lo_lon, hi_lon):
    o, l = floor(degrees(lon)), floor(degrees(lat))
    if l > hi_lat or l < lo_lat or o > hi_lon or o < lo_lon:
        return None
    part = {"%od": f"{abs(o):03d}", "%oh": "w" if o < 0 else "e", "%oH": "W" if o < 0 else "E",
            "%ld": f"{abs(l):02d}", "%lh": "s" if l < 0 else "n", "%lH": "S" if l < 0 else "N"}
    s = ""
    for p in form:
        s = s + part.get(p, p)
    return s

class Store:
    def __init__(self, maxsize, getsizeof=None):
        self.maxsize = maxsize
        self.data = {}
        self.order = []
        self.misses = 0
    def lookup(self, key):
        return key in self.data
    def fetch(self, key):
        self.order = [k for k in self.order if k != key] + [key]
        return self.data[key]
    def __contains__(self, key):
        return key in self.data
    def __getitem__(self, key):
        if key not in self.data:
            raise KeyError(key)
        return self.fetch(key)
    def get(self, key, default=None):
        return self.fetch(key) if key in self.data else default
    def clear(self):
        self.data = {}
        self.order = []
    def pop(self, key, default=None):
        if key in self.data:
            x = self.data[key]
            del self.data[key]
            self.order = [k for k in self.order if k != key]
            return x
        return default
    def __setitem__(self, key, value):
        self.keep(key, value)
    def keep(self, key, value):
        if self.maxsize < 1:
            return
        if key not in self.data and len(self.order) >= self.maxsize:
            old = self.order[0]
            self.order = self.order[1:]
            del self.data[old]
        self.data[key] = value
        self.order = [k for k in self.order if k != key] + [key]

def cachedmethod(cache, key=None, lock=None):
    def wrap(method):
        def call(self, *args, **kwargs):
            c = cache(self)
            k = (args, tuple(kwargs.items())) if key is None else key(self, *args, **kwargs)
            if k in c:
                return c[k]
            c.misses = c.misses + 1
            x = method(self, *args, **kwargs)
            c[k] = x
            return x
        return call
    return wrap

class Spline:
    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0):
        self.grid = (x, y, z, kx, ky, s)
    def __call__(self, x, y, dx=0, dy=0, grid=True):
        value = spline_value(*self.grid, x, y, dx, dy)
        import numpy as np
        return np.array([[value]]) if grid else value
    def ev(self, xi, yi, dx=0, dy=0):
        return spline_value(*self.grid, xi, yi, dx, dy)

class TileSet:
    def __init__(self):
        self.asked = []
    def find_tile_id(self, where):
        self.asked.append(where)
        return tile_name(where)

class TileFactory:
    def __init__(self, tiles):
        self.tiles = tiles
        self.loaded = []
    def get_tile(self, tile_path):
        self.loaded.append(tile_path)
        return self.tiles[tile_path]

def spline_value(*a):
    import vga_stub
    return vga_stub.spline(*a)

def tile_name(where):
    import vga_stub
    return vga_stub.tile_name(where)

def tile_set():
    return TileSet()

def tile_factory(tiles):
    return TileFactory(tiles)
"""


@ob("P15", "photogrammetry/srtm_dem_tile_set.py:SRTMTileSet.find_tile_id", "the tile is named after the south west corner of the one degree cell containing the location; none outside 56 S to 59 N")
def srtm_tile_id(a):
    r = a.ref(IDS)
    for named in (False, True):
        st = a.state()
        lon, lat, h = a.syms("lon lat h")
        opt = [a.sym("prefix", "s"), a.sym("version", "s"), a.sym("extension", "s")] if named else [K(""), K("1arc_v3"), K(".tif")]
        ts = a.new(st, PG + "SRTMTileSet", *(opt if named else []))
        w = a.new(st, PG + "GeodeticWorldCoordinate", a.lst(st, [lon, lat, h]))
        got = a.m(st, ts, "find_tile_id", w)
        a.eq(st, got, a.call(st, r("srtm"), lon, lat, *opt), "tile name")
        a.eq(st, a.coord(st, w, 3), [lon, lat, h], "the location asked about")
        a.never_raises("tile name")


@ob("P15", "photogrammetry/generic_dem_tile_set.py:GenericDEMTileSet.find_tile_id", "the format is filled in for the south west corner of the one degree cell containing the location; none outside the configured range of cells")
def generic_tile_id(a):
    r = a.ref(IDS)
    for parts, lims in ((None, None), (["dted/", "%oh", "%od", "/", "%lh", "%ld", ".dt2"], a.syms("s n w e", "i")), (["%lH", "%ld", "%oH", "%od"], None)):
        st = a.state()
        lon, lat, h = a.syms("lon lat h")
        kw = {}
        if parts is not None:
            kw["format_spec"] = K("".join(parts))
        if lims is not None:
            kw.update(min_latitude_degrees=lims[0], max_latitude_degrees=lims[1], min_longitude_degrees=lims[2], max_longitude_degrees=lims[3])
        ts = a.new(st, PG + "GenericDEMTileSet", **kw)
        w = a.new(st, PG + "GeodeticWorldCoordinate", a.lst(st, [lon, lat, h]))
        form = parts or ["%od", "%oh", "/", "%ld", "%lh", ".dt2"]
        want = a.call(st, r("generic"), lon, lat, a.lst(st, [K(p) for p in form]), *(lims or [K(-90), K(90), K(-180), K(180)]))
        a.eq(st, a.m(st, ts, "find_tile_id", w), want, "tile name " + "".join(form))
        a.eq(st, a.coord(st, w, 3), [lon, lat, h], "the location asked about")
        a.never_raises("tile name")


def spline(I, st, args, kw, ctx):
    """bilinear (kx by ky) spline through z at the grid x, y; a transposed grid is the same surface"""
    x, y, z, kx, ky, s, xi, yi, dx, dy = [lib.unbox(I, q, st) for q in args]
    za = lib.as_arr(I, z, st)
    if not isinstance(za, HArr) or len(za.shape) != 2:
        return None
    m, n = za.shape
    ax = [Tup(I.items_of(q, st) or []) for q in (x, y)]
    if len(ax[0].items) != m or len(ax[1].items) != n:
        I.raise_builtin(st, "ValueError")
    rows = [za.data[i * n : (i + 1) * n] for i in range(m)]
    if m > n:
        rows = [list(c) for c in zip(*rows)]
        ax, kx, ky, xi, yi, dx, dy = ax[::-1], ky, kx, yi, xi, dy, dx
    data = Tup([I.freeze(q, st) for row in rows for q in row])
    return term("spline", *ax, data, kx, ky, s, dx, dy, I.freeze(xi, st), I.freeze(yi, st), kind="num")


class Dem:
    """A model over tiles A (present), B (present, other size), C (missing)"""

    def __init__(self, a, st, size=None):
        self.a, ext = a, a.w.contracts
        ext[("ext", "vga_stub.spline")] = spline
        r = a.ref(IDS)
        ext[("ext", "cachetools.cachedmethod")] = lambda I, s, args, kw, ctx: I.call(r("cachedmethod"), args, kw, s, ctx)
        for n in ("cachetools.LRUCache", "cachetools.FIFOCache"):
            ext[("ext", n)] = lambda I, s, args, kw, ctx: I.call(r("Store"), args, kw, s, ctx)
        for n in ("scipy.interpolate.RectBivariateSpline", "scipy.interpolate.fitpack2.RectBivariateSpline"):
            ext[("ext", n)] = lambda I, s, args, kw, ctx: I.call(r("Spline"), args, kw, s, ctx)
        self.place = {}
        ext[("ext", "vga_stub.tile_name")] = lambda I, s, args, kw, ctx: self.place.get(I.freeze(a.attr(s, args[0], "longitude"), s).key, v.top("location"))
        self.grids = {A: (2, 3), B: (3, 4)}
        tiles = {}
        self.sm, self.sum, self.z = {}, {}, {}
        for n, (h, w) in self.grids.items():
            self.z[n] = [[a.sym(f"z{n}{i}{j}") for j in range(w)] for i in range(h)]
            self.sm[n] = a.obj("model" + n, PG + "SensorModel")
            self.sum[n] = a.sym("summary" + n, "o")
            tiles[n] = Tup([a.arr(st, self.z[n]), self.sm[n], self.sum[n]])
        tiles[C] = Tup([NONE, NONE, NONE])
        tiles["no model"] = Tup([a.arr(st, self.z[A]), NONE, NONE])
        tiles["no posts"] = Tup([NONE, self.sm[A], NONE])
        self.ts = a.call(st, r("tile_set"))
        self.tf = a.call(st, r("tile_factory"), a.dict(st, tiles))
        self.dem = a.new(st, PG + "DigitalElevationModel", self.ts, self.tf, **({} if size is None else {"raster_cache_size": K(size)}))

    def point(self, st, i, tile):
        g = self.a.syms(f"lon{i} lat{i} h{i}")
        self.place[g[0].key] = K(tile) if tile is not None else NONE
        return self.a.new(st, PG + "GeodeticWorldCoordinate", self.a.lst(st, g)), g

    def value(self, st, tile, g):
        h, w = self.grids[tile]
        x, y = w2i(self.sm[tile], g)
        ax = [Tup([K(i) for i in range(n)]) for n in (h, w)]
        data = Tup([q for row in self.z[tile] for q in row])
        return term("spline", ax[0], ax[1], data, K(1), K(1), K(0), K(0), K(0), y, x, kind="num")


@ob("P15", "photogrammetry/digital_elevation_model.py:DigitalElevationModel.set_elevation", "the elevation is the bilinear interpolation of the tile's posts at the pixel the tile's model gives for the location; unchanged without a tile; position unchanged")
def dem_elevation(a):
    for tile in (A, B, C, "no model", "no posts", None, ""):
        st = a.state()
        d = Dem(a, st)
        w, g = d.point(st, 0, tile)
        a.m(st, d.dem, "set_elevation", w)
        a.never_raises(f"elevation in tile {tile}")
        z = d.value(st, tile, g) if tile in d.grids else g[2]
        a.eq(st, a.coord(st, w, 3), [g[0], g[1], z], f"elevation in tile {tile}")
        a.eq(st, a.m(st, d.dem, "describe_region", d.point(st, 1, tile)[0]), d.sum.get(tile, NONE), f"summary of tile {tile}")
        a.never_raises(f"summary of tile {tile}")


@ob("P15 P09", "photogrammetry/digital_elevation_model.py:DigitalElevationModel.get_interpolation_grid", "every lookup uses its own tile whatever was looked up before and whatever the cache holds; a tile that fits in the cache is loaded once")
def dem_history(a):
    seqs = ([A, B, A, C, B, None, A], [C, C, A, A, B, B], [B, A, B])
    for size in (None, 1, 2):
        for seq in seqs:
            st = a.state()
            d = Dem(a, st, size)
            for i, t in enumerate(seq):
                what = f"lookup {i} of {seq} with cache size {size}"
                w, g = d.point(st, i, t)
                if i % 3 == 2:
                    a.eq(st, a.m(st, d.dem, "describe_region", w), d.sum.get(t, NONE), what)
                else:
                    a.m(st, d.dem, "set_elevation", w)
                    z = d.value(st, t, g) if t in d.grids else g[2]
                    a.eq(st, a.coord(st, w, 3), [g[0], g[1], z], what)
                a.never_raises(what)
            if size is None:
                n = [a.I.freeze(q, st) for q in a.items(st, a.attr(st, d.tf, "loaded"))]
                a.check(len({q.key for q in n}) == len(n), "tile loads", f"tiles {n!r} are loaded although they are in the cache")


TILE = """
import vga_stub

class Band:
    def __init__(self, data, lo, hi, void):
        self.data = data
        self.lo = lo
        self.hi = hi
        self.void = void
    def ReadAsArray(self, xoff=0, yoff=0, win_xsize=None, win_ysize=None):
        import vga_stub
        vga_stub.read(xoff, yoff, win_xsize, win_ysize)
        return self.data
    def GetStatistics(self, approx_ok, force):
        return [self.lo, self.hi, 0.0, 1.0]
    def ComputeStatistics(self, approx_ok):
        return [self.lo, self.hi, 0.0, 1.0]
    def GetNoDataValue(self):
        return self.void

class Tile:
    def __init__(self, transform, band, w, h):
        self.transform = transform
        self.band = band
        self.RasterXSize = w
        self.RasterYSize = h
        self.RasterCount = 2
    def GetGeoTransform(self, can_return_null=False):
        if self.transform is None and not can_return_null:
            return (0.0, 1.0, 0.0, 0.0, 0.0, 1.0)
        return self.transform
    def GetRasterBand(self, n):
        return self.band if n == 1 else Band(vga_stub.other(n), vga_stub.other(n), vga_stub.other(n), None)
    def ReadAsArray(self, xoff=0, yoff=0, win_xsize=None, win_ysize=None):
        return self.band.ReadAsArray(xoff, yoff, win_xsize, win_ysize)

def tile(transform, data, lo, hi, void, w, h):
    return Tile(transform, Band(data, lo, hi, void), w, h)

def spacing(p, q, w, h):
    import numpy as np
    return np.linalg.norm(p.coordinate - q.coordinate) / np.sqrt(w * w + h * h)
"""


@ob("P15", "gdal/gdal_dem_tile_factory.py:GDALDigitalElevationModelTileFactory.get_tile", "the first band, the geotransform's model and the band's summary of the named raster below the tile directory; (None, None, None) when it is missing or has no geotransform")
def dem_tile(a):
    r = a.ref(TILE)
    for root, path, loc in (("/data/dem", "n01.tif", "/data/dem/n01.tif"), ("s3://bucket/dem", "x/y.tif", "/vsis3/bucket/dem/x/y.tif"), ("./s3", "s3:/a.tif", None), ("/data/DEM", "N10/E020.TIF", "/data/DEM/N10/E020.TIF"), ("/data/my s3:/dem", "n.tif", None)):
        for case in ("ok", "missing", "no transform"):
            st = a.state()
            gt = a.syms("g0 g1 g2 g3 g4 g5")
            a.assume(st, b_or(v.lt(K(0), gt[1] * gt[5] - gt[2] * gt[4]), v.lt(gt[1] * gt[5] - gt[2] * gt[4], K(0))))
            data = [[a.sym(f"z{i}{j}") for j in range(3)] for i in range(2)]
            lo, hi, void = a.syms("lo hi void")
            arr = a.arr(st, data)
            t = a.call(st, r("tile"), NONE if case == "no transform" else a.lst(st, gt), arr, lo, hi, void, K(3), K(2))
            opened, read = [], []
            C = a.w.contracts
            C[("ext", "gdal.Open")] = lambda I, s, args, kw, ctx: (opened.append(I.freeze(args[0], s)), NONE if case == "missing" else t)[1]
            C[("ext", "gdal.OpenEx")] = C[("ext", "gdal.Open")]
            C[("ext", "vga_stub.read")] = lambda I, s, args, kw, ctx: (read.append(args), NONE)[1]
            f = a.new(st, Gd + "gdal_dem_tile_factory.GDALDigitalElevationModelTileFactory", K(root))
            got = a.m(st, f, "get_tile", K(path))
            what = f"{case} {root} {path}"
            if loc is not None:
                a.check(len(opened) == 1, what, f"{len(opened)} rasters opened for one tile")
                a.eq(st, opened[0], K(loc), what + ": location")
            a.never_raises(what)
            if case != "ok":
                a.eq(st, got, [NONE, NONE, NONE], what)
                continue
            for q in read:
                for x, w in zip(q, (K(0), K(0), K(3), K(2))):
                    if x is not NONE:
                        a.eq(st, x, w, what + ": window read")
            z, sm, su = a.items(st, got)
            zz = lib.as_arr(a.I, lib.unbox(a.I, z, st), st)
            a.check(isinstance(zz, HArr) and zz.shape == (2, 3), what + ": shape", "the elevations are not the band's rows and columns")
            a.eq(st, Tup(list(zz.data)), Tup([q for row in data for q in row]), what + ": elevations")
            ic = lambda x, y: a.new(st, PG + "ImageCoordinate", a.lst(st, [x, y]))
            x, y = a.syms("x y")
            ref = a.new(st, PG + "GDALAffineSensorModel", a.lst(st, gt))
            a.eq(st, a.coord(st, a.m(st, sm, "image_to_world", ic(x, y)), 3), a.coord(st, a.m(st, ref, "image_to_world", ic(x, y)), 3), what + ": sensor model")
            ecf = [a.call(st, a.get(PG + "geodetic_to_geocentric"), a.m(st, ref, "image_to_world", ic(K(p), K(q)))) for p, q in ((0, 0), (3, 2))]
            want = a.call(st, r("spacing"), ecf[0], ecf[1], K(3), K(2))
            for n, w in (("min_elevation", lo), ("max_elevation", hi), ("no_data_value", void), ("post_spacing", want)):
                a.eq(st, a.attr(st, su, n), w, what + ": " + n)
