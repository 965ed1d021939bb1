"""Imaged features: property access, spatial index and geolocation."""
import itertools

from vga import lib
from vga import values as v
from vga.spec import elev, i2w, ob
from vga.values import FALSE, K, NONE, TRUE, Tup, term

from specs.s14_dem import spline

F = "aws.osml.features."
PG = "aws.osml.photogrammetry."

STUB = """
import vga_stub

class Geometry:
    is_empty = False
    is_valid = True
    has_z = False
    @property
    def envelope(self):
        return box(*self.bounds)
    def __getattr__(self, name):
        return vga_stub.opaque_member(self.geom_type, name)

class Point(Geometry):
    geom_type = "Point"
    def __init__(self, xy):
        self.coords = [tuple(xy)]
        self.x = xy[0]
        self.y = xy[1]
    @property
    def bounds(self):
        return (self.x, self.y, self.x, self.y)
    @property
    def centroid(self):
        return self

class Path(Geometry):
    def __init__(self, coords):
        self.coords = [tuple(c) for c in coords]
    @property
    def bounds(self):
        xs = [c[0] for c in self.coords]
        ys = [c[1] for c in self.coords]
        return (min(xs), min(ys), max(xs), max(ys))
    @property
    def centroid(self):
        return Point(vga_stub.centroid(self.geom_type, *[x for c in self.coords for x in c]))

class LineString(Path):
    geom_type = "LineString"

class LinearRing(LineString):
    geom_type = "LinearRing"

class Polygon(Geometry):
    geom_type = "Polygon"
    corners = None
    def __init__(self, shell, holes=None):
        self.exterior = LinearRing(shell)
        self.interiors = [LinearRing(h) for h in (holes or [])]
    @property
    def bounds(self):
        return self.exterior.bounds if self.corners is None else self.corners
    @property
    def centroid(self):
        if self.corners is not None:
            a, b, c, d = self.corners
            return Point(((a + c) / 2, (b + d) / 2))
        return Point(vga_stub.centroid("Polygon", *[x for r in [self.exterior] + self.interiors for c in r.coords for x in c]))

class Collection(Geometry):
    def __init__(self, geoms):
        self.geoms = geoms
    @property
    def bounds(self):
        b = [g.bounds for g in self.geoms]
        return (min([q[0] for q in b]), min([q[1] for q in b]), max([q[2] for q in b]), max([q[3] for q in b]))
    @property
    def centroid(self):
        c = [g.centroid for g in self.geoms]
        return Point(vga_stub.centroid(self.geom_type, *[q.x for q in c], *[q.y for q in c]))

class MultiPoint(Collection):
    geom_type = "MultiPoint"
    def __init__(self, points=None):
        Collection.__init__(self, [p if isinstance(p, Point) else Point(p) for p in points])

class MultiLineString(Collection):
    geom_type = "MultiLineString"

class MultiPolygon(Collection):
    geom_type = "MultiPolygon"

class GeometryCollection(Collection):
    geom_type = "GeometryCollection"

def shape(context):
    t = context["type"]
    if t == "GeometryCollection":
        return GeometryCollection([shape(g) for g in context["geometries"]])
    c = context["coordinates"]
    if t == "Point":
        return Point(c)
    if t == "LineString":
        return LineString(c)
    if t == "LinearRing":
        return LinearRing(c)
    if t == "Polygon":
        return Polygon(c[0], c[1:])
    if t == "MultiPoint":
        return MultiPoint(c)
    if t == "MultiLineString":
        return MultiLineString([LineString(q) for q in c])
    if t == "MultiPolygon":
        return MultiPolygon([Polygon(q[0], q[1:]) for q in c])
    raise ValueError("Unknown geometry type")

def box(minx, miny, maxx, maxy, ccw=True):
    p = Polygon([(maxx, miny), (maxx, maxy), (minx, maxy), (minx, miny), (maxx, miny)])
    p.corners = (minx, miny, maxx, maxy)
    return p

def coords(g):
    if g.geom_type == "Point":
        return g.coords[0]
    if g.geom_type in ("LineString", "LinearRing"):
        return tuple(g.coords)
    if g.geom_type == "Polygon":
        return tuple([tuple(r.coords) for r in [g.exterior] + g.interiors])
    return tuple([coords(q) for q in g.geoms])

def mapping(ob):
    if ob.geom_type == "GeometryCollection":
        return {"type": ob.geom_type, "geometries": [mapping(g) for g in ob.geoms]}
    return {"type": ob.geom_type, "coordinates": coords(ob)}

def snapped(c, grid):
    if isinstance(c, (list, tuple)):
        return [snapped(q, grid) for q in c]
    return vga_stub.snapped(c, grid)

def set_precision(geometry, grid_size, mode="valid_output"):
    return shape({"type": geometry.geom_type, "coordinates": snapped(coords(geometry), grid_size)})

class Text:
    def __init__(self, value):
        self.value = value

def to_geojson(geometry, indent=None):
    return Text(mapping(geometry))

def loads(text):
    return text.value

class Feature:
    def __init__(self, data):
        self.data = data
    def __getitem__(self, key):
        return self.data[key]
    def __setitem__(self, key, value):
        self.data[key] = value
    def __contains__(self, key):
        return key in self.data
    def get(self, key, default=None):
        return self.data.get(key, default)
    @property
    def properties(self):
        return self.data["properties"]
    @properties.setter
    def properties(self, value):
        self.data["properties"] = value
    @property
    def geometry(self):
        return self.data["geometry"]
    @geometry.setter
    def geometry(self, value):
        self.data["geometry"] = value
    @property
    def bbox(self):
        return self.data["bbox"]
    @bbox.setter
    def bbox(self, value):
        self.data["bbox"] = value

class Features:
    def __init__(self, features):
        self.features = features
    def __getitem__(self, key):
        return self.features if key == "features" else self.features[key]

class GJ:
    def __init__(self, coordinates=None, precision=None):
        self.precision = precision
        self.coordinates = clean(coordinates)
    def __getitem__(self, key):
        return self.coordinates if key == "coordinates" else self.kind
    @property
    def type(self):
        return self.kind

def clean(c):
    if isinstance(c, GJ):
        return c.coordinates
    if isinstance(c, (list, tuple)):
        return [clean(q) for q in c]
    return c

class GJPoint(GJ):
    kind = "Point"
class GJLineString(GJ):
    kind = "LineString"
class GJPolygon(GJ):
    kind = "Polygon"
class GJMultiPoint(GJ):
    kind = "MultiPoint"
class GJMultiLineString(GJ):
    kind = "MultiLineString"
class GJMultiPolygon(GJ):
    kind = "MultiPolygon"
class GJGeometryCollection(GJ):
    kind = "GeometryCollection"
    def __init__(self, geometries=None):
        self.geometries = geometries
    def __getitem__(self, key):
        return self.geometries if key == "geometries" else self.kind

def gj(g):
    "plain form of a GeoJSON geometry"
    if g["type"] == "GeometryCollection":
        return ["GeometryCollection", [gj(q) for q in g["geometries"]]]
    return [g["type"], g.precision, listed(g["coordinates"])]

def listed(c):
    return [listed(q) for q in c] if isinstance(c, (list, tuple)) else c

def plain(m):
    "plain form of a geometry mapping"
    if m["type"] == "GeometryCollection":
        return ["GeometryCollection", [plain(q) for q in m["geometries"]]]
    return [m["type"], listed(m["coordinates"])]

def described(g):
    return None if g is None else plain(mapping(g))

class Tree:
    def __init__(self, geoms, node_capacity=10):
        self.geometries = geoms
    def query(self, geometry, predicate=None, distance=None):
        vga_stub.query(geometry, predicate, distance)
        return list(vga_stub.found())
    def query_nearest(self, geometry, max_distance=None, return_distance=False, exclusive=False, all_matches=True):
        vga_stub.nearest(geometry, max_distance, return_distance, exclusive, all_matches)
        return list(vga_stub.near())

class Spline:
    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0):
        self.grid = (x, y, z, kx, ky, s)
    def __call__(self, x, y, dx=0, dy=0, grid=True):
        value = vga_stub.spline(*self.grid, x, y, dx, dy)
        import numpy as np
        return np.array([[value]]) if grid else value
    def ev(self, xi, yi, dx=0, dy=0):
        return vga_stub.spline(*self.grid, xi, yi, dx, dy)

def area(boxes):
    x0 = min([b[0] for b in boxes]) - 10
    y0 = min([b[1] for b in boxes]) - 10
    x1 = max([b[2] for b in boxes]) + 10
    y1 = max([b[3] for b in boxes]) + 10
    return x0, y0, x1, y1

def steps(lo, hi, n):
    import numpy as np
    return np.linspace(lo, lo + (hi - lo), n)

def outline(x0, y0, x1, y1):
    return [(x0, y0), (x0, y1), (x1, y1), (x1, y0)]

def around(points):
    xs = [p[0] for p in points]
    ys = [p[1] for p in points]
    return min(xs), min(ys), max(xs), max(ys)

def deg(lon, lat, h):
    import math
    return [math.degrees(lon), math.degrees(lat), h]
"""

KINDS = "Point LineString LinearRing Polygon MultiPoint MultiLineString MultiPolygon GeometryCollection".split()


class World:
    def __init__(self, a):
        self.a = a
        self.r = r = a.ref(STUB)
        w = a.w
        for n in KINDS:
            for m in ("shapely.", "shapely.geometry.", "shapely.geometry.%s." % n.lower()):
                w.aliases[m + n] = r(n)
            if n != "LinearRing":
                w.aliases["geojson." + n] = w.aliases["geojson.geometry." + n] = r("GJ" + n)
        for m in ("shapely.", "shapely.geometry.", "shapely.geometry.base."):
            w.aliases[m + "Geometry"] = w.aliases[m + "BaseGeometry"] = r("Geometry")
            for n in ("shape", "box", "mapping"):
                w.aliases[m + n] = r(n)
        w.aliases["shapely.set_precision"] = r("set_precision")
        w.aliases["shapely.to_geojson"] = r("to_geojson")
        w.aliases["json.loads"] = r("loads")
        for m in ("shapely.STRtree", "shapely.strtree.STRtree"):
            w.aliases[m] = r("Tree")
        for n in ("scipy.interpolate.RectBivariateSpline", "scipy.interpolate.fitpack2.RectBivariateSpline"):
            w.aliases[n] = r("Spline")
        C = w.contracts
        C[("ext", "vga_stub.spline")] = spline
        C[("ext", "vga_stub.snapped")] = lambda I, s, args, kw, ctx: v.applyN(lambda *q: term("snapped", *q, kind="num"), args)
        C[("ext", "vga_stub.centroid")] = lambda I, s, args, kw, ctx: Tup([v.applyN(lambda *q, i=i: term("centroid." + i, *q, kind="num"), [I.freeze(x, s) for x in args]) for i in "xy"])

    def pts(self, name, n):
        return [Tup(self.a.syms(f"{name}x{i} {name}y{i}")) for i in range(n)]

    def geometry(self, st, kind, name="p"):
        """the GeoJSON form of a geometry of the given type, as it is found in a property"""
        a, p = self.a, self.pts
        lst = lambda xs: a.lst(st, xs)
        d = {"type": K(kind)}
        if kind == "Point":
            d["coordinates"] = p(name, 1)[0]
        elif kind in ("LineString", "LinearRing", "MultiPoint"):
            d["coordinates"] = lst(p(name, 4 if kind == "LinearRing" else 3))
        elif kind == "Polygon":
            d["coordinates"] = lst([lst(p(name, 4)), lst(p(name + "h", 3)), lst(p(name + "k", 3))])
        elif kind == "MultiLineString":
            d["coordinates"] = lst([lst(p(name, 2)), lst(p(name + "h", 3))])
        elif kind == "MultiPolygon":
            d["coordinates"] = lst([lst([lst(p(name, 3)), lst(p(name + "h", 3))]), lst([lst(p(name + "k", 3))])])
        elif kind == "GeometryCollection":
            d["geometries"] = lst([self.geometry(st, k, name + k[0].lower()) for k in ("Point", "Polygon", "LineString")])
        return a.dict(st, d)

    def feature(self, st, props, **more):
        a = self.a
        d = {"type": K("Feature"), "properties": a.dict(st, props)}
        d.update(more)
        return a.call(st, self.r("Feature"), a.dict(st, d))

    def bbox(self, st, name="b", n=4):
        return self.a.lst(st, self.a.syms(" ".join(name + q for q in ("x0", "y0", "x1", "y1"))))

    def shape_of(self, st, prop):
        return self.a.call(st, self.r("described"), self.a.call(st, self.r("shape"), prop))

    def shaped(self, st, g):
        return g if hasattr(self.a.I.deref(st, g), "cls") else self.a.call(st, self.r("shape"), g)

    def mapped(self, st, g):
        return self.a.call(st, self.r("mapping"), g) if hasattr(self.a.I.deref(st, g), "cls") else g

    def box_of(self, st, name):
        b = self.a.syms(" ".join(name + q for q in ("x0", "y0", "x1", "y1")))
        return self.a.call(st, self.r("described"), self.a.call(st, self.r("box"), *b))


def accessor(a, st, dep):
    return a.new(st, F + "ImagedFeaturePropertyAccessor", **({} if dep is None else {"allow_deprecated": K(dep)}))


def combos(a, keys):
    n = len(keys)
    for bits in itertools.product((False, True), repeat=n):
        if a.tier == "thorough" or sum(bits) <= 2 or sum(bits) >= n - 1:
            yield [k for k, b in zip(keys, bits) if b]


PROPS = ["imageGeometry", "imageBBox", "geom_imcoords", "detection", "bounds_imcoords"]


def props_for(a, w, st, keys, kind, extra):
    d = {"score": a.sym("score")}
    for k in keys:
        if k == "imageGeometry":
            d[k] = w.geometry(st, kind, "g")
        elif k == "imageBBox":
            d[k] = w.bbox(st, "b")
        elif k == "geom_imcoords":
            d[k] = a.lst(st, w.pts("r", 4))
        elif k == "detection":
            g = w.geometry(st, kind if kind != "GeometryCollection" else "Polygon", "d")
            d[k] = a.dict(st, {"type": a.m(st, g, "get", K("type")), "pixelCoordinates": a.m(st, g, "get", K("coordinates")), "kind": a.sym("label", "o")})
        elif k == "bounds_imcoords":
            d[k] = w.bbox(st, "o")
    if extra and "detection" not in keys:
        d["detection"] = a.dict(st, {"type": K("Point"), "score": a.sym("dscore")})
    return d


@ob("P21", "features/imaged_feature_property_accessor.py:ImagedFeaturePropertyAccessor.find_image_geometry", "the geometry comes from the first of imageGeometry, imageBBox, geom_imcoords, detection, bounds_imcoords that is present (the last three only when deprecated names are allowed); None when none is; the feature is left unchanged")
def find_geometry(a):
    w = World(a)
    for dep in (None, True, False):
        for keys in combos(a, PROPS):
            for kind, extra in (("Polygon", False), ("MultiPoint", True)):
                st = a.state()
                props = props_for(a, w, st, keys, kind, extra)
                f = w.feature(st, props)
                before = a.I.freeze(a.attr(st, f, "data"), st)
                got = a.m(st, accessor(a, st, dep), "find_image_geometry", f)
                what = f"{kind} with {' '.join(keys) or 'no properties'}{'' if dep is None else f' allow_deprecated={dep}'}"
                got = a.call(st, w.r("described"), got) if got is not None else None
                want = NONE
                for k in keys:
                    if k in ("imageGeometry",):
                        want = w.shape_of(st, props[k])
                    elif k == "imageBBox":
                        want = w.box_of(st, "b")
                    elif dep is False:
                        continue
                    elif k == "geom_imcoords":
                        want = a.call(st, w.r("described"), a.call(st, w.r("Polygon"), props[k]))
                    elif k == "detection":
                        want = w.shape_of(st, w.geometry(st, kind if kind != "GeometryCollection" else "Polygon", "d"))
                    elif k == "bounds_imcoords":
                        want = w.box_of(st, "o")
                    break
                a.eq(st, got, want, what)
                a.eq(st, a.attr(st, f, "data"), before, what + ": feature")
    a.never_raises("finding the image geometry")


@ob("P21", "features/imaged_feature_property_accessor.py:ImagedFeaturePropertyAccessor.set_image_geometry", "get_image_geometry and get_image_bbox return exactly what set_image_geometry and set_image_bbox stored, for every geometry type, and other properties keep their values")
def get_set_geometry(a):
    w = World(a)
    for kind in KINDS:
        st = a.state()
        acc = accessor(a, st, None)
        g = a.call(st, w.r("shape"), w.geometry(st, kind, "n"))
        d = a.call(st, w.r("described"), g)
        f = w.feature(st, {"score": a.sym("score"), "imageGeometry": w.geometry(st, "Point", "old")})
        a.eq(st, a.m(st, acc, "get_image_bbox", f), NONE, "absent box")
        a.m(st, acc, "set_image_geometry", f, g)
        a.eq(st, a.call(st, w.r("described"), a.m(st, acc, "get_image_geometry", f)), d, kind + " set and get")
        a.m(st, acc, "set_image_bbox", f, g)
        a.eq(st, a.m(st, a.attr(st, f, "properties"), "get", K("imageBBox")), a.items(st, a.attr(st, g, "bounds")), kind + " bounds")
        a.eq(st, a.call(st, w.r("described"), a.m(st, acc, "get_image_geometry", f)), d, kind + " after the box is set")
        a.eq(st, a.m(st, a.attr(st, f, "properties"), "get", K("score")), a.sym("score"), "other properties")
        shared, old = w.bbox(st, "b"), w.geometry(st, kind, "old")
        f, other = (w.feature(st, {"imageBBox": shared, "imageGeometry": old}) for i in range(2))
        a.m(st, acc, "set_image_bbox", f, g)
        a.m(st, acc, "set_image_geometry", f, g)
        a.eq(st, a.call(st, w.r("described"), a.m(st, acc, "get_image_bbox", other)), w.box_of(st, "b"), kind + ": box of another feature")
        a.eq(st, a.call(st, w.r("described"), a.m(st, acc, "get_image_geometry", other)), w.shape_of(st, w.geometry(st, kind, "old")), kind + ": geometry of another feature")
        f = w.feature(st, {"imageBBox": w.bbox(st, "b")})
        a.eq(st, a.m(st, acc, "get_image_geometry", f), NONE, "absent geometry")
        a.eq(st, a.call(st, w.r("described"), a.m(st, acc, "get_image_bbox", f)), w.box_of(st, "b"), "box")
    a.never_raises("setting geometries")


@ob("P21", "features/imaged_feature_property_accessor.py:ImagedFeaturePropertyAccessor.update_existing_image_geometries", "every image coordinate property that is present is rewritten from the new geometry in its own format, none is added, and deprecated ones are left alone unless allowed")
def update_geometry(a):
    w = World(a)
    for dep in (None, True, False):
        for keys in combos(a, PROPS):
            for kind, extra in (("Polygon", False), ("LineString", True), ("Polygon", True)):
                st = a.state()
                props = props_for(a, w, st, keys, "Point", extra)
                f = w.feature(st, props)
                old = {k: a.I.freeze(x, st) for k, x in props.items()}
                g = a.call(st, w.r("shape"), w.geometry(st, kind, "n"))
                m = a.call(st, w.r("mapping"), g)
                co = a.call(st, w.r("listed"), a.m(st, m, "get", K("coordinates")))
                a.m(st, accessor(a, st, dep), "update_existing_image_geometries", f, g)
                what = f"{kind} with {' '.join(keys) or 'no properties'} allow_deprecated={dep}"
                pr = a.attr(st, f, "properties")
                if pr is None:
                    a._no_value(what, st)
                    continue
                get = lambda d, k: a.m(st, d, "get", K(k))
                for k in PROPS + ["score"]:
                    new = get(pr, k)
                    tell = f"{what}: {k}"
                    if k not in props:
                        a.eq(st, new, NONE, tell + " not added")
                    elif k not in keys or (dep is False and k in PROPS[2:]):
                        a.eq(st, new, old[k], tell + " unchanged")
                    elif k == "imageGeometry":
                        a.eq(st, a.call(st, w.r("plain"), new), a.call(st, w.r("plain"), m), tell)
                    elif k in ("imageBBox", "bounds_imcoords"):
                        a.eq(st, new, a.items(st, a.attr(st, g, "bounds")), tell)
                    elif k == "geom_imcoords":
                        a.eq(st, a.call(st, w.r("listed"), new), a.items(st, co)[0] if kind == "Polygon" else co, tell)
                    elif k == "detection":
                        a.eq(st, get(new, "type"), K(kind), tell + " type")
                        a.eq(st, a.call(st, w.r("listed"), get(new, "pixelCoordinates")), co, tell + " coordinates")
                        a.eq(st, get(new, "kind"), a.sym("label", "o"), tell + " other members")
    a.never_raises("updating geometries")


@ob("P22", "features/feature_index.py:STRFeature2DSpatialIndex", "the tree holds one entry per feature in feature order (its image geometry, or its geographic geometry on request), and query results are mapped back to the features with those indices")
def index(a):
    w = World(a)
    C = a.w.contracts
    for image, dist, dep, count in itertools.product((None, True, False), (None, "given", "zero"), (None, True, False), (4, 1)):
        if count == 1 and (dist or dep):
            continue
        st = a.state()
        asked = []
        C[("ext", "vga_stub.query")] = lambda I, s, args, kw, ctx: (asked.append(("query", args)), NONE)[1]
        C[("ext", "vga_stub.nearest")] = lambda I, s, args, kw, ctx: (asked.append(("nearest", args)), NONE)[1]
        C[("ext", "vga_stub.found")] = lambda I, s, args, kw, ctx: Tup([K(i) for i in ((2, 0) if count == 4 else (0,))])
        C[("ext", "vga_stub.near")] = lambda I, s, args, kw, ctx: Tup([K(i) for i in ((1, 2) if count == 4 else (0,))])
        props = [{"imageGeometry": w.geometry(st, "Polygon", "g0")}, {"score": a.sym("s")}, {"geom_imcoords": a.lst(st, w.pts("r", 4))}, {"imageBBox": w.bbox(st, "b")}][:count]
        geo = [w.geometry(st, "Point", "w0"), w.geometry(st, "LineString", "w1"), NONE, w.geometry(st, "Polygon", "w3")][:count]
        fs = [w.feature(st, p, geometry=g) for p, g in zip(props, geo)]
        before = [a.I.freeze(a.attr(st, f, "data"), st) for f in fs]
        kw = {} if image is None else {"use_image_geometries": K(image)}
        if dep is not None:
            kw["property_accessor"] = accessor(a, st, dep)
        ix = a.new(st, F + "STRFeature2DSpatialIndex", a.call(st, w.r("Features"), a.lst(st, fs)), **kw)
        what = f"{count} features, use_image_geometries={image}, allow_deprecated={dep}"
        if ix is None:
            a._no_value(what, st)
            continue
        if image is False:
            want = [NONE if g is NONE else w.shape_of(st, g) for g in geo]
        else:
            want = [w.shape_of(st, props[0]["imageGeometry"])]
            if count == 4:
                want += [NONE, NONE if dep is False else a.call(st, w.r("described"), a.call(st, w.r("Polygon"), props[2]["geom_imcoords"])), w.box_of(st, "b")]
        tree = [x for x in a.I.deref(st, ix).attrs.values() if getattr(getattr(a.I.deref(st, x), "cls", None), "name", "") == "Tree"]
        a.check(len(tree) == 1, what, "the index has no tree")
        got = a.items(st, a.attr(st, tree[0], "geometries"))
        a.check(len(got) == count, what, f"the tree holds {len(got)} entries for {count} features")
        for i, (g, e) in enumerate(zip(got, want)):
            a.eq(st, a.call(st, w.r("described"), g), e, f"{what}: entry {i}")
        for kind in KINDS if count == 4 and dist is None and dep is None else ["Polygon"]:
            asked.clear()
            q = a.call(st, w.r("shape"), w.geometry(st, kind, "q"))
            hits = a.m(st, ix, "find_intersects", q)
            a.check(len(asked) == 1 and asked[0][0] == "query", what, "find_intersects does not query the tree once")
            a.eq(st, asked[0][1][0], q, what + ": geometry asked about")
            a.eq(st, asked[0][1][1], K("intersects"), f"{what}: predicate for a {kind}")
            a.eq(st, asked[0][1][2], NONE, what + ": distance")
            a.eq(st, hits, [fs[2], fs[0]] if count == 4 else [fs[0]], what + ": features found")
            asked.clear()
            d = {None: None, "given": a.sym("reach"), "zero": K(0)}[dist]
            hits = a.m(st, ix, "find_nearest", q, *([] if d is None else [d]))
            a.check(len(asked) == 1 and asked[0][0] == "nearest", what, "find_nearest does not query the tree once")
            reach = d if d is not None else K(1 if image is False else 50)
            for x, e, n in zip(asked[0][1], (q, reach, FALSE, FALSE, TRUE), ("geometry", "distance", "return_distance", "exclusive", "all_matches")):
                a.eq(st, x, e, f"{what}: nearest {n} for a {kind}")
            a.eq(st, hits, [fs[1], fs[2]] if count == 4 else [fs[0]], what + ": nearest features")
        for f, b in zip(fs, before):
            a.eq(st, a.attr(st, f, "data"), b, what + ": features")
        a.never_raises(what)


class Located:
    """reference geolocation of positions from a grid over the given boxes"""

    def __init__(self, a, w, st, boxes, sm, em, n):
        self.a, self.w, self.em = a, w, em
        x0, y0, x1, y1 = a.comps(st, a.call(st, w.r("area"), a.lst(st, boxes)), 4)
        self.xs = a.comps(st, a.call(st, w.r("steps"), x0, x1, K(n)), n)
        self.ys = a.comps(st, a.call(st, w.r("steps"), y0, y1, K(n)), n)
        self.z = [[v.applyN(lambda p, q, i=i: i2w(sm, p, q, em or NONE)[i], [x, y]) for x in self.xs for y in self.ys] for i in range(3)]
        self.z = [a.arr(st, [q[i * n : (i + 1) * n] for i in range(n)]) for q in self.z]

    def at(self, st, x, y):
        a = self.a
        g = [spline(a.I, st, [a.lst(st, self.xs), a.lst(st, self.ys), z, K(1), K(1), K(0), x, y, K(0), K(0)], {}, None) for z in self.z]
        if self.em is not None:
            g = g[:2] + [elev(self.em, *g)]
        return a.call(st, self.w.r("deg"), *g)

    def walk(self, st, c):
        """positions of a nested list of pixel positions"""
        a = self.a
        q = a.items(st, c)
        if len(q) >= 2 and a.I.items_of(q[0], st) is None:
            return self.at(st, q[0], q[1])
        return a.lst(st, [self.walk(st, p) for p in q])

    def geometry(self, st, m):
        """plain form of the GeoJSON geometry for a mapping in pixels"""
        a = self.a
        t = a.m(st, m, "get", K("type"))
        if t.val == "GeometryCollection":
            return a.lst(st, [t, a.lst(st, [self.geometry(st, q) for q in a.items(st, a.m(st, m, "get", K("geometries")))])])
        t = K("LineString") if t.val == "LinearRing" else t
        return a.lst(st, [t, NONE, self.walk(st, a.m(st, m, "get", K("coordinates")))])


CASES = [
    ["polygon"],
    ["point", "bare", "both"],
    ["box", "polygon"],
    ["old"],
    ["bare", "line", "box"],
    ["every"],
    ["bounds", "point"],
]


def geo_features(a, w, st, names, tag=""):
    """features, and for each: image geometry mapping or None, bbox name or None"""
    out = []
    for i, n in enumerate(names):
        i = f"{tag}{i}"
        d, g, b = {"score": a.sym(f"score{i}"), "detection": a.dict(st, {"type": K("Point"), "score": a.sym(f"dscore{i}")})}, None, None
        if n == "every":
            d["geom_imcoords"], d["bounds_imcoords"], d["category"] = a.lst(st, w.pts(f"o{i}", 4)), w.bbox(st, f"o{i}"), a.sym(f"category{i}", "o")
            d["detection"] = a.dict(st, {"type": K("Point"), "pixelCoordinates": w.pts(f"d{i}", 1)[0]})
        if n in ("polygon", "point", "line", "both", "every") or n in KINDS:
            k = {"both": "Polygon", "every": "Polygon", "line": "LineString", "point": "Point", "polygon": "Polygon"}.get(n, n)
            g = d["imageGeometry"] = w.geometry(st, k, f"f{i}")
        if n in ("box", "both", "every"):
            b = f"b{i}"
            d["imageBBox"] = w.bbox(st, b)
        if n == "old":
            d["geom_imcoords"] = a.lst(st, w.pts(f"f{i}", 4))
            g = a.dict(st, {"type": K("Polygon"), "coordinates": a.lst(st, [d["geom_imcoords"]])})
        if n == "bounds":
            d["bounds_imcoords"] = a.lst(st, (q := a.syms(f"l{i}x0 l{i}y0 l{i}x1 l{i}y1")))
            g = a.call(st, w.r("box"), *q)
        out.append((w.feature(st, d, geometry=NONE), g, b))
    return out


def geolocated(a, names, em, n, dep=None, earlier=()):
    lib.OPAQUE_MINMAX = True
    w = World(a)
    st = a.state()
    sm = a.obj("model", PG + "SensorModel")
    em = a.obj("elevations", PG + "ElevationModel") if em else None
    fs = geo_features(a, w, st, names)
    boxes = []
    for f, g, b in fs:
        if g is not None:
            boxes.append(a.attr(st, w.shaped(st, g), "bounds"))
        if b is not None:
            boxes.append(Tup(a.syms(" ".join(b + q for q in ("x0", "y0", "x1", "y1")))))
    loc = Located(a, w, st, boxes, sm, em, n or 11) if boxes else None
    before = [a.I.freeze(a.attr(st, f, "data"), st) for f, g, b in fs]
    props = [a.I.freeze(a.attr(st, f, "properties"), st) for f, g, b in fs]
    kw = {} if n is None else {"approximation_grid_size": K(n)}
    if em is not None:
        kw["elevation_model"] = em
    go = a.new(st, F + "Geolocator", accessor(a, st, dep), sm, **kw)
    for m, group in enumerate(earlier):
        a.m(st, go, "geolocate_features", a.lst(st, [f for f, g, b in geo_features(a, w, st, group, f"e{m}")]))
    a.m(st, go, "geolocate_features", a.lst(st, [f for f, g, b in fs]))
    a.never_raises("geolocation")
    for i, (f, g, b) in enumerate(fs):
        what = f"feature {i} of {' '.join(names)}"
        if g is None and b is None:
            a.eq(st, a.attr(st, f, "data"), before[i], what + ": unchanged")
            continue
        get = lambda k: a.m(st, f, "get", K(k))
        if b is not None:
            x0, y0, x1, y1 = a.syms(" ".join(b + q for q in ("x0", "y0", "x1", "y1")))
            pts = [loc.at(st, x, y) for x in (x0, x1) for y in (y0, y1)]
            a.eq(st, get("bbox"), a.comps(st, a.call(st, w.r("around"), a.lst(st, pts)), 4), what + ": bbox")
            c = [v.div(v.add(x0, x1), K(2)), v.div(v.add(y0, y1), K(2))]
        else:
            a.eq(st, get("bbox"), NONE, what + ": no bbox")
        if g is not None:
            got = get("geometry")
            a.eq(st, a.call(st, w.r("gj"), got) if got is not None else None, loc.geometry(st, w.mapped(st, g)), what + ": geometry")
            ce = a.attr(st, w.shaped(st, g), "centroid")
            c = [a.attr(st, ce, "x"), a.attr(st, ce, "y")]
        else:
            a.eq(st, get("geometry"), NONE, what + ": geometry")
        lon, lat, h = a.comps(st, loc.at(st, *c), 3)
        p = a.attr(st, f, "properties")
        a.eq(st, a.m(st, p, "get", K("center_longitude")), lon, what + ": centre longitude")
        a.eq(st, a.m(st, p, "get", K("center_latitude")), lat, what + ": centre latitude")
        for k in ("center_longitude", "center_latitude"):
            a.m(st, p, "pop", K(k), NONE)
        a.eq(st, p, props[i], what + ": other properties")


@ob("P21", "features/geolocation.py:Geolocator._geolocate_image_geometry", "a geometry of every type is converted vertex by vertex, in order, with its rings and parts, to degrees of longitude and latitude and metres of elevation")
def geolocate_types(a):
    for kind in KINDS:
        geolocated(a, [kind], True, 2)


@ob("P21", "features/geolocation.py:Geolocator._geolocate_features_using_approximation_grid", "positions come from one bilinear grid of sensor model positions covering every image geometry and box with a 10 pixel margin; boxes give bbox, geometries give geometry, both give the centre; features without image coordinates stay as they are")
def geolocate_mixed(a):
    for names in CASES + [["bare"], ["bare", "bare"], []]:
        for em in (False, True):
            geolocated(a, names, em, 3)
    for em in (False, True):
        geolocated(a, ["box", "polygon"], em, 3, earlier=[["point", "bare"], ["box"]])


@ob("P21", "features/geolocation.py:Geolocator.__init__", "the grid has 11 by 11 points unless another size is asked for, and an elevation model sets the final elevation")
def geolocate_default(a):
    geolocated(a, ["point"], True, None)
    geolocated(a, ["Point"], False, 4)
