"""Web Mercator tile sets."""
from vga import contracts, lib
from vga import values as v
from vga.spec import ob
from vga.values import K, NONE, Tup

IP = "aws.osml.image_processing."
PG = "aws.osml.photogrammetry."

REF = """
import math
import pyproj
MERC = pyproj.Proj("EPSG:3857")
T = pyproj.Transformer.from_proj(pyproj.Proj("EPSG:4326"), MERC)

def half():
    return math.pi * MERC.crs.ellipsoid.semi_major_metre

def bounds(z, row, col):
    w = 2 * half() / 2**z
    a, b = T.transform(col * w - half(), row * w - half(), radians=True, direction="INVERSE")
    c, d = T.transform((col + 1) * w - half(), (row + 1) * w - half(), radians=True, direction="INVERSE")
    return b, a, d, c

def project(lon, lat):
    return T.transform(lat, lon, radians=True)

def metres(fx, fy):
    # from the position in the square, 0..1 from the west and south edges
    return (2 * fx - 1) * half(), (2 * fy - 1) * half()
"""


def text(x):
    """the text of an identifier, be it a string or a member of a string enumeration"""
    return v.apply1(lambda l: l.value if isinstance(l, v.EnumM) and l.isstr else l, x)


AREA = """
def limits(rows, cols):
    return min(cols), min(rows), max(cols), max(rows)
"""


def zooms(a):
    return range(0, 25) if a.tier == "thorough" else (0, 1, 2, 7, 10, 19, 24)


@ob("P20", "image_processing/map_tileset_factory.py:MapTileSetFactory.get_for_id", "the two well known tile sets are found by their identifiers, with 256 and 512 pixel tiles; other identifiers give None")
def tileset_ids(a):
    st = a.state()
    f = a.get(IP + "map_tileset_factory.MapTileSetFactory.get_for_id")
    for n, m, size in (("WebMercatorQuad", "WEB_MERCATOR_QUAD", 256), ("WebMercatorQuadx2", "WEB_MERCATOR_QUAD_X2", 512)):
        for q in (K(n), a.get(IP + "map_tileset_factory.WellKnownMapTileSet." + m)):
            ts = a.call(st, f, q)
            a.eq(st, v.veq(text(a.attr(st, ts, "tile_matrix_set_id")), K(n)), v.TRUE, n)
            t = a.m(st, ts, "get_tile", a.call(st, a.get(IP + "map_tileset.MapTileId"), *a.syms("z row col", "i")))
            a.eq(st, a.attr(st, t, "size"), [K(size), K(size)], n + " tile size")
    for n in ("WorldCRS84Quad", "webmercatorquad", ""):
        a.eq(st, a.call(st, f, K(n)), NONE, "unknown tile set " + n)
    a.never_raises("known identifiers")


@ob("P20", "image_processing/map_tileset_wmq.py:WebMercatorQuadMapTileSet.get_tile", "tile (zoom, row, column) covers its cell of the 2^zoom by 2^zoom grid over the Mercator square, counted from the south west corner, as (min lon, min lat, max lon, max lat) in radians")
def tile_bounds(a):
    r = a.ref(REF)
    for name in ("WebMercatorQuad", "WebMercatorQuadx2"):
        st = a.state()
        ts = a.call(st, a.get(IP + "map_tileset_factory.MapTileSetFactory.get_for_id"), K(name))
        row, col = a.syms("row col", "i")
        for z in zooms(a):
            i = a.call(st, a.get(IP + "map_tileset.MapTileId"), tile_matrix=K(z), tile_row=row, tile_col=col)
            t = a.m(st, ts, "get_tile", i)
            want = a.call(st, r("bounds"), K(z), row, col)
            a.eq(st, a.attr(st, t, "bounds"), a.comps(st, want, 4), f"{name} bounds at zoom {z}")
            a.eq(st, a.attr(st, t, "id"), i, "tile id")
    a.never_raises("tile description")


@ob("P20", "image_processing/map_tileset_wmq.py:WebMercatorQuadMapTileSet.get_tile_for_location", "the tile found for a location inside the Mercator square is a tile of the grid whose cell contains the location, at every zoom level")
def tile_for_location(a):
    r = a.ref(REF)
    for name in ("WebMercatorQuad", "WebMercatorQuadx2"):
        for z in zooms(a):
            st = a.state()
            ts = a.call(st, a.get(IP + "map_tileset_factory.MapTileSetFactory.get_for_id"), K(name))
            lon, lat, h = a.syms("lon lat h")
            fx, fy = a.syms("fx fy")
            at = Tup(a.comps(st, a.call(st, r("metres"), fx, fy), 2))
            plain = contracts.proj_transform
            seen = []

            def transform(I, x, name, args, kw, st, ctx):
                got = plain(I, x, name, args, kw, st, ctx)
                if isinstance(got, Tup) and contracts.direction_of(kw.get("direction")) == "FORWARD":
                    seen.append(got.items[0])
                    return at
                return got

            lib.METHOD_MODELS["transform"] = transform
            a.assume(st, v.le(K(0), fx), v.le(fx, K(1)), v.le(K(0), fy), v.le(fy, K(1)))
            t = a.m(st, ts, "get_tile_for_location", a.new(st, PG + "GeodeticWorldCoordinate", a.lst(st, [lon, lat, h])), K(z))
            a.never_raises("tile lookup")
            want = a.call(st, r("project"), lon, lat)
            for q in seen[:-1]:
                a.eq(st, q, seen[-1], "location projected")
            a.eq(st, a.attr(st, t, "id.tile_matrix"), K(z), "zoom level")
            for n, f in (("tile_col", fx), ("tile_row", fy)):
                i = a.attr(st, t, "id." + n)
                wit = [{"fx": x, "fy": y, "a:*": 6378137.0} for x in (0.0, 0.31, 0.5, 0.77, 1.0) for y in (0.0, 0.29, 0.5, 0.83, 1.0)]
                a.within(st, i, K(0), K(2**z - 1), f"{n} at zoom {z}", witnesses=wit)
                a.within(st, v.sub(v.mul(f, K(2**z)), i), K(0), K(1), f"{n} at zoom {z} contains the location", witnesses=wit)


@ob("P20", "image_processing/map_tileset.py:MapTileSet.get_tile_matrix_limits_for_area", "the limits are the smallest and largest column and row of the tiles holding the boundary points, as (min col, min row, max col, max row)")
def tile_limits(a):
    r = a.ref(AREA)
    for n in (1, 2, 4, 5, 7):
        st = a.state()
        z = a.sym("z", "i")
        ts = a.call(st, a.get(IP + "map_tileset_factory.MapTileSetFactory.get_for_id"), K("WebMercatorQuad"))
        seen = []
        rows, cols = a.syms(" ".join(f"row{i}" for i in range(n)), "i"), a.syms(" ".join(f"col{i}" for i in range(n)), "i")

        def lookup(I, st, f, args, kw):
            args = list(args)
            pt = kw["world_coordinate"] if "world_coordinate" in kw else args.pop(1)
            tm = kw["tile_matrix"] if "tile_matrix" in kw else args.pop(1)
            a.eq(st, tm, z, "zoom level passed on")
            i = [k for k, p in enumerate(pts) if I.freeze(p, st).key == I.freeze(pt, st).key]
            if len(i) != 1:
                a.fail("boundary point", "the tile set is asked about a point that is not a boundary point", undecided=True)
                return NONE
            mid = a.call(st, a.get(IP + "map_tileset.MapTileId"), tile_matrix=z, tile_row=rows[i[0]], tile_col=cols[i[0]])
            return a.call(st, a.get(IP + "map_tileset.MapTile"), id=mid, size=Tup([K(256), K(256)]), bounds=NONE)

        pts = [a.new(st, PG + "GeodeticWorldCoordinate", a.lst(st, a.syms(f"lon{i} lat{i} h{i}"))) for i in range(n)]
        a.w.contracts[("fn", "WebMercatorQuadMapTileSet", "get_tile_for_location")] = lookup
        got = a.m(st, ts, "get_tile_matrix_limits_for_area", a.lst(st, pts), z)
        want = a.call(st, r("limits"), a.lst(st, rows), a.lst(st, cols))
        a.eq(st, got, a.comps(st, want, 4), f"limits of {n} points")
        a.never_raises("limits")
