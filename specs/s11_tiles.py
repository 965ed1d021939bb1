"""Encoded tiles: creation options, chip metadata, independence of earlier tiles, temporary files on every exit."""
import importlib

from vga import lib
from vga import values as v
from vga.interp import Dead, HArr, HBox, HDict, HInst, HList
from vga.spec import ob
from vga.values import Ext, FALSE, G, K, NONE, Ref, TRUE, Tup, b_and, b_not, b_or, ite, pred
from vga.xmlmodel import element

IP = "aws.osml.image_processing."
Gd = "aws.osml.gdal."
TF = IP + "gdal_tile_factory.GDALTileFactory"


def mod(n):
    return importlib.import_module("spec_" + n)


GDAL = """
class Translated:
    def __init__(self):
        self.closed = False
    def FlushCache(self):
        self.closed = True
    def Close(self):
        self.closed = True
    def __enter__(self):
        return self
    def __exit__(self, a, b, c):
        self.closed = True
        return False

class Stat:
    def __init__(self, size):
        self.size = size
        self.IsDirectory = False

class Handle:
    def __init__(self, name):
        self.name = name

class Driver:
    def __init__(self, world, name):
        self.world = world
        self.ShortName = name
    def Delete(self, name):
        # a driver deletes a dataset it can identify, with its side-car files
        if name not in self.world.files or name not in self.world.complete:
            raise RuntimeError("not recognised as being in a supported file format")
        self.world.remove(name)
        self.world.remove(name + ".aux.xml")
        self.world.deleted_by.append(self.ShortName)
        return 0

class World:
    def __init__(self, translate, opens, reads, size, data):
        self.translate = translate
        self.opens = opens
        self.reads = reads
        self.size = size
        self.data = data
        self.files = []
        self.complete = []
        self.handles = []
        self.requests = []
        self.names = []
        self.deleted_by = []
    def remove(self, name):
        self.files = [f for f in self.files if f != name]
    def TranslateOptions(self, options=None, **kw):
        return kw
    def Translate(self, destName, srcDS, options=None, **kw):
        d = {}
        if options:
            d.update(options)
        d.update(kw)
        self.names.append(destName)
        self.requests.append((srcDS, d))
        if self.translate != "clean failure":
            self.files.append(destName)
        if self.translate == "raises":
            raise RuntimeError("cannot encode")
        if self.translate != "ok":
            return None
        self.complete.append(destName)
        self.files.append(destName + ".aux.xml")
        return Translated()
    def VSIFOpenL(self, name, mode):
        if self.opens == "none" or name not in self.files:
            return None
        h = Handle(name)
        self.handles.append(h)
        return h
    def VSIFCloseL(self, h):
        self.handles = [x for x in self.handles if x is not h]
        return 0
    def VSIStatL(self, name, flags=0):
        if name not in self.files:
            return None
        return Stat(self.size)
    def VSIFReadL(self, size, count, h):
        if self.reads == "raises":
            raise MemoryError("read")
        return (self.data, size * count, h.name)
    def Unlink(self, name):
        if name not in self.files:
            return -1
        self.remove(name)
        return 0
    def GetDriverByName(self, name):
        return Driver(self, name)
    def ReadDir(self, name):
        return list(self.files)

class Image:
    def __init__(self, driver, des, bands, w, h):
        self.driver = driver
        self.des = des
        self.bands = bands
        self.RasterCount = len(bands)
        self.RasterXSize = w
        self.RasterYSize = h
    def GetDriver(self):
        return Driver(None, self.driver)
    def GetMetadata(self, domain=""):
        return self.des if domain == "xml:DES" else {}
    def GetRasterBand(self, n):
        return self.bands[n - 1]

def world(*args):
    return World(*args)

def image(driver, des, specs, w, h):
    return Image(driver, des, [Band(*s) for s in specs], w, h)

def igeolo(model, win, point):
    x, y, w, h = win
    s = ""
    for c in [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]:
        s += model.image_to_world(point(c)).to_dms_string()
    return s
"""


class Env:
    def __init__(self, a, st, translate="ok", opens="ok", reads="ok"):
        self.a = a
        self.r = a.ref(mod("s09_gdal_utils").STUB + GDAL)
        self.w = a.call(st, self.r("world"), translate, opens, reads, a.sym("file_size", "i"), a.sym("file_bytes", "o"))
        self.open_datasets = []
        self.tokens = 0
        C = a.w.contracts
        for n in ("Translate", "TranslateOptions", "VSIFCloseL", "VSIStatL", "VSIFReadL", "Unlink", "GetDriverByName", "ReadDir"):
            C[("ext", "gdal." + n)] = lambda I, s, args, kw, ctx, n=n: I.call(I.getattr(self.w, n, s, ctx), args, kw, s, ctx)

        def vopen(I, s, args, kw, ctx):
            self.open_datasets.append((s.pc, still_open(I, s), v.Where.cur))
            return I.call(I.getattr(self.w, "VSIFOpenL", s, ctx), args, kw, s, ctx)

        C[("ext", "gdal.VSIFOpenL")] = vopen
        for n in ("secrets.token_hex", "secrets.token_urlsafe", "uuid.uuid4", "uuid.uuid1"):
            C[("ext", n)] = self.token

    def token(self, I, st, args, kw, ctx):
        self.tokens += 1
        return v.sym(f"token{self.tokens}", "s")

    def get(self, st, n):
        return self.a.attr(st, self.w, n)


def still_open(I, st):
    """an encoded dataset reachable from a variable of a running function keeps its file open; condition of that"""
    seen = set()
    g = FALSE

    def go(x, cond):
        nonlocal g
        if isinstance(x, G):
            for c, l in v.leaves(x):
                go(l, b_and(cond, c))
        elif isinstance(x, Tup):
            for i in x.items:
                go(i, cond)
        elif isinstance(x, Ref):
            if x.key in seen:
                return
            h = I.deref(st, x)
            if isinstance(h, HInst):
                if getattr(h.cls, "name", "") == "Translated":
                    closed = h.attrs.get("closed", FALSE)
                    g = b_or(g, b_and(cond, b_not(I.truth(closed, st))))
                    return
                if getattr(h.cls, "name", "") in ("World", "Driver", "Image"):
                    return
                seen.add(x.key)
                for y in h.attrs.values():
                    go(y, cond)
            elif isinstance(h, HList):
                seen.add(x.key)
                for c, y, _ in h.entries:
                    go(y, b_and(cond, c))
            elif isinstance(h, HDict):
                seen.add(x.key)
                for c, _, y in h.entries.values():
                    go(y, b_and(cond, c))

    for addr in I.frames:
        env = st.heap.get(addr)
        for x in getattr(env, "vars", {}).values():
            if isinstance(x, v.V):
                go(x, TRUE)
    return g


def image(a, st, env, types=("Byte",), driver="GTiff", des=NONE, tag=""):
    b = mod("s09_gdal_utils")
    specs = []
    for i, t in enumerate(types):
        stats = a.syms(f"{tag}smin{i} {tag}smax{i} {tag}mean{i} {tag}std{i}")
        specs.append(Tup([b.const(a, t), a.lst(st, stats), a.lst(st, [a.sym(f"{tag}h{i}_{j}", "i") for j in range(2)]), a.lst(st, [])]))
    return a.call(st, env.r("image"), driver, des, a.lst(st, specs), a.sym("W", "i"), a.sym("H", "i"))


def fmt(a, n):
    return a.get(Gd + "typing.GDALImageFormats." + n)


def comp(a, n):
    return NONE if n is None else K("UNSUPPORTED") if n == "other" else a.get(Gd + "typing.GDALCompressionOptions." + n)


def requests(a, st, env):
    """[(source dataset, options as {name: value})]"""
    out = []
    for q in a.items(st, env.get(st, "requests")):
        src, d = q.items
        h = a.I.deref(st, d)
        out.append((src, {k.val: x for g, k, x in h.entries.values() if g is TRUE}))
    return out


def options(a, st, q):
    o = q.get("creationOptions", NONE)
    if not isinstance(lib.unbox(a.I, o, st), Ref):
        return [o]
    h = a.I.deref(st, lib.unbox(a.I, o, st))
    return [x for g, x, _ in h.entries]


IC = {None: "C8", "J2K": "C8", "JPEG": "C3", "NONE": "NC", "LZW": "C8", "other": "C8"}
COMPRESS = {None: "LZW", "LZW": "LZW", "JPEG": "JPEG", "NONE": "NONE", "J2K": "LZW", "other": "LZW"}
KNOWN = {"scaleParams", "outputType", "format", "creationOptions", "srcWin", "width", "height"}


def common(a, st, q, src, ds, win, f, scales, size, what):
    a.eq(st, src, ds, what + ": source image")
    a.check(set(q) <= KNOWN | {"options"}, what + ": translate options", f"unexpected options {sorted(set(q) - KNOWN)}")
    a.eq(st, q.get("srcWin", NONE), list(win), what + ": source window")
    a.eq(st, a.I.truth(lib.equals(a.I, q.get("format", NONE), K(f), st, None), st), TRUE, what + ": format")
    ty, sc = a.comps(st, scales, 2)
    a.eq(st, q.get("outputType", NONE), ty, what + ": pixel type")
    a.eq(st, q.get("scaleParams", NONE), sc, what + ": scale parameters")
    for i, n in enumerate(("width", "height")):
        got = q.get(n, NONE)
        if size is None:
            a.check(got.key in (NONE.key, K(0).key), what + f": output {n}", f"is {got!r} although no output size was requested")
        else:
            a.eq(st, got, size[i], what + f": output {n}")


def opt_eq(a, st, opts, want, what):
    fz = sorted((a.I.freeze(o, st) for o in opts), key=lambda t: repr(t.key))
    wz = sorted((v.lift_const(w) for w in want), key=lambda t: repr(t.key))
    if len(fz) != len(wz):
        a.fail(what, f"creation options are {[repr(f) for f in fz]} but must be {[repr(w) for w in wz]}")
        return
    for f, w in zip(fz, wz):
        a.eq(st, f, w, what)


@ob("P27", "image_processing/gdal_tile_factory.py:GDALTileFactory.create_encoded_tile", "format, pixel type, scaling, window, output size and the compression option of every (format, compression, pixel type) combination")
def tile_options(a):
    for f in ("NITF", "JPEG", "PNG", "GTIFF"):
        for c in (None, "NONE", "JPEG", "J2K", "LZW", "other"):
            for types, out in ((("Byte",), None), (("UInt16", "Float32"), None), (("Float64",), None), (("Float32",), "Byte"), (("UInt16", "UInt16", "UInt16"), "Byte"), (("Byte",), "Float32")):
                st = a.state()
                env = Env(a, st)
                ds = image(a, st, env, types)
                o = NONE if out is None else mod("s09_gdal_utils").const(a, out)
                adj = a.get(Gd + "typing.RangeAdjustmentType." + ("NONE" if len(types) < 3 else "DRA"))
                if len(types) == 3:
                    a.assume(st, *[v.lt(a.sym(f"smin{i}"), a.sym(f"smax{i}")) for i in range(3)])
                scales = a.call(st, a.get(Gd + "gdal_utils.get_type_and_scales"), ds, o, adj)
                fac = a.new(st, TF, ds, NONE, fmt(a, f), comp(a, c), o, adj)
                win = a.syms("x y w h", "i")
                size = a.syms("ow oh", "i") if c in (None, "JPEG") else None
                what = f"{f} {c} {'/'.join(types)}->{out}"
                a.m(st, fac, "create_encoded_tile", a.lst(st, win), *([Tup(size)] if size else []))
                a.never_raises(what)
                rq = requests(a, st, env)
                if len(rq) != 1:
                    a.fail(what, f"{len(rq)} translations for one tile", undecided=not rq)
                    continue
                src, q = rq[0]
                common(a, st, q, src, ds, win, {"GTIFF": "GTiff"}.get(f, f), scales, size, what)
                ty = out or types[-1]
                if f == "NITF":
                    ic = IC[c]
                    if c in (None, "J2K") and ty.startswith("Float"):
                        ic = "NC"
                    want = ["IC=" + ic]
                elif f == "GTIFF":
                    want = ["COMPRESS=" + COMPRESS[c]]
                else:
                    want = []
                opt_eq(a, st, options(a, st, q), want, what + ": creation options")


def keyed(a, st, env, opts, key):
    """values of the creation options with a given name"""
    def pick(o):
        if isinstance(o, K):
            return K(o.val[len(key) + 1 :]) if str(o.val).startswith(key + "=") else v.UNDEF
        if isinstance(o, v.T) and o.op == "cat" and isinstance(o.args[0], K):
            return lib.concat(a.I, [K(o.args[0].val[len(key) + 1 :])] + list(o.args[1:])) if str(o.args[0].val).startswith(key + "=") else v.UNDEF
        return v.top("creation option " + repr(o)[:60])

    out = [v.apply1(pick, a.I.freeze(o, st)) for o in opts]
    return [o for o in out if o.key != v.UNDEF.key]


@ob("P11 P27", "image_processing/gdal_tile_factory.py:GDALTileFactory.create_encoded_tile", "IGEOLO holds the four corners of the tile in (0,0), (max x,0), (max x,max y), (0,max y) order as the sensor model sees them; only for NITF with a sensor model")
def tile_igeolo(a):
    for f in ("NITF", "PNG", "GTIFF", "JPEG"):
        for has in (True, False):
            st = a.state()
            env = Env(a, st)
            ds = image(a, st, env)
            model = a.obj("model", "aws.osml.photogrammetry.SensorModel") if has else NONE
            a.w.contracts[("fn", "GeodeticWorldCoordinate", "to_dms_string")] = lambda I, s, fn, args, kw: v.term("dms", *a.coord(s, args[0], 3), kind="s")
            fac = a.new(st, TF, ds, model, fmt(a, f))
            for k in ("a", "b"):
                win = a.syms(f"{k}x {k}y {k}w {k}h", "i")
                a.m(st, fac, "create_encoded_tile", a.lst(st, win), *([] if k == "a" else [Tup(a.syms("ow oh", "i"))]))
            rq = requests(a, st, env)
            if len(rq) != 2:
                a.fail(f"{f}", f"{len(rq)} translations for two tiles", undecided=not rq)
                continue
            base = {"NITF": ["IC=NC"], "GTIFF": ["COMPRESS=NONE"]}.get(f, [])
            for k, (src, q) in zip(("a", "b"), rq):
                win = a.syms(f"{k}x {k}y {k}w {k}h", "i")
                want = list(base)
                if has and f == "NITF":
                    g = a.call(st, env.r("igeolo"), model, a.lst(st, win), a.get("aws.osml.photogrammetry.ImageCoordinate"))
                    want += ["ICORDS=G", a.I.freeze(lib.concat(a.I, [K("IGEOLO="), g]), st)]
                opt_eq(a, st, options(a, st, q), want, f"{f} tile {k}{' with model' if has else ''}: creation options")
            a.never_raises(f"{f}")


def des_image(a, st, env, texts, driver="NITF"):
    """an image whose XML_DATA_CONTENT segments hold the given texts"""
    segs = [element(a, st, "des", {"name": "XML_DATA_CONTENT"}, []) for t in texts]
    other = element(a, st, "des", {"name": "TRE_OVERFLOW"}, [])
    meta = a.sym("des_doc", "s")
    a.documents[meta.key] = element(a, st, "des_list", {}, [other] + segs)
    by = {s.key: (t, v.sym(f"header{i}", "s")) for i, (s, t) in enumerate(zip(segs, texts))}
    cur = lambda args, kw: by[(args[0] if args else list(kw.values())[0]).key]
    C = a.w.contracts
    C[("fn", "NITFDESAccessor", "extract_desdata_xml")] = lambda I, s, fn, args, kw: cur(args, kw)[0]
    C[("fn", "NITFDESAccessor", "extract_des_header")] = lambda I, s, fn, args, kw: cur(args, kw)[1]
    return image(a, st, env, ("Float32", "Float32"), driver, a.lst(st, [meta]))


SICD, SIDD, PLAIN = K("<SICD>original</SICD>"), K("<SIDD>original <SICD/></SIDD>"), K("<Other/>")


@ob("P11 P09", "image_processing/gdal_tile_factory.py:GDALTileFactory", "SAR tiles carry the header of the chosen segment followed by its metadata updated for this tile alone (SIDD before SICD), with ICAT=SAR; other formats carry none")
def tile_sar(a):
    up = mod("s10_updaters")
    sicdv, siddv = up.SICDV[0], up.SIDDV[1]
    first, size = a.syms("r0 c0", "i"), a.syms("rows cols", "i")
    docs = {SICD.key: up.sicd_doc(a, sicdv, first, size), SIDD.key: up.sidd_doc(a, siddv, None)}
    for texts, pick in (([SICD], 0), ([SIDD], 0), ([SIDD, SICD], 0), ([PLAIN, SICD], 1), ([NONE, SIDD], 1), ([PLAIN], None), ([], None)):
        for f in ("NITF", "PNG"):
            for driver in ("NITF", "GTiff"):
                if driver == "GTiff" and (f != "NITF" or len(texts) != 1):
                    continue
                st = a.state()
                env = Env(a, st)
                up.xsdata(a, docs)
                ds = des_image(a, st, env, texts, driver)
                names = "+".join("none" if t.key == NONE.key else str(t.val)[1:6] for t in texts) or "no segment"
                what = f"{names} from {driver} to {f}"
                fac = a.new(st, TF, ds, NONE, fmt(a, f))
                wins = [a.syms(f"{k}x {k}y {k}w {k}h", "i") for k in ("a", "b")]
                for win in wins:
                    a.m(st, fac, "create_encoded_tile", a.lst(st, win))
                a.never_raises(what)
                rq = requests(a, st, env)
                if len(rq) != 2:
                    a.fail(what, f"{len(rq)} translations for two tiles", undecided=not rq)
                    continue
                sar = pick is not None and f == "NITF" and driver == "NITF"
                rend = a.ref("import vga_stub\ndef f(d):\n    return vga_stub.rendered(d)\n")("f")
                for k, (win, (src, q)) in enumerate(zip(wins, rq)):
                    opts = options(a, st, q)
                    des = keyed(a, st, env, opts, "DES")
                    if not sar:
                        opt_eq(a, st, opts, ["IC=NC"] if f == "NITF" else [], what + ": creation options")
                        continue
                    x, y, w, h = win
                    if texts[pick] is SICD:
                        d = up.sicd_doc(a, sicdv, [v.add(first[0], y), v.add(first[1], x)], [h, w])(st)
                    else:
                        cs = a.call(st, a.ref(up.REF)("corners"), a.lst(st, win))
                        d = up.sidd_doc(a, siddv, ([w, h], up.corner_vals(a, st, cs)))(st)
                    text = a.call(st, rend, d)
                    want = a.I.freeze(lib.concat(a.I, [K("XML_DATA_CONTENT="), v.sym(f"header{pick}", "s"), text]), st)
                    a.eq(st, a.lst(st, des), a.lst(st, [want]), what + f": DES of tile {k + 1}")
                    a.eq(st, a.lst(st, keyed(a, st, env, opts, "ICAT")), a.lst(st, [K("SAR")]), what + ": ICAT")
                    a.eq(st, a.lst(st, keyed(a, st, env, opts, "IC")), a.lst(st, [K("NC")]), what + ": IC")


@ob("P09", "image_processing/gdal_tile_factory.py:GDALTileFactory.create_encoded_tile", "a tile's encoding request is the same whatever tiles the factory made before")
def tile_history(a):
    for f in ("NITF", "GTIFF", "PNG"):
        for c in ("NONE", "JPEG"):
            st = a.state()
            env = Env(a, st)
            ds = image(a, st, env, ("Byte", "Byte"))
            model = a.obj("model", "aws.osml.photogrammetry.SensorModel")
            a.w.contracts[("fn", "GeodeticWorldCoordinate", "to_dms_string")] = lambda I, s, fn, args, kw: v.term("dms", *a.coord(s, args[0], 3), kind="s")
            mk = lambda: a.new(st, TF, ds, model, fmt(a, f), comp(a, c))
            wins = [a.syms(f"{k}x {k}y {k}w {k}h", "i") for k in "abc"]
            size = a.syms("ow oh", "i")
            fac = mk()
            a.m(st, fac, "create_encoded_tile", a.lst(st, wins[0]), Tup(size))
            a.m(st, fac, "create_encoded_tile", a.lst(st, wins[1]))
            a.m(st, fac, "create_encoded_tile", a.lst(st, wins[2]), Tup(size))
            a.m(st, mk(), "create_encoded_tile", a.lst(st, wins[1]))
            a.m(st, mk(), "create_encoded_tile", a.lst(st, wins[2]), Tup(size))
            a.never_raises(f"{f} {c}")
            rq = a.items(st, env.get(st, "requests"))
            names = a.items(st, env.get(st, "names"))
            if len(rq) != 5:
                a.fail(f"{f} {c}", f"{len(rq)} translations for five tiles", undecided=not rq)
                continue
            a.eq(st, rq[1], rq[3], f"{f} {c}: second tile")
            a.eq(st, rq[2], rq[4], f"{f} {c}: third tile")
            ks = {a.I.freeze(n, st).key for n in names}
            a.check(len(ks) == 5, f"{f} {c}: temporary names", "two tiles share one temporary file name")


@ob("P10", "image_processing/gdal_tile_factory.py:GDALTileFactory.create_encoded_tile", "every tile is encoded into a temporary file of its own, even for one window and when an earlier tile failed")
def tile_names(a):
    for tr in ("ok", "partial"):
        st = a.state()
        env = Env(a, st, tr)
        facs = [a.new(st, TF, image(a, st, env), NONE, fmt(a, f)) for f in ("PNG", "PNG", "NITF")]
        win = a.syms("x y w h", "i")
        for k in (0, 0, 1, 2):
            a.m(st, facs[k], "create_encoded_tile", a.lst(st, win))
        ns = a.items(st, env.get(st, "names"))
        a.check(len(ns) == 4, tr, f"{len(ns)} encodings for four tiles")
        a.check(len({a.I.freeze(n, st).key for n in ns}) == len(ns), f"encoding {tr}: temporary names", "two tiles share one temporary file name")


@ob("P10", "image_processing/gdal_tile_factory.py:GDALTileFactory.create_encoded_tile", "on every exit the temporary file and its handle are gone; no tile is returned unless encoding succeeded and the encoder was closed before the file is read")
def tile_resources(a):
    for f in ("NITF", "PNG"):
        for tr, op, rd in (("ok", "ok", "ok"), ("ok", "ok", "raises"), ("ok", "none", "ok"), ("partial", "ok", "ok"), ("partial", "none", "ok"), ("raises", "ok", "ok"), ("clean failure", "ok", "ok")):
            st = a.state()
            env = Env(a, st, tr, op, rd)
            ds = image(a, st, env)
            fac = a.new(st, TF, ds, NONE, fmt(a, f))
            win = a.syms("x y w h", "i")
            got = a.m(st, fac, "create_encoded_tile", a.lst(st, win))
            what = f"{f}: encoding {tr}, open {op}, read {rd}"
            ends = []
            if got is not None:
                ends.append((st, "return"))
            for s, exc, w in a.raises():
                ends.append((s, "raise"))
            for s, how in ends:
                a.eq(s, a.attr(s, env.w, "files"), a.lst(s, []), f"{what}: temporary files after {how}", care=s.pc)
                a.eq(s, a.attr(s, env.w, "handles"), a.lst(s, []), f"{what}: open handles after {how}", care=s.pc)
            if tr == "raises" or rd == "raises":
                a.check(got is None, what, "an error of the encoder is swallowed")
                kind = "RuntimeError" if tr == "raises" else "MemoryError"
                g = a.raise_guard(kind)
                a.check(g is TRUE, what + ": error", "the error raised by the encoder is replaced by another")
            else:
                a.never_raises(what)
                names = a.items(st, env.get(st, "names"))
                if tr == "ok" and op == "ok":
                    a.eq(st, got, Tup([a.sym("file_bytes", "o"), a.sym("file_size", "i"), names[0]]), what + ": tile bytes")
                else:
                    a.eq(st, got, NONE, what + ": no tile")
            for pc, g, w in env.open_datasets:
                g = v.simplify(g, pc)
                a.check(g is not TRUE, what + ": encoder closed", "the encoded file is read while the encoder still holds it open, so its content may be incomplete", [w] if w else None)
