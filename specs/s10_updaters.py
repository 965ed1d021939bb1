"""Metadata of image chips: SICD ImageData and SIDD GeometricChip."""
import importlib

from vga import lib
from vga import values as v
from vga.interp import Dead, HInst
from vga.spec import ob
from vga.values import Ext, FALSE, K, NONE, TRUE, Tup, b_and, b_not, b_or, ite, pred

IP = "aws.osml.image_processing."
SICDV = ["aws.osml.formats.sicd.models.sicd_v1_2_1.", "aws.osml.formats.sicd.models.sicd_v1_3_0."]
SIDDV = ["aws.osml.formats.sidd.models.sidd_v1_0_0.", "aws.osml.formats.sidd.models.sidd_v2_0_0.", "aws.osml.formats.sidd.models.sidd_v3_0_0."]

XS = """
import vga_stub
class Parser:
    def __init__(self, *args, **kwargs):
        pass
    def from_string(self, source, clazz=None):
        return vga_stub.parsed(source)
    def from_bytes(self, source, clazz=None):
        return vga_stub.parsed(source.decode())
class Serializer:
    def __init__(self, *args, **kwargs):
        pass
    def render(self, obj, ns_map=None):
        return vga_stub.rendered(obj)
def parser(*args, **kwargs):
    return Parser(*args, **kwargs)
def serializer(*args, **kwargs):
    return Serializer(*args, **kwargs)
"""


def xsdata(a, docs):
    """xsdata's parser answers with freshly built documents; rendering is a function of the rendered document"""
    r = a.ref(XS)
    for n in ("xsdata.formats.dataclass.parsers.XmlParser", "xsdata.formats.dataclass.parsers.xml.XmlParser"):
        a.stub(n, r("parser"))
    for n in ("xsdata.formats.dataclass.serializers.XmlSerializer", "xsdata.formats.dataclass.serializers.xml.XmlSerializer"):
        a.stub(n, r("serializer"))

    def parsed(I, st, args, kw, ctx):
        f = docs.get(args[0].key)
        return f(st) if f is not None else None

    a.w.contracts[("ext", "vga_stub.parsed")] = parsed
    lib.EXT_KIND["x:vga_stub.rendered"] = lib.EXT_KIND["vga_stub.rendered"] = "s"


def sicd_image_data(a, st, ver, first, size):
    return a.new(st, ver + "ImageDataType", first_row=first[0], first_col=first[1], num_rows=size[0], num_cols=size[1])


def sicd_doc(a, ver, first, size, tag="sicd"):
    def make(st):
        full = a.new(st, ver + "FullImageType", num_rows=a.sym("full_rows", "i"), num_cols=a.sym("full_cols", "i")) if False else a.sym("full_image", "o")
        im = a.new(st, ver + "ImageDataType", first_row=first[0], first_col=first[1], num_rows=size[0], num_cols=size[1])
        return a.new(st, ver + "SICD", image_data=im, collection_info=a.sym("collection", "o"))

    return make


def window(a, tag):
    return a.syms(f"{tag}x {tag}y {tag}w {tag}h", "i")


@ob("P11 P09", "image_processing/sicd_updater.py:SICDUpdater", "FirstRow/FirstCol are the image's own origin plus the chip origin and NumRows/NumCols the chip size, whatever chips were made before; scaling is refused")
def sicd_chip(a):
    for ver in SICDV:
        st = a.state()
        text = a.sym("sicd_xml", "s")
        first, size = a.syms("r0 c0", "i"), a.syms("rows cols", "i")
        xsdata(a, {text.key: sicd_doc(a, ver, first, size)})
        full = a.I.truth(text, st)
        a.assume(st, full)
        u = a.new(st, IP + "sicd_updater.SICDUpdater", text)
        o = [window(a, t) for t in ("a", "b")]
        for k, (x, y, w, h) in enumerate(o):
            a.m(st, u, "update_image_data_for_chip", a.lst(st, [x, y, w, h]), NONE)
            got = a.m(st, u, "encode_current_xml")
            want = a.call(st, a.ref("import vga_stub\ndef f(d):\n    return vga_stub.rendered(d)\n")("f"), sicd_doc(a, ver, [v.add(first[0], y), v.add(first[1], x)], [h, w])(st))
            a.eq(st, got, want, f"chip {k + 1}, {ver.split('.')[-2]}")
        a.never_raises("chip metadata")
        # scaled output
        st = a.state()
        a.assume(st, full)
        u = a.new(st, IP + "sicd_updater.SICDUpdater", text)
        x, y, w, h = o[0]
        ow, oh = a.syms("out_w out_h", "i")
        a.m(st, u, "update_image_data_for_chip", a.lst(st, [x, y, w, h]), Tup([ow, oh]))
        a.must_raise(st, ["ValueError"], b_and(full, b_or(b_not(v.veq(ow, w)), b_not(v.veq(oh, h)))), f"scaled chip, {ver.split('.')[-2]}")


REF = """
def to_full(p, size, corners):
    # SIDD volume 1, 5.1.1: bilinear in the normalised chip row (u) and column (w); corners UL, UR, LR, LL as (col, row)
    u = p[1] / (size[1] - 1)
    w = p[0] / (size[0] - 1)
    out = []
    for k in (0, 1):
        ul, ur, lr, ll = corners[0][k], corners[1][k], corners[2][k], corners[3][k]
        out.append(ul * (1 - u) * (1 - w) + ur * (1 - u) * w + ll * u * (1 - w) + lr * u * w)
    return out

def corners(win):
    x, y, w, h = win
    return [[x, y], [x + w - 1, y], [x + w - 1, y + h - 1], [x, y + h - 1]]

def chipped(win, size, old):
    return [to_full(p, size, old) for p in corners(win)]
"""


def sidd_doc(a, ver, chip, down=True):
    """chip: None or (size (w,h), corners UL UR LR LL as (col,row))"""

    def rc(st, kind, c, r):
        return a.new(st, ver + kind, row=r, col=c)

    def make(st):
        gc = NONE
        if chip is not None:
            (w, h), cs = chip
            n = ["upper_left", "upper_right", "lower_right", "lower_left"]
            gc = a.new(st, ver + "GeometricChipType", chip_size=rc(st, "RowColIntType", w, h), **{f"original_{k}_coordinate": rc(st, "RowColDoubleType", c[0], c[1]) for k, c in zip(n, cs)})
        d = a.new(st, ver + "DownstreamReprocessingType", geometric_chip=gc, processing_event=a.lst(st, [a.sym("event", "o")])) if down else NONE
        return a.new(st, ver + "SIDD", downstream_reprocessing=d, measurement=a.sym("measurement", "o"))

    return make


def corner_vals(a, st, c):
    return [a.comps(st, p, 2) for p in a.comps(st, c, 4)]


@ob("P11 P09", "image_processing/sidd_updater.py:SIDDUpdater", "ChipSize is the output size and the four corners are the chip's corner pixels in the original full image, whatever chips were made before")
def sidd_chip(a):
    r = a.ref(REF)
    for ver in SIDDV:
        for kind in ("full", "bare", "chip"):
            st = a.state()
            text = a.sym("sidd_xml", "s")
            size = a.syms("cw ch", "i")
            old = [a.syms(f"oc{i} or{i}") for i in range(4)]
            chip = (size, old) if kind == "chip" else None
            xsdata(a, {text.key: sidd_doc(a, ver, chip, kind != "full")})
            a.assume(st, a.I.truth(text, st))
            if chip:
                a.assume(st, v.lt(K(1), size[0]), v.lt(K(1), size[1]))
            u = a.new(st, IP + "sidd_updater.SIDDUpdater", text)
            for k, t in enumerate(("a", "b", "c")):
                win = window(a, t)
                out = a.syms("out_w out_h", "i") if k == 1 else None
                a.m(st, u, "update_image_data_for_chip", a.lst(st, win), Tup(out) if out else NONE)
                got = a.attr(st, u, "sidd.downstream_reprocessing.geometric_chip")
                text2 = a.m(st, u, "encode_current_xml")
                cs = a.call(st, r("chipped"), a.lst(st, win), a.lst(st, size), a.lst(st, old)) if chip else a.call(st, r("corners"), a.lst(st, win))
                want = sidd_doc(a, ver, (out or win[2:], corner_vals(a, st, cs)))(st)
                if kind == "full":
                    a.I.setattr(a.attr(st, want, "downstream_reprocessing"), "processing_event", a.lst(st, []), st, None)
                want = a.call(st, a.ref("import vga_stub\ndef f(d):\n    return vga_stub.rendered(d)\n")("f"), want)
                a.eq(st, text2, want, f"{kind} image, chip {k + 1}, {ver.split('.')[-2]}")
            a.never_raises("chip metadata")
