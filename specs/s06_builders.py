"""Metadata builders: which TRE field, DES element, GCP or geotransform entry becomes which model parameter."""
import importlib

from vga import lib
from vga import values as v
from vga.spec import ob
from vga.values import FALSE, K, NONE, TRUE, b_and, b_not, b_or
from vga.xmlmodel import element

P = "aws.osml.photogrammetry."
Gd = "aws.osml.gdal."


def mod(n):
    return importlib.import_module("spec_" + n)


def field(a, st, name, value):
    return element(a, st, "field", {"name": name, "value": value})


def order(n):
    """a fixed scrambled order: document position must not matter where an index is given"""
    return sorted(range(n), key=lambda i: (i * 7 + 3) % n if n % 7 else -i)


def repeated(a, st, name, values, inner=None):
    groups = []
    for i in order(len(values)):
        groups.append(element(a, st, "group", {"index": str(i)}, [field(a, st, inner or name[:-1], values[i])]))
    return element(a, st, "repeated", {"name": name, "number": str(len(values))}, groups)


def tre(a, st, name, fields, reps=(), prefix=None):
    """fields: {NAME: value}; a value symbol per field"""
    ch = [field(a, st, n, x) for n, x in reversed(list(fields.items()))]
    ch += [repeated(a, st, n, xs) for n, xs in dict(reps).items()]
    return element(a, st, "tre", {"name": name, "location": "image"}, ch)


def tres(a, st, children):
    return element(a, st, "tres", {}, children)


def txt(a, name):
    return a.sym(name, "s")


def num(a, st, x):
    return a.call(st, a.get("builtins.float"), x)


RPC = "ERR_BIAS ERR_RAND LINE_OFF SAMP_OFF LAT_OFF LONG_OFF HEIGHT_OFF LINE_SCALE SAMP_SCALE LAT_SCALE LONG_SCALE HEIGHT_SCALE".split()
RPCC = {"line_num_poly": "LINE_NUM_COEFF", "line_den_poly": "LINE_DEN_COEFF", "samp_num_poly": "SAMP_NUM_COEFF", "samp_den_poly": "SAMP_DEN_COEFF"}


def rpc_tre(a, st, tag="", name="RPC00B", success="1"):
    f = {n: txt(a, tag + n) for n in RPC}
    c = {r: [txt(a, f"{tag}{r}.{i}") for i in range(20)] for r in RPCC.values()}
    return tre(a, st, name, {"SUCCESS": success, **f}, c), f, c


def rpc_model(a, st, f, c):
    flt = lambda x: lib.unbox(a.I, a.I.call(v.Ext("builtins.float"), [x], {}, st, None), st)
    kw = {n.lower(): flt(f[n]) for n in RPC}
    for p, r in RPCC.items():
        kw[p] = a.new(st, P + "RPCPolynomial", a.lst(st, [flt(x) for x in c[r]]))
    return a.new(st, P + "RPCSensorModel", **kw)


@ob("P16", "gdal/rpc_sensor_model_builder.py:RPCSensorModelBuilder", "every RPC00B field and indexed coefficient reaches the parameter of the same meaning")
def rpc_builder(a):
    st = a.state()
    other, _, _ = rpc_tre(a, st, "x", "RPC00A")
    t, f, c = rpc_tre(a, st)
    b = a.new(st, Gd + "rpc_sensor_model_builder.RPCSensorModelBuilder", tres(a, st, [other, t]))
    m = a.m(st, b, "build")
    a.eq(st, m, rpc_model(a, st, f, c), "RPC sensor model")
    a.never_raises("RPC builder")


@ob("P16 P17", "gdal/rpc_sensor_model_builder.py:RPCSensorModelBuilder.build", "no model without an RPC00B TRE or when its SUCCESS flag is not 1")
def rpc_builder_none(a):
    st = a.state()
    other, _, _ = rpc_tre(a, st, "x", "RPC00A")
    for n, doc in (("no TRE", tres(a, st, [other])), *((f"SUCCESS {x}", tres(a, st, [rpc_tre(a, st, success=x)[0]])) for x in ("0", "2", "-1"))):
        a.eq(st, a.m(st, a.new(st, Gd + "rpc_sensor_model_builder.RPCSensorModelBuilder", doc), "build"), NONE, n)
    a.never_raises("RPC builder")


# ---------------------------------------------------------------- RSM
def cast(a, st, x, kind="float"):
    return lib.unbox(a.I, a.I.call(v.Ext("builtins." + kind), [x], {}, st, None), st)


def rsmida(a, st, form, grp=True):
    code = {"GEODETIC": "G", "GEODETIC_2PI": "H", "RECTANGULAR": "R"}[form]
    names = [f"V{i}{c}" for i in range(1, 9) for c in "XYZ"] + ["XUOR", "YUOR", "ZUOR"] + [f"{c}U{r}R" for r in "XYZ" for c in "XYZ"]
    names += ["MINR", "MAXR", "MINC", "MAXC"] + (["GRPX", "GRPY", "GRPZ"] if grp else [])
    f = {n: txt(a, n) for n in names}
    n = {k: cast(a, st, x, "int" if k in ("MINR", "MAXR", "MINC", "MAXC") else "float") for k, x in f.items()}
    wc = lambda *q: a.new(st, P + "WorldCoordinate", a.lst(st, [n[k] for k in q]))
    kw = {}
    if form == "RECTANGULAR":
        kw["rectangular_coordinate_origin"] = wc("XUOR", "YUOR", "ZUOR")
        kw["rectangular_coordinate_unit_vectors"] = a.lst(st, [[n[f"{c}U{r}R"] for c in "XYZ"] for r in "XYZ"])
    if grp:
        kw["ground_reference_point"] = wc("GRPX", "GRPY", "GRPZ")
    dom = a.new(st, P + "RSMGroundDomain", a.get(P + "RSMGroundDomainForm." + form), a.lst(st, [wc(f"V{i}X", f"V{i}Y", f"V{i}Z") for i in range(1, 9)]), **kw)
    img = a.new(st, P + "RSMImageDomain", min_row=n["MINR"], max_row=n["MAXR"], min_column=n["MINC"], max_column=n["MAXC"])
    return tre(a, st, "RSMIDA", {"GRNDD": code, **f}), a.new(st, P + "RSMContext", dom, img)


RSMP = {"row_norm_offset": "RNRMO", "column_norm_offset": "CNRMO", "x_norm_offset": "XNRMO", "y_norm_offset": "YNRMO", "z_norm_offset": "ZNRMO", "row_norm_scale": "RNRMSF", "column_norm_scale": "CNRMSF", "x_norm_scale": "XNRMSF", "y_norm_scale": "YNRMSF", "z_norm_scale": "ZNRMSF"}
RSMC = {"row_numerator_poly": ("RN", (1, 2, 0)), "row_denominator_poly": ("RD", (0, 1, 2)), "column_numerator_poly": ("CN", (2, 0, 1)), "column_denominator_poly": ("CD", (1, 1, 0))}


def rsmpca(a, st, ctx, row, col, tag=""):
    f = {n: txt(a, tag + n) for n in RSMP.values()}
    kw = {k: cast(a, st, f[n]) for k, n in RSMP.items()}
    reps = {}
    for k, (pre, pw) in RSMC.items():
        for c, p in zip("XYZ", pw):
            f[pre + "PWR" + c] = str(p)
        co = [txt(a, f"{tag}{pre}PCF{i}") for i in range((pw[0] + 1) * (pw[1] + 1) * (pw[2] + 1))]
        reps[pre + "PCF"] = co
        kw[k] = a.new(st, P + "RSMPolynomial", *pw, a.lst(st, [cast(a, st, x) for x in co]))
    m = a.new(st, P + "RSMPolynomialSensorModel", context=ctx, section_row=K(row), section_col=K(col), **kw)
    return tre(a, st, "RSMPCA", {"RSN": str(row), "CSN": str(col), **f}, reps), m


LOW = ["0", "X", "Y", "Z", "XX", "XY", "XZ", "YY", "YZ", "ZZ"]


def rsmpia(a, st, ctx, grid):
    f = {n: txt(a, n) for n in ["RSSIZ", "CSSIZ"] + [p + s for p in "RC" for s in LOW]}
    n = {k: cast(a, st, x) for k, x in f.items()}
    lo = {p: a.new(st, P + "RSMLowOrderPolynomial", a.lst(st, [n[p + s] for s in LOW])) for p in "RC"}
    R, C = len(grid), len(grid[0])
    m = a.new(st, P + "RSMSectionedPolynomialSensorModel", ctx, K(R), K(C), n["RSSIZ"], n["CSSIZ"], lo["R"], lo["C"], a.lst(st, [list(r) for r in grid]))
    return tre(a, st, "RSMPIA", {"RNIS": str(R), "CNIS": str(C), **f}), m


@ob("P16", "gdal/rsm_sensor_model_builder.py:RSMSensorModelBuilder", "single-section RSM: RSMIDA and RSMPCA fields reach the context, domain, normalisation and polynomials of the same meaning")
def rsm_builder(a):
    for form in ("GEODETIC", "GEODETIC_2PI", "RECTANGULAR"):
        for grp in (True, False):
            st = a.state()
            ida, ctx = rsmida(a, st, form, grp)
            pca, m = rsmpca(a, st, ctx, 1, 1)
            b = a.new(st, Gd + "rsm_sensor_model_builder.RSMSensorModelBuilder", tres(a, st, [pca, ida]))
            a.eq(st, a.m(st, b, "build"), m, f"RSM model ({form}, reference point {'given' if grp else 'absent'})")
            a.never_raises("RSM builder")


@ob("P16 P02", "gdal/rsm_sensor_model_builder.py:RSMSensorModelBuilder._build_rsm_sectioned_polynomial_sensor_model", "each RSMPCA lands in the section its row and column numbers name, whatever the TRE order")
def rsm_builder_sections(a):
    for R, C in ((2, 2), (2, 3), (1, 2), (3, 1)):
        st = a.state()
        ida, ctx = rsmida(a, st, "GEODETIC")
        parts = {(r, c): rsmpca(a, st, ctx, r, c, f"s{r}{c}.") for r in range(1, R + 1) for c in range(1, C + 1)}
        pia, m = rsmpia(a, st, ctx, [[parts[r, c][1] for c in range(1, C + 1)] for r in range(1, R + 1)])
        ch = [parts[k][0] for k in sorted(parts, key=lambda q: (q[1], -q[0]))]
        b = a.new(st, Gd + "rsm_sensor_model_builder.RSMSensorModelBuilder", tres(a, st, ch[:1] + [pia] + ch[1:] + [ida]))
        a.eq(st, a.m(st, b, "build"), m, f"sectioned RSM model {R}x{C}")
        a.never_raises("RSM builder")


@ob("P16 P17", "gdal/rsm_sensor_model_builder.py:RSMSensorModelBuilder.build", "no model without RSMIDA, without polynomials, or with several polynomials and no section index")
def rsm_builder_none(a):
    st = a.state()
    ida, ctx = rsmida(a, st, "GEODETIC")
    p1, _ = rsmpca(a, st, ctx, 1, 1)
    p2, _ = rsmpca(a, st, ctx, 1, 2, "q")
    for n, ch in (("no RSMIDA", [p1]), ("no RSMPCA", [ida]), ("two RSMPCA without RSMPIA", [ida, p1, p2])):
        a.eq(st, a.m(st, a.new(st, Gd + "rsm_sensor_model_builder.RSMSensorModelBuilder", tres(a, st, ch)), "build"), NONE, n)
    a.never_raises("RSM builder")


# ---------------------------------------------------------------- corner coordinates, ground control points, geotransform
CORNERS = ("UL", "UR", "LR", "LL")


def cscrna(a, st):
    f = {f"{c}CNR_{k}": txt(a, f"{c}{k}") for c in CORNERS for k in ("LAT", "LONG", "HT")}
    return tre(a, st, "CSCRNA", f), {k: cast(a, st, x) for k, x in f.items()}


def projective_ref(n, w, h):
    """pixel of a geodetic point under the projective fit of the four corners"""
    wd = [[v.radians(n[f"{c}CNR_LONG"]), v.radians(n[f"{c}CNR_LAT"])] for c in CORNERS]
    return mod("s02_models").estimate(wd, [[K(0), K(0)], [w, K(0)], [w, h], [K(0), h]])


@ob("P16", "gdal/projective_sensor_model_builder.py:ProjectiveSensorModelBuilder", "CSCRNA corners are paired with the image corners of the same name, degrees to radians")
def projective_builder(a):
    s2 = mod("s02_models")
    st = a.state()
    t, n = cscrna(a, st)
    w, h = a.syms("width height")
    b = a.new(st, Gd + "projective_sensor_model_builder.ProjectiveSensorModelBuilder", tres(a, st, [t]), w, h)
    m = a.m(st, b, "build")
    p = projective_ref(n, w, h)
    g = a.syms("lon lat h")
    r = a.m(st, m, "world_to_image", a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, g)))
    a.eq(st, a.coord(st, r, 2), s2.fwd(p, g[0], g[1]), "world_to_image of the built model")
    r = a.m(st, m, "image_to_world", a.new(st, P + "ImageCoordinate", a.lst(st, a.syms("x y"))))
    a.eq(st, a.coord(st, r, 3)[:2], s2.inv(p, *a.syms("x y")), "image_to_world of the built model")
    b = a.new(st, Gd + "projective_sensor_model_builder.ProjectiveSensorModelBuilder", tres(a, st, []), w, h)
    a.eq(st, a.m(st, b, "build"), NONE, "no CSCRNA")
    a.never_raises("projective builder")


def gcps(a, st, n):
    return a.lst(st, [a.obj(f"gcp{i}", v.Ext("osgeo.gdal.GCP")) for i in range(n)])


@ob("P16", "gdal/gdal_sensor_model_builder.py:GDALGCPSensorModelBuilder", "ground control points pair pixel/line with longitude/latitude in radians; fewer than four give no model")
def gcp_builder(a):
    s2 = mod("s02_models")
    for n in (4, 5):
        st = a.state()
        l = gcps(a, st, n)
        it = a.I.items_of(l, st)
        q = lambda i, k: a.attr(st, it[i], k)
        b = a.new(st, Gd + "gdal_sensor_model_builder.GDALGCPSensorModelBuilder", l)
        m = a.m(st, b, "build")
        p = s2.estimate([[v.radians(q(i, "GCPX")), v.radians(q(i, "GCPY"))] for i in range(n)], [[q(i, "GCPPixel"), q(i, "GCPLine")] for i in range(n)])
        g = a.syms("lon lat h")
        r = a.m(st, m, "world_to_image", a.new(st, P + "GeodeticWorldCoordinate", a.lst(st, g)))
        a.eq(st, a.coord(st, r, 2), s2.fwd(p, g[0], g[1]), f"model from {n} control points")
        a.never_raises("GCP builder")
    st = a.state()
    for l, n in ((NONE, "None"), (gcps(a, st, 0), "0"), (gcps(a, st, 3), "3")):
        a.eq(st, a.m(st, a.new(st, Gd + "gdal_sensor_model_builder.GDALGCPSensorModelBuilder", l), "build"), NONE, f"{n} control points")
    a.never_raises("GCP builder")


@ob("P16", "gdal/gdal_sensor_model_builder.py:GDALAffineSensorModelBuilder", "the geotransform and coordinate system are handed on unchanged; none gives no model")
def affine_builder(a):
    for wkt in (NONE, a.sym("wkt", "s")):
        st = a.state()
        g = a.lst(st, [a.sym(f"g{i}") for i in range(6)])
        m = a.m(st, a.new(st, Gd + "gdal_sensor_model_builder.GDALAffineSensorModelBuilder", g, wkt), "build")
        a.eq(st, m, a.new(st, P + "GDALAffineSensorModel", g, wkt), "affine model")
        a.eq(st, a.m(st, a.new(st, Gd + "gdal_sensor_model_builder.GDALAffineSensorModelBuilder", NONE, wkt), "build"), NONE, "no geotransform")


# ---------------------------------------------------------------- malformed metadata is contained
def optional_fields(a, st, name, values, extra=()):
    """a TRE whose fields may each be absent, lack a value, or hold unparsable text"""
    ch = []
    for n, x in values.items():
        here, val = v.pred("present", K(n)), v.pred("valued", K(n))
        ch.append((here, element(a, st, "field", {"name": n, "value": (val, v.lift_const(x))})))
    return element(a, st, "tre", {"name": name}, ch + list(extra))


def contained(a, st, builder, what, *args):
    """build() has a normal outcome for every document, and an exception never leaves it"""
    b = a.new(st, builder, *args)
    r = a.m(st, b, "build")
    if r is None:
        a.fail(what, "build() has no normal outcome")
        return None
    a.never_raises(what)
    return r


RB = Gd + "rpc_sensor_model_builder.RPCSensorModelBuilder"
SB = Gd + "rsm_sensor_model_builder.RSMSensorModelBuilder"


@ob("P17", "gdal/rpc_sensor_model_builder.py:RPCSensorModelBuilder.build", "absent, valueless or unparsable RPC00B fields give no model, never an exception")
def rpc_builder_malformed(a):
    for n in ["SUCCESS"] + RPC:
        st = a.state(flags=("conv",))
        f = {k: txt(a, k) for k in RPC}
        f["SUCCESS"] = K("1")
        f[n] = txt(a, n)
        ch = []
        for k, x in f.items():
            if k == n:
                here, val = v.pred("present", K(n)), v.pred("valued", K(n))
                ch.append((here, element(a, st, "field", {"name": n, "value": (val, x)})))
            else:
                ch.append(field(a, st, k, K("1")))
        ch += [repeated(a, st, r, [K("1")] * 20) for r in RPCC.values()]
        r = contained(a, st, RB, f"RPC00B {n} malformed", tres(a, st, [element(a, st, "tre", {"name": "RPC00B"}, ch)]))
        if r is not None:
            miss = b_not(b_and(v.pred("present", K(n)), v.pred("valued", K(n))))
            a.eq(st, r, NONE, f"RPC00B without {n}", care=b_and(st.pc, miss))


def bad_reps(a, st, name, n):
    """(description, <repeated> element or None) for every way the coefficient list can be malformed"""
    K1 = K("1")
    good = lambda i, **kw: element(a, st, "group", {"index": kw.get("index", str(i))}, [field(a, st, name[:-1], K1)])
    gs = lambda: [good(i) for i in range(n)]
    rep = lambda attrs, groups: element(a, st, "repeated", {"name": name, **attrs}, groups)
    yield "absent", None
    yield "no number attribute", rep({}, gs())
    yield "unparsable number", rep({"number": "many"}, gs())
    yield "too few coefficients", rep({"number": str(n - 1)}, gs()[:-1])
    yield "too many coefficients", rep({"number": str(n + 1)}, gs() + [good(n)])
    yield "number smaller than the groups", rep({"number": str(n - 1)}, gs())
    yield "group without an index", rep({"number": str(n)}, gs()[:-1] + [element(a, st, "group", {}, [field(a, st, name[:-1], K1)])])
    yield "group with an unparsable index", rep({"number": str(n)}, gs()[:-1] + [good(0, index="last")])
    yield "group index past the end", rep({"number": str(n)}, gs()[:-1] + [good(0, index=str(n))])
    yield "group without a field", rep({"number": str(n)}, gs()[:-1] + [element(a, st, "group", {"index": str(n - 1)}, [])])
    yield "field without a value", rep({"number": str(n)}, gs()[:-1] + [element(a, st, "group", {"index": str(n - 1)}, [element(a, st, "field", {"name": name})])])
    yield "field with unparsable text", rep({"number": str(n)}, gs()[:-1] + [element(a, st, "group", {"index": str(n - 1)}, [field(a, st, name[:-1], K("abc"))])])


@ob("P17", "gdal/xmltre_utils.py:parse_rpc_coefficients", "malformed coefficient groups in RPC00B give no model, never an exception")
def rpc_coefficients_malformed(a):
    for which in RPCC.values():
        st = a.state(flags=("conv",))
        for d, bad in bad_reps(a, st, which, 20):
            if d in ("too few coefficients", "too many coefficients"):
                continue  # the RPC00B coefficient count is fixed by the TRE layout; not examined by the builder
            st = a.state(flags=("conv",))
            bad = dict(bad_reps(a, st, which, 20))[d]
            ch = [field(a, st, k, K("1")) for k in ["SUCCESS"] + RPC]
            ch += [repeated(a, st, r, [K("1")] * 20) for r in RPCC.values() if r != which] + ([bad] if bad is not None else [])
            r = contained(a, st, RB, f"{which}: {d}", tres(a, st, [element(a, st, "tre", {"name": "RPC00B"}, ch)]))
            if r is not None:
                a.eq(st, r, NONE, f"{which}: {d}")


def rsm_plain(a, st, skip=None, sections=((1, 1),), pia=None, form="R", rep=None):
    """RSM TREs with constant text, one field optional"""
    def fl(n, x):
        if skip == n:
            return (v.pred("present", K(n)), element(a, st, "field", {"name": n, "value": (v.pred("valued", K(n)), txt(a, n))}))
        return field(a, st, n, K(x))

    ida = [fl("GRNDD", form)] + [fl(n, "1") for n in [f"V{i}{c}" for i in range(1, 9) for c in "XYZ"] + ["XUOR", "YUOR", "ZUOR"] + [f"{c}U{r}R" for r in "XYZ" for c in "XYZ"] + ["MINR", "MAXR", "MINC", "MAXC", "GRPX", "GRPY", "GRPZ"]]
    out = [element(a, st, "tre", {"name": "RSMIDA"}, ida)]
    for k, (r, c) in enumerate(sections):
        f = [fl("RSN", str(r)), fl("CSN", str(c))] + [fl(n, "1") for n in RSMP.values()] + [fl(f"{p}PWR{c}", "0") for p in ("RN", "RD", "CN", "CD") for c in "XYZ"]
        for p in ("RN", "RD", "CN", "CD"):
            if rep is not None and rep[0] == p + "PCF":
                f += [rep[1]] if rep[1] is not None else []
            else:
                f.append(repeated(a, st, p + "PCF", [K("1")]))
        out.append(element(a, st, "tre", {"name": "RSMPCA"}, f))
    if pia:
        f = [fl("RNIS", str(pia[0])), fl("CNIS", str(pia[1]))] + [fl(n, "1") for n in ["RSSIZ", "CSSIZ"] + [p + s for p in "RC" for s in LOW]]
        out.append(element(a, st, "tre", {"name": "RSMPIA"}, f))
    return tres(a, st, out)


IDAF = ["GRNDD"] + [f"V{i}{c}" for i in range(1, 9) for c in "XYZ"] + ["XUOR", "YUOR", "ZUOR"] + [f"{c}U{r}R" for r in "XYZ" for c in "XYZ"] + ["MINR", "MAXR", "MINC", "MAXC"]


@ob("P17", "gdal/rsm_sensor_model_builder.py:RSMSensorModelBuilder.build", "absent, valueless or unparsable RSM fields give no model (optional reference point aside), never an exception")
def rsm_builder_malformed(a):
    pca = ["RSN", "CSN"] + list(RSMP.values()) + [f"{p}PWR{c}" for p in ("RN", "RD", "CN", "CD") for c in "XYZ"]
    for n in IDAF + pca + ["GRPX", "GRPY", "GRPZ"]:
        st = a.state(flags=("conv",))
        r = contained(a, st, SB, f"RSM {n} malformed", rsm_plain(a, st, skip=n))
        if r is not None:
            miss = b_not(b_and(v.pred("present", K(n)), v.pred("valued", K(n))))
            if n.startswith("GRP"):
                a.eq(st, v.veq(r, NONE) if not isinstance(r, v.Ref) else FALSE, FALSE, f"model without the optional {n}")
            else:
                a.eq(st, r, NONE, f"RSM without {n}", care=b_and(st.pc, miss))
    for n in ["RNIS", "CNIS", "RSSIZ", "CSSIZ"] + [p + s for p in "RC" for s in LOW]:
        st = a.state(flags=("conv",))
        if n in ("RNIS", "CNIS"):
            continue
        r = contained(a, st, SB, f"RSMPIA {n} malformed", rsm_plain(a, st, skip=n, sections=((1, 1), (1, 2)), pia=(1, 2)))
        if r is not None:
            miss = b_not(b_and(v.pred("present", K(n)), v.pred("valued", K(n))))
            a.eq(st, r, NONE, f"RSMPIA without {n}", care=b_and(st.pc, miss))


@ob("P17", "gdal/rsm_sensor_model_builder.py:RSMSensorModelBuilder.build", "a section index that names a section no RSMPCA describes, or malformed coefficient groups, give no model, never an exception")
def rsm_sections_malformed(a):
    for sec, pia in ((((1, 1), (1, 2)), (2, 2)), (((1, 1), (2, 1)), (1, 2)), (((1, 1), (1, 1)), (1, 2)), (((0, 0), (0, 1)), (1, 2))):
        st = a.state()
        r = contained(a, st, SB, f"sections {sec} for a {pia} grid", rsm_plain(a, st, sections=sec, pia=pia))
        if r is not None:
            a.eq(st, r, NONE, f"sections {sec} for a {pia} grid")
    for p in ("RN", "RD", "CN", "CD"):
        st = a.state()
        for d in [d for d, _ in bad_reps(a, st, p + "PCF", 1)]:
            st = a.state(flags=("conv",))
            bad = dict(bad_reps(a, st, p + "PCF", 1))[d]
            r = contained(a, st, SB, f"{p}PCF: {d}", rsm_plain(a, st, rep=(p + "PCF", bad)))
            if r is not None:
                a.eq(st, r, NONE, f"{p}PCF: {d}")


@ob("P17", "gdal/projective_sensor_model_builder.py:ProjectiveSensorModelBuilder.build", "absent, valueless or unparsable corner fields give no model, never an exception")
def projective_builder_malformed(a):
    for n in [f"{c}CNR_{k}" for c in CORNERS for k in ("LAT", "LONG", "HT")]:
        st = a.state(flags=("conv",))
        ch = []
        for k in [f"{c}CNR_{k}" for c in CORNERS for k in ("LAT", "LONG", "HT")]:
            if k == n:
                ch.append((v.pred("present", K(n)), element(a, st, "field", {"name": n, "value": (v.pred("valued", K(n)), txt(a, n))})))
            else:
                ch.append(field(a, st, k, txt(a, k)) if False else field(a, st, k, K("1")))
        r = contained(a, st, Gd + "projective_sensor_model_builder.ProjectiveSensorModelBuilder", f"CSCRNA {n} malformed", tres(a, st, [element(a, st, "tre", {"name": "CSCRNA"}, ch)]), *a.syms("width height"))
        if r is not None and not n.endswith("_HT"):
            miss = b_not(b_and(v.pred("present", K(n)), v.pred("valued", K(n))))
            a.eq(st, r, NONE, f"CSCRNA without {n}", care=b_and(st.pc, miss))
