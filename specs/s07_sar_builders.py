"""SICD / SIDD metadata to SAR sensor model, and the factory's choice among models."""
import importlib

from vga import lib
from vga import values as v
from vga.interp import HInst
from vga.spec import ob
from vga.values import Ext, FALSE, K, NONE, TRUE, b_not, b_or, ite, pred
from vga.xmlmodel import element

P = "aws.osml.photogrammetry."
S = P + "sicd_sensor_model."
Gd = "aws.osml.gdal."
SICDV = ["aws.osml.formats.sicd.models.sicd_v1_2_1.", "aws.osml.formats.sicd.models.sicd_v1_3_0."]


def b_and(*gs):
    r = TRUE
    for g in gs:
        r = v.b_and(r, g)
    return r


def mod(n):
    return importlib.import_module("spec_" + n)


def rec(a, st, **kw):
    return a.I.new(st, HInst(Ext("metadata.Record"), {k: v.lift_const(x) for k, x in kw.items()}))


def xyz(a, st, n):
    c = a.syms(f"{n}.x {n}.y {n}.z")
    return rec(a, st, x=c[0], y=c[1], z=c[2]), c


def poly1(a, st, n, order, skip=()):
    c = [a.sym(f"{n}.{i}") for i in range(order + 1)]
    co = [rec(a, st, exponent1=K(i), value=c[i]) for i in reversed(range(order + 1)) if i not in skip]
    return rec(a, st, order1=K(order), coef=a.lst(st, co)), [K(0) if i in skip else x for i, x in enumerate(c)]


def poly2(a, st, n, o1, o2, skip=()):
    c = [[a.sym(f"{n}.{i}.{j}") for j in range(o2 + 1)] for i in range(o1 + 1)]
    ij = [(i, j) for j in range(o2 + 1) for i in reversed(range(o1 + 1)) if (i, j) not in skip]
    co = [rec(a, st, exponent1=K(i), exponent2=K(j), value=c[i][j]) for i, j in ij]
    return rec(a, st, order1=K(o1), order2=K(o2), coef=a.lst(st, co)), [[K(0) if (i, j) in skip else x for j, x in enumerate(r)] for i, r in enumerate(c)]


def xyzpoly(a, st, n):
    ps = [poly1(a, st, f"{n}.{c}", o, skip) for c, o, skip in (("x", 3, (2,)), ("y", 2, ()), ("z", 4, (0, 3)))]
    return rec(a, st, x=ps[0][0], y=ps[1][0], z=ps[2][0]), [p[1] for p in ps]


def native1(a, st, c):
    return mod("s05_sicd").np_poly(a, st, c)


def native2(a, st, c):
    return a.new(st, S + "Polynomial2D", a.arr(st, c))


def nativexyz(a, st, cs):
    return a.new(st, S + "PolynomialXYZ", *[native1(a, st, c) for c in cs])


def img(a, st, x, y):
    return a.new(st, P + "ImageCoordinate", a.lst(st, [x, y]))


def wld(a, st, c):
    return a.new(st, P + "WorldCoordinate", a.arr(st, c))


SFX = "sicd_sensor_model_builder.SICDSensorModelBuilder"


@ob("P16", "gdal/sicd_sensor_model_builder.py:SICDSensorModelBuilder", "each SICD element reaches the SAR model parameter of the same meaning, for every grid type and image formation algorithm")
def sicd_builder(a):
    grids = [("RGAZIM", "PFA"), ("RGAZIM", "RGAZCOMP"), ("RGAZIM", "RMA"), ("RGZERO", "RMA"), ("PLANE", "PFA"), ("XCTYAT", "RMA"), ("XRGYCR", "RMA")]
    for ver in SICDV:
        for grid, algo in grids:
            for side in ("L", "R"):
                st = a.state()
                scp, scpv = xyz(a, st, "scp")
                urow, ur = xyz(a, st, "urow")
                ucol, uc = xyz(a, st, "ucol")
                fpn, fp = xyz(a, st, "fpn")
                apos, ap = xyz(a, st, "arppos")
                avel, av = xyz(a, st, "arpvel")
                tc, tcv = poly2(a, st, "tcoa", 2, 1, ((1, 0),))
                arp, arpv = xyzpoly(a, st, "arp")
                pa, pav = poly1(a, st, "polar", 3, (1,))
                sf, sfv = poly1(a, st, "spatial", 2)
                ti, tiv = poly1(a, st, "tca", 7, (5,))
                dr, drv = poly2(a, st, "drate", 1, 6, ((1, 5), (0, 6)))
                n = a.syms("scprow scpcol frow fcol rss css azsf rca")
                sicd = rec(
                    a,
                    st,
                    geo_data=rec(a, st, scp=rec(a, st, ecf=scp)),
                    image_data=rec(a, st, scppixel=rec(a, st, row=n[0], col=n[1]), first_row=n[2], first_col=n[3]),
                    grid=rec(a, st, time_coapoly=tc, type_value=a.get(ver + "ImageGridType." + grid), row=rec(a, st, uvect_ecf=urow, ss=n[4]), col=rec(a, st, uvect_ecf=ucol, ss=n[5])),
                    position=rec(a, st, arppoly=arp),
                    image_formation=rec(a, st, image_form_algo=a.get(ver + "ImageFormAlgo." + algo)),
                    pfa=rec(a, st, fpn=fpn, polar_ang_poly=pa, spatial_freq_sfpoly=sf) if algo == "PFA" else NONE,
                    rg_az_comp=rec(a, st, az_sf=n[6]) if algo == "RGAZCOMP" else NONE,
                    rma=rec(a, st, inca=rec(a, st, r_ca_scp=n[7], time_capoly=ti, drate_sfpoly=dr)) if algo == "RMA" else NONE,
                    scpcoa=rec(a, st, arppos=apos, arpvel=avel, side_of_track=a.get(ver + "SideOfTrack." + side)),
                )
                xml = a.sym("xml", "s")
                a.documents[xml.key] = sicd
                st.pc = a.I.truth(xml, st)
                b = a.new(st, Gd + SFX, xml)
                got = a.m(st, b, "build")
                what = f"{grid} {algo} {side} {ver[-6:-1]}"
                if (grid, algo) == ("RGAZIM", "RMA"):
                    a.eq(st, got, NONE, "no projection is known: " + what)
                    continue
                w = wld(a, st, scpv)
                kw = dict(coa_time_poly=native2(a, st, tcv), arp_poly=nativexyz(a, st, arpv))
                if grid == "RGAZIM" and algo == "PFA":
                    ps = a.new(st, S + "PFAProjectionSet", scp_ecf=w, polar_ang_poly=native1(a, st, pav), spatial_freq_sf_poly=native1(a, st, sfv), **kw)
                elif grid == "RGAZIM":
                    ps = a.new(st, S + "RGAZCOMPProjectionSet", scp_ecf=w, az_scale_factor=n[6], **kw)
                elif grid == "RGZERO":
                    ps = a.new(st, S + "INCAProjectionSet", r_ca_scp=n[7], inca_time_coa_poly=native1(a, st, tiv), drate_sf_poly=native2(a, st, drv), **kw)
                else:
                    ps = a.new(st, S + "PlaneProjectionSet", scp_ecf=w, image_plane_urow=a.arr(st, ur), image_plane_ucol=a.arr(st, uc), **kw)
                cc = a.new(st, S + "SARImageCoordConverter", scp_pixel=img(a, st, n[1], n[0]), scp_ecf=w, u_row=a.arr(st, ur), u_col=a.arr(st, uc), row_ss=n[4], col_ss=n[5], first_pixel=img(a, st, n[3], n[2]))
                spn = a.m(st, a.get(S + "SICDSensorModel"), "compute_u_spn", scp_ecf=w, scp_arp=a.arr(st, ap), scp_varp=a.arr(st, av), side_of_track=K(side))
                m = a.new(st, S + "SICDSensorModel", coord_converter=cc, coa_projection_set=ps, u_spn=spn, side_of_track=K(side), u_gpn=a.arr(st, fp) if (grid, algo) == ("RGAZIM", "PFA") else NONE)
                a.eq(st, got, m, what)
                a.never_raises(what)


def rc(a, st, n):
    r, c = a.syms(f"{n}.row {n}.col")
    return rec(a, st, row=r, col=c), r, c


def sidd_doc(a, st, chip):
    ref, rp = xyz(a, st, "ref")
    urow, ur = xyz(a, st, "urow")
    ucol, uc = xyz(a, st, "ucol")
    tc, tcv = poly2(a, st, "tcoa", 1, 2, ((0, 1),))
    arp, arpv = xyzpoly(a, st, "arp")
    pt, pr, pc = rc(a, st, "point")
    ss, sr, sc = rc(a, st, "spacing")
    dr = NONE
    cor = {}
    if chip == "chip":
        sz, cr, cc = rc(a, st, "size")
        kw = {"chip_size": sz}
        for k in ("upper_left", "upper_right", "lower_right", "lower_left"):
            kw[f"original_{k}_coordinate"], r, c = rc(a, st, k)
            cor[k] = [c, r]
        dr = rec(a, st, geometric_chip=rec(a, st, **kw))
        chp = [[K(0), K(0)], [cc, K(0)], [cc, cr], [K(0), cr]]
    elif chip == "no chip":
        dr = rec(a, st, geometric_chip=NONE)
    doc = rec(
        a,
        st,
        measurement=rec(a, st, plane_projection=rec(a, st, reference_point=rec(a, st, ecef=ref, point=pt), time_coapoly=tc, product_plane=rec(a, st, row_unit_vector=urow, col_unit_vector=ucol), sample_spacing=ss), arppoly=arp),
        downstream_reprocessing=dr,
    )
    w = wld(a, st, rp)
    cv = a.new(st, S + "SARImageCoordConverter", scp_pixel=img(a, st, pc, pr), scp_ecf=w, u_row=a.arr(st, ur), u_col=a.arr(st, uc), row_ss=sr, col_ss=sc, first_pixel=img(a, st, K(0), K(0)))
    ps = a.new(st, S + "PlaneProjectionSet", scp_ecf=w, image_plane_urow=a.arr(st, ur), image_plane_ucol=a.arr(st, uc), coa_time_poly=native2(a, st, tcv), arp_poly=nativexyz(a, st, arpv))
    n = a.m(st, a.get(S + "SICDSensorModel"), "compute_u_gpn", scp_ecf=w, u_row=a.arr(st, ur), u_col=a.arr(st, uc))
    m = a.new(st, S + "SICDSensorModel", coord_converter=cv, coa_projection_set=ps, u_spn=n, u_gpn=n)
    if chip == "chip":
        m = a.new(st, P + "ChippedImageSensorModel", a.lst(st, [img(a, st, *cor[k]) for k in ("upper_left", "upper_right", "lower_right", "lower_left")]), a.lst(st, [img(a, st, *c) for c in chp]), m)
    return doc, m


@ob("P16", "gdal/sidd_sensor_model_builder.py:SIDDSensorModelBuilder", "each SIDD element reaches the SAR model parameter of the same meaning; a GeometricChip pairs like-named corners")
def sidd_builder(a):
    for chip in ("none", "no chip", "chip"):
        st = a.state()
        doc, m = sidd_doc(a, st, chip)
        xml = a.sym("xml", "s")
        a.documents[xml.key] = doc
        st.pc = a.I.truth(xml, st)
        got = a.m(st, a.new(st, Gd + "sidd_sensor_model_builder.SIDDSensorModelBuilder", xml), "build")
        a.eq(st, got, m, f"SIDD model ({chip})")
        a.never_raises("SIDD builder")


@ob("P17", "gdal/sicd_sensor_model_builder.py:SICDSensorModelBuilder.build", "SAR metadata that is empty, unparsable or incomplete gives no model, never an exception")
def sar_builder_malformed(a):
    for b, n in ((Gd + SFX, "SICD"), (Gd + "sidd_sensor_model_builder.SIDDSensorModelBuilder", "SIDD")):
        for d, xml in (("None", NONE), ("empty", K(""))):
            st = a.state()
            a.eq(st, a.m(st, a.new(st, b, xml), "build"), NONE, f"{n} {d}")
            a.never_raises(f"{n} {d}")
        for d in ("empty document", "unparsable"):
            st = a.state()
            xml = a.sym("xml", "s")
            st.pc = a.I.truth(xml, st)
            a.documents[xml.key] = rec(a, st, measurement=NONE, geo_data=NONE, grid=NONE, image_data=NONE) if d == "empty document" else "ValueError"
            a.eq(st, a.m(st, a.new(st, b, xml), "build"), NONE, f"{n} {d}")
            a.never_raises(f"{n} {d}")


def sicd_doc(a, st, grid, algo):
    """a small but complete document"""
    x = lambda n: xyz(a, st, n)[0]
    p1 = lambda n: poly1(a, st, n, 1)[0]
    p2 = lambda n: poly2(a, st, n, 1, 1)[0]
    n = a.syms("scprow scpcol frow fcol rss css azsf rca")
    ver = SICDV[0]
    return rec(
        a,
        st,
        geo_data=rec(a, st, scp=rec(a, st, ecf=x("scp"))),
        image_data=rec(a, st, scppixel=rec(a, st, row=n[0], col=n[1]), first_row=n[2], first_col=n[3]),
        grid=rec(a, st, time_coapoly=p2("tcoa"), type_value=a.get(ver + "ImageGridType." + grid), row=rec(a, st, uvect_ecf=x("urow"), ss=n[4]), col=rec(a, st, uvect_ecf=x("ucol"), ss=n[5])),
        position=rec(a, st, arppoly=rec(a, st, x=p1("ax"), y=p1("ay"), z=p1("az"))),
        image_formation=rec(a, st, image_form_algo=a.get(ver + "ImageFormAlgo." + algo)),
        pfa=rec(a, st, fpn=x("fpn"), polar_ang_poly=p1("pa"), spatial_freq_sfpoly=p1("sf")) if algo == "PFA" else NONE,
        rg_az_comp=rec(a, st, az_sf=n[6]) if algo == "RGAZCOMP" else NONE,
        rma=rec(a, st, inca=rec(a, st, r_ca_scp=n[7], time_capoly=p1("ti"), drate_sfpoly=p2("dr"))) if algo == "RMA" else NONE,
        scpcoa=rec(a, st, arppos=x("arppos"), arpvel=x("arpvel"), side_of_track=a.get(ver + "SideOfTrack.L")),
    )


def places(a, st, ref, path=()):
    """every element of a document, as (path, record, field)"""
    h = a.I.deref(st, ref)
    if isinstance(h, HInst):
        for k, x in h.attrs.items():
            yield path + (k,), ref, k
            if isinstance(x, v.Ref):
                yield from places(a, st, x, path + (k,))
    elif getattr(h, "entries", None):
        x = h.entries[0][1]
        if isinstance(x, v.Ref):
            yield from places(a, st, x, path + ("0",))


@ob("P17", "gdal/sicd_sensor_model_builder.py:SICDSensorModelBuilder.build", "SAR metadata with any one element missing, or a polynomial coefficient beyond its order, never raises an exception out of build")
def sar_builder_incomplete(a):
    sidd = Gd + "sidd_sensor_model_builder.SIDDSensorModelBuilder"
    for b, n, make in (
        (Gd + SFX, "SICD PFA", lambda st: sicd_doc(a, st, "RGAZIM", "PFA")),
        (Gd + SFX, "SICD INCA", lambda st: sicd_doc(a, st, "RGZERO", "RMA")),
        (sidd, "SIDD", lambda st: sidd_doc(a, st, "chip")[0]),
    ):
        st = a.state()
        for path in [q[0] for q in places(a, st, make(st))]:
            if n == "SICD INCA" and path[0] != "rma":
                continue
            for how in ("missing",) + (("beyond the order",) if path[-1].startswith("exponent") else ()):
                st = a.state()
                doc = make(st)
                _, ref, k = next(q for q in places(a, st, doc) if q[0] == path)
                h = a.I.deref(st, ref)
                a.I.hset(st, ref.addr, HInst(h.cls, {**h.attrs, k: NONE if how == "missing" else K(9)}))
                xml = a.sym("xml", "s")
                a.documents[xml.key] = doc
                st.pc = a.I.truth(xml, st)
                a.m(st, a.new(st, b, xml), "build")
                a.never_raises(f"{n} with {'.'.join(path)} {how}")


# ---------------------------------------------------------------- the factory
FAC = Gd + "sensor_model_factory."
TYPES = ("AFFINE", "PROJECTIVE", "RPC", "RSM", "SICD")


def ichipb(a, st, present=()):
    f = {}
    for p in ("11", "12", "21", "22"):
        for k in ("OP_COL", "OP_ROW", "FI_COL", "FI_ROW"):
            f[f"{k}_{p}"] = a.sym(f"{k}_{p}", "s")
    f["FI_COL"], f["FI_ROW"] = a.sym("FI_COL", "s"), a.sym("FI_ROW", "s")
    cast = mod("s06_builders").cast
    full = [img(a, st, cast(a, st, f["FI_COL_" + p]), cast(a, st, f["FI_ROW_" + p])) for p in ("11", "12", "21", "22")]
    chp = [img(a, st, cast(a, st, f["OP_COL_" + p]), cast(a, st, f["OP_ROW_" + p])) for p in ("11", "12", "21", "22")]
    return f, full, chp, cast(a, st, f["FI_COL"], "int"), cast(a, st, f["FI_ROW"], "int")


def setup(a, st, guards):
    """documents for every source of geometry, each present under its guard"""
    b = mod("s06_builders")
    d = {}
    rpc, f, c = b.rpc_tre(a, st)
    rpcm = b.rpc_model(a, st, f, c)
    ida, ctx = b.rsmida(a, st, "GEODETIC")
    pca, rsmm = b.rsmpca(a, st, ctx, 1, 1)
    cf, full, chp, fw, fh = ichipb(a, st)
    chip = b.tre(a, st, "ICHIPB", cf)
    cs, cn = b.cscrna(a, st)
    g = guards
    doc = b.tres(a, st, [(g["rpc"], rpc), (g["chip"], chip), (g["cscrna"], cs), (g["rsm"], pca), (g["rsm"], ida)])
    return doc, rpcm, rsmm, cs, full, chp, fw, fh


@ob("P18", "gdal/sensor_model_factory.py:SensorModelFactory.build", "precision RSM over RPC, corner TRE over control points over geotransform, chip wrapping, selected types, composite when both exist", tier="quick")
def factory_selection(a):
    b = mod("s06_builders")
    for sel, has_chip in (("all", True), ("all", False), ("subset", True), ("subset", False)):
        st = a.state()
        g = {k: pred("has", K(k)) for k in ("rpc", "rsm", "cscrna")}
        g["chip"] = TRUE if has_chip else FALSE
        on = {t: TRUE if sel == "all" else pred("selected", K(t)) for t in TYPES}
        doc, rpcm, rsmm, cs, full, chp, fw, fh = setup(a, st, g)
        W, H = a.syms("width height")
        gt = a.lst(st, [a.sym(f"g{i}") for i in range(6)])
        gc = b.gcps(a, st, 4)
        hg, hc = pred("has", K("geotransform")), pred("has", K("gcps"))
        kw = dict(xml_tres=doc, geo_transform=ite(hg, gt, NONE), proj_wkt=NONE, ground_control_points=ite(hc, gc, NONE))
        if sel == "subset":
            from vga.interp import HList

            kw["selected_sensor_model_types"] = a.I.new(st, HList(tuple((on[t], a.get(FAC + "SensorModelTypes." + t), None) for t in reversed(TYPES))))
        got = a.m(st, a.new(st, FAC + "SensorModelFactory", W, H, **kw), "build")
        chipped = lambda m: a.new(st, P + "ChippedImageSensorModel", a.lst(st, full), a.lst(st, chp), m)
        aff = a.new(st, P + "GDALAffineSensorModel", gt, NONE)
        gcpm = a.m(st, a.new(st, Gd + "gdal_sensor_model_builder.GDALGCPSensorModelBuilder", gc), "build")
        csm = lambda w, h: a.m(st, a.get(Gd + "projective_sensor_model_builder.ProjectiveSensorModelBuilder"), "build_projective_sensor_model", cs, w, h)
        cs_full, cs_chip = csm(W, H), chipped(csm(fw, fh))
        fz = lambda x: a.I.freeze(x, st)
        # approximate model
        ap = [(b_and(on["PROJECTIVE"], g["cscrna"], b_not(g["chip"])), fz(cs_full)), (b_and(on["PROJECTIVE"], g["cscrna"], g["chip"]), fz(cs_chip)), (b_and(on["PROJECTIVE"], hc), fz(gcpm)), (b_and(on["AFFINE"], hg), fz(aff))]
        pr = [(b_and(on["RSM"], g["rsm"], b_not(g["chip"])), fz(rsmm)), (b_and(on["RSM"], g["rsm"], g["chip"]), fz(chipped(rsmm))), (b_and(on["RPC"], g["rpc"], b_not(g["chip"])), fz(rpcm)), (b_and(on["RPC"], g["rpc"], g["chip"]), fz(chipped(rpcm)))]
        pick = lambda l: __import__("functools").reduce(lambda acc, e: ite(e[0], e[1], acc), reversed(l), NONE)
        A_, P_ = pick(ap), pick(pr)

        def both(x, y):
            if x.key == NONE.key:
                return y
            if y.key == NONE.key:
                return x
            return a.I.freeze(a.new(st, P + "CompositeSensorModel", approximate_sensor_model=x, precision_sensor_model=y), st)

        want = v.applyN(both, [A_, P_])
        a.eq(st, got, want, f"model ({sel} types{', chip' if has_chip else ''})")
        a.never_raises(f"factory ({sel})")


REFDES = '''
def pick(texts, sidd, sicd, use_sicd):
    for i in range(len(texts)):
        if not texts[i]:
            continue
        if "SIDD" in texts[i]:
            return sidd[i]
        if "SICD" in texts[i] and use_sicd:
            return sicd[i]
    return None
'''


def des_list(a, st, n):
    """xml:DES metadata holding n XML_DATA_CONTENT segments (and others); returns (metadata list, text of each segment)"""
    ds = []
    texts = []
    for i in range(n):
        val = a.sym(f"b64_{i}", "s")
        seg = element(a, st, "des", {"name": "XML_DATA_CONTENT"}, [element(a, st, "field", {"name": "DESVER", "value": "01"}), element(a, st, "field", {"name": "DESDATA", "value": val})])
        oth = element(a, st, "des", {"name": "TRE_OVERFLOW"}, [element(a, st, "field", {"name": "DESDATA", "value": a.sym(f"other{i}", "s")})])
        ds += [oth, seg]
        texts.append(seg)
    meta = a.sym("xml_des", "s")
    a.documents[meta.key] = element(a, st, "des_list", {}, ds)
    acc = a.get(Gd + "nitf_des_accessor.NITFDESAccessor")
    return a.lst(st, [meta]), [a.m(st, acc, "extract_desdata_xml", s) for s in texts]


@ob("P18", "gdal/sensor_model_factory.py:SensorModelFactory.build", "SAR metadata: the first SIDD segment, else the first SICD segment when SICD is selected, becomes the precision model and overrides TRE models; models already built are kept when it yields none")
def factory_sar(a):
    b = mod("s06_builders")
    for n in (1, 2):
        for sidd_ok in (True, False):
            for rpc in (True, False):
                st = a.state()
                meta, texts = des_list(a, st, n)
                models = []
                sicd_m, sidd_m = [], []
                for i in range(n):
                    # the text of a segment parses as a SIDD document; SICD parsing is covered by its own rule
                    doc, m = sidd_doc(a, st, "none")
                    a.documents[a.sym(f"b64_{i}", "s").key] = doc if sidd_ok else "ValueError"
                    sidd_m.append(m if sidd_ok else NONE)
                    sicd_m.append(NONE)
                t, f, c = b.rpc_tre(a, st)
                rm = b.rpc_model(a, st, f, c)
                kw = dict(xml_dess=meta)
                if rpc:
                    kw["xml_tres"] = b.tres(a, st, [t])
                got = a.m(st, a.new(st, FAC + "SensorModelFactory", *a.syms("width height"), **kw), "build")
                base = rm if rpc else NONE
                r = a.ref(REFDES)("pick")
                want = a.call(st, r, a.lst(st, texts), a.lst(st, sidd_m), a.lst(st, sicd_m), TRUE)
                want = ite(v.veq(want, NONE), base, want) if not isinstance(want, v.Ref) else want
                a.eq(st, got, want, f"{n} SAR segments, {'parsable' if sidd_ok else 'unparsable'}, {'with' if rpc else 'no'} RPC")
                a.never_raises("factory with SAR metadata")


def sicd_plane(a, st, tag=""):
    ver = SICDV[0]
    scp, scpv = xyz(a, st, tag + "scp")
    urow, ur = xyz(a, st, tag + "urow")
    ucol, uc = xyz(a, st, tag + "ucol")
    apos, ap = xyz(a, st, tag + "arppos")
    avel, av = xyz(a, st, tag + "arpvel")
    tc, tcv = poly2(a, st, tag + "tcoa", 1, 1)
    arp, arpv = xyzpoly(a, st, tag + "arp")
    n = a.syms(" ".join(tag + q for q in "scprow scpcol frow fcol rss css".split()))
    doc = rec(
        a,
        st,
        geo_data=rec(a, st, scp=rec(a, st, ecf=scp)),
        image_data=rec(a, st, scppixel=rec(a, st, row=n[0], col=n[1]), first_row=n[2], first_col=n[3]),
        grid=rec(a, st, time_coapoly=tc, type_value=a.get(ver + "ImageGridType.PLANE"), row=rec(a, st, uvect_ecf=urow, ss=n[4]), col=rec(a, st, uvect_ecf=ucol, ss=n[5])),
        position=rec(a, st, arppoly=arp),
        image_formation=rec(a, st, image_form_algo=a.get(ver + "ImageFormAlgo.RMA")),
        scpcoa=rec(a, st, arppos=apos, arpvel=avel, side_of_track=a.get(ver + "SideOfTrack.L")),
    )
    return doc


@ob("P18", "gdal/sensor_model_factory.py:SensorModelFactory.build", "a SICD segment is used exactly when SICD models are selected, and is the precision part of a composite")
def factory_sicd(a):
    b = mod("s06_builders")
    for n in (1, 2):
        st = a.state()
        meta, texts = des_list(a, st, n)
        ms = []
        for i in range(n):
            doc = sicd_plane(a, st, f"s{i}.")
            a.documents[a.sym(f"b64_{i}", "s").key] = doc
            ms.append(a.m(st, a.get(Gd + SFX), "from_dataclass", doc))
        t, f, c = b.rpc_tre(a, st)
        rm = b.rpc_model(a, st, f, c)
        gt = a.lst(st, [a.sym(f"g{i}") for i in range(6)])
        hg, ht = pred("has", K("geotransform")), pred("has", K("rpc"))
        on = pred("selected", K("SICD"))
        from vga.interp import HList

        sel = a.I.new(st, HList(tuple((on if q == "SICD" else TRUE, a.get(FAC + "SensorModelTypes." + q), None) for q in TYPES)))
        got = a.m(st, a.new(st, FAC + "SensorModelFactory", *a.syms("width height"), xml_dess=meta, xml_tres=b.tres(a, st, [(ht, t)]), geo_transform=ite(hg, gt, NONE), selected_sensor_model_types=sel), "build")
        # no segment is a SIDD document
        care = st.pc
        for x in texts:
            nosidd = a.call(st, a.ref("def f(x):\n    return bool(x) and 'SIDD' in x\n")("f"), x)
            care = b_and(care, b_not(a.I.truth(nosidd, st)))
        r = a.ref(REFDES)("pick")
        want = a.call(st, r, a.lst(st, texts), a.lst(st, ms), a.lst(st, ms), on)
        aff = a.I.freeze(a.new(st, P + "GDALAffineSensorModel", gt, NONE), st)
        pr = v.applyN(lambda l, q: q if l.key == NONE.key else l, [a.I.freeze(want, st), ite(ht, a.I.freeze(rm, st), NONE)])
        ap = ite(hg, aff, NONE)

        def both(x, y):
            if x.key == NONE.key:
                return y
            if y.key == NONE.key:
                return x
            return a.I.freeze(a.new(st, P + "CompositeSensorModel", approximate_sensor_model=x, precision_sensor_model=y), st)

        a.eq(st, got, v.applyN(both, [ap, pr]), f"{n} SICD segments", care=care)
        a.never_raises("factory with SICD metadata")


@ob("P17 P18", "gdal/sensor_model_factory.py:SensorModelFactory.build", "an ICHIPB, CSCRNA or geotransform that cannot be used leaves the model from the remaining metadata unchanged")
def factory_malformed(a):
    b = mod("s06_builders")
    st0 = a.state()
    names = list(ichipb(a, st0)[0])
    for bad in names:
        st = a.state(flags=("conv",))
        rpc, f, c = b.rpc_tre(a, st)
        cf = {n: K("1") for n in names}
        ch = [(pred("present", K(n)), element(a, st, "field", {"name": n, "value": (pred("valued", K(n)), a.sym(n, "s"))})) if n == bad else b.field(a, st, n, x) for n, x in cf.items()]
        chip = element(a, st, "tre", {"name": "ICHIPB"}, ch)
        fm = lambda ch: a.m(st, a.new(st, FAC + "SensorModelFactory", *a.syms("width height"), xml_tres=b.tres(a, st, ch)), "build")
        f1 = {n: K("2") for n in ["SUCCESS"] + b.RPC}
        f1["SUCCESS"] = K("1")
        rpc = b.tre(a, st, "RPC00B", f1, {r: [K("1")] * 20 for r in b.RPCC.values()})
        with_chip = fm([chip, rpc])
        plain = fm([rpc])
        miss = b_not(b_and(pred("present", K(bad)), pred("valued", K(bad))))
        a.eq(st, with_chip, plain, f"ICHIPB without {bad}", care=b_and(st.pc, miss))
        a.never_raises(f"ICHIPB {bad} malformed")
    st = a.state(flags=("conv",))
    cs = element(a, st, "tre", {"name": "CSCRNA"}, [b.field(a, st, "ULCNR_LAT", K("n/a"))])
    gt = a.lst(st, [a.sym(f"g{i}") for i in range(6)])
    got = a.m(st, a.new(st, FAC + "SensorModelFactory", *a.syms("width height"), xml_tres=b.tres(a, st, [cs]), geo_transform=gt), "build")
    a.eq(st, got, a.new(st, P + "GDALAffineSensorModel", gt, NONE), "unusable CSCRNA with a geotransform")
    a.never_raises("unusable CSCRNA")
    st = a.state(flags=("linalg",))
    f1 = {n: K("2") for n in b.RPC}
    f1["SUCCESS"] = K("1")
    rpc = b.tre(a, st, "RPC00B", f1, {r: [K("1")] * 20 for r in b.RPCC.values()})
    a.m(st, a.new(st, FAC + "SensorModelFactory", *a.syms("width height"), xml_tres=b.tres(a, st, [rpc]), geo_transform=a.lst(st, [a.sym(f"g{i}") for i in range(6)])), "build")
    a.never_raises("unusable geotransform")
