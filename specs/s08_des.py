"""NITF data extension segments: header re-encoding and XML extraction."""
from vga import lib
from vga import values as v
from vga.spec import ob
from vga.values import K, NONE, TRUE, Tup, b_and, b_not, pred
from vga.xmlmodel import element

Gd = "aws.osml.gdal."
ACC = Gd + "nitf_des_accessor.NITFDESAccessor"
FIELDS = [("DECLAS", 1), ("DESCLSY", 2), ("DESCODE", 11), ("DESCTLH", 2), ("DESREL", 20), ("DESDCTP", 2), ("DESDCDT", 8), ("DESDCXM", 4), ("DESDG", 1), ("DESDGDT", 8), ("DESCLTX", 43), ("DESCATP", 1), ("DESCAUT", 40), ("DESCRSN", 1), ("DESSRDT", 8), ("DESCTLN", 15)]

REF = """
def header(ver, fields, widths, shl, shf):
    out = format(int(ver), "02d")
    for i in range(len(fields)):
        out += format(fields[i], "<" + str(widths[i]))
    n = int(shl)
    out += format(n, "04d")
    if n > 0:
        out += format(shf, "<" + str(n))
    return out
"""


def segment(a, st, shl, opt=None):
    f = {"DESVER": a.sym("DESVER", "s")}
    for n, w in FIELDS:
        f[n] = a.sym(n, "s")
    f["DESSHL"], f["DESSHF"], f["DESDATA"] = v.lift_const(shl), a.sym("DESSHF", "s"), a.sym("DESDATA", "s")
    return element(a, st, "des", {"name": "XML_DATA_CONTENT"}, [element(a, st, "field", {"name": n, "value": x}) for n, x in reversed(list(f.items()))]), f


@ob("P25", "gdal/nitf_des_accessor.py:NITFDESAccessor.extract_des_header", "header fields in MIL-STD-2500C order and widths, alphanumeric values left justified, numbers zero padded")
def des_header(a):
    for shl in ("0000", "0005", "0773", None):
        st = a.state()
        e, f = segment(a, st, shl if shl is not None else a.sym("DESSHL", "s"))
        got = a.m(st, a.get(ACC), "extract_des_header", e)
        ws = a.lst(st, [w for n, w in FIELDS])
        want = a.call(st, a.ref(REF)("header"), f["DESVER"], a.lst(st, [f[n] for n, w in FIELDS]), ws, f["DESSHL"], f["DESSHF"])
        a.eq(st, got, want, f"header with DESSHL {shl or 'any'}")
        a.never_raises("DES header")


@ob("P25", "gdal/nitf_des_accessor.py:NITFDESAccessor.extract_desdata_xml", "segment text comes from the base64 value, else from the embedded XML element, else there is none")
def des_data(a):
    ref = a.ref(
        """
        import base64
        from xml.etree import ElementTree as ET
        def b64(x):
            return base64.b64decode(x).decode("utf-8")
        def embedded(e):
            return ET.tostring(e, "unicode")
        """
    )
    acc = a.get(ACC)
    st = a.state()
    val = a.sym("DESDATA", "s")
    seg = lambda ch: element(a, st, "des", {"name": "XML_DATA_CONTENT"}, [element(a, st, "field", {"name": "DESVER", "value": "01"})] + ch)
    full = a.I.truth(val, st)
    has = pred("has", K("value"))
    got = a.m(st, acc, "extract_desdata_xml", seg([element(a, st, "field", {"name": "DESDATA", "value": (has, val)})]))
    a.eq(st, got, v.ite(b_and(has, full), a.call(st, ref("b64"), val), NONE), "base64 value")
    a.eq(st, a.m(st, acc, "extract_desdata_xml", seg([])), NONE, "no DESDATA")
    kid = element(a, st, "SICD", {}, [])
    xc = element(a, st, "xml_content", {}, [kid])
    got = a.m(st, acc, "extract_desdata_xml", seg([element(a, st, "field", {"name": "DESDATA"}, [xc])]))
    a.eq(st, got, a.call(st, ref("embedded"), kid), "embedded XML")
    got = a.m(st, acc, "extract_desdata_xml", seg([element(a, st, "field", {"name": "DESDATA", "value": (has, val)}, [xc])]))
    a.eq(st, got, v.ite(b_and(has, full), a.call(st, ref("b64"), val), a.call(st, ref("embedded"), kid)), "base64 value next to embedded XML")
    got = a.m(st, acc, "extract_desdata_xml", seg([element(a, st, "field", {"name": "DESDATA"}, [element(a, st, "xml_content", {}, [])])]))
    a.eq(st, got, NONE, "empty embedded XML")
    a.never_raises("DES data")


@ob("P25", "gdal/nitf_des_accessor.py:NITFDESAccessor.get_segments_by_name", "all segments with the requested name, of every metadata document, in file order")
def des_segments(a):
    acc = a.get(ACC)
    for n in (0, 1, 2):
        st = a.state()
        metas, want = [], []
        for i in range(n):
            s = [element(a, st, "des", {"name": nm, "id": f"{i}{j}"}, []) for j, nm in enumerate(["XML_DATA_CONTENT", "TRE_OVERFLOW", "XML_DATA_CONTENT"])]
            t = a.sym(f"doc{i}", "s")
            a.documents[t.key] = element(a, st, "des_list", {}, s)
            metas.append(t)
            want += [s[0], s[2]]
        o = a.new(st, ACC, a.lst(st, metas))
        got = a.m(st, o, "get_segments_by_name", "XML_DATA_CONTENT")
        a.eq(st, got, a.lst(st, want), f"segments of {n} documents")
        a.never_raises("segments")
    st = a.state()
    a.eq(st, a.m(st, a.new(st, ACC, NONE), "get_segments_by_name", "XML_DATA_CONTENT"), a.lst(st, []), "no metadata")
    a.never_raises("no metadata")


PROLOGS = ['<?xml version="1.0"?>', "<?xml version='1.0' encoding='UTF-8' standalone='no' ?>\n", '  <?xml version="1.0" encoding="utf-8"?>\n\n']
DOCS = [
    '{0}<des_list>\n  <des name="XML_DATA_CONTENT" id="1"><field name="DESVER" value="01" /><field name="DESDATA"><xml_content>{1}<SICD a="?>">x</SICD></xml_content></field></des>\n'
    '  <des name="OTHER" id="2"/>\n  <des name="XML_DATA_CONTENT" id="3"><field name="DESDATA"><xml_content>{2}<SIDD/></xml_content></field></des>\n</des_list>\n',
]


@ob("P25", "gdal/nitf_des_accessor.py:NITFDESAccessor.__init__", "the segments are found wherever GDAL leaves XML declarations of embedded documents in the list")
def des_prologs(a):
    acc = a.get(ACC)
    q = PROLOGS
    for n in range(1 << 3):
        p = [q[(n + i) % 3] if n >> i & 1 else "" for i in range(3)]
        if p[0]:
            p[0] = p[0].strip()
        st = a.state()
        o = a.new(st, ACC, a.lst(st, [K(d.format(*p)) for d in DOCS]))
        if not a.never_raises(f"parsing a list with declarations at {[i for i in range(3) if p[i]]}"):
            continue
        for name, ids in (("XML_DATA_CONTENT", "13"), ("OTHER", "2"), ("NONE", "")):
            got = a.items(st, a.m(st, o, "get_segments_by_name", name))
            at = [a.I.deref(st, a.I.deref(st, e).attrs["attrib"]).entries[K("id").key][2] for e in got]
            a.eq(st, Tup(at), Tup([K(i) for i in ids]), f"{name} segments of a list with declarations at {[i for i in range(3) if p[i]]}")
        a.never_raises(f"segments with declarations at {[i for i in range(3) if p[i]]}")


@ob("P25 P17", "gdal/nitf_des_accessor.py:NITFDESAccessor.parse_field_value", "the named field's value converted; ValueError when the field or its value is missing")
def des_field(a):
    st = a.state()
    h, w = pred("present", K("F")), pred("valued", K("F"))
    e = element(a, st, "des", {}, [element(a, st, "field", {"name": "G", "value": a.sym("g", "s")}), (h, element(a, st, "field", {"name": "F", "value": (w, a.sym("f", "s"))}))])
    got = a.m(st, a.get(ACC), "parse_field_value", e, "F", v.Ext("builtins.str"))
    a.eq(st, got, a.sym("f", "s"), "field value")
    a.must_raise(st, ["ValueError"], b_not(b_and(h, w)), "missing field")


@ob("P16 P17", "gdal/xmltre_utils.py:get_tre_field_value", "the named field's value converted; ValueError when the field or its value is missing")
def tre_field(a):
    st = a.state()
    h, w = pred("present", K("F")), pred("valued", K("F"))
    e = element(a, st, "tre", {}, [element(a, st, "field", {"name": "G", "value": a.sym("g", "s")}), (h, element(a, st, "field", {"name": "F", "value": (w, a.sym("f", "s"))}))])
    got = a.call(st, a.get(Gd + "xmltre_utils.get_tre_field_value"), e, "F", v.Ext("builtins.str"))
    a.eq(st, got, a.sym("f", "s"), "field value")
    a.must_raise(st, ["ValueError"], b_not(b_and(h, w)), "missing field")
