"""The SICD and SIDD data classes bind the published schemas."""
import os

from vga import schema, spec
from vga.spec import ob

ORACLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "oracle", "schemas")
FORMATS = "aws.osml.formats."


def relate(a, path, module, ns, local):
    s = schema.Schemas()
    s.load(os.path.join(ORACLE, path))
    reader, world = schema.Reader(s), schema.PyWorld(spec.ROOT)
    m = world.module(FORMATS + module)
    world.load_below((FORMATS + module).rsplit(".", 1)[0])
    if m is None:
        raise spec.AnchorGone(FORMATS + module)
    qn = f"{{{ns}}}{local}"
    d, e = s.find("element", qn)
    rel = schema.Relation(reader, world, lambda where, msg: a.fail(f"{local} {ns}", msg, [where]))
    cs = schema.root_class(world, m, local, ns)
    a.check(len(cs) == 1, f"{local} {ns}", f"{len(cs)} classes of {module} bind element {qn}", [(m.path, 1, local)])
    for c in cs:
        try:
            rel.complex(reader.type_of(d, e), c, None, local)
            rel.others()
        except schema.Unsupported as x:
            a.fail(f"{local} {ns}", str(x), undecided=True)
        a.check(schema.target(c) == qn, f"{local} {ns}", f"{c.qual} is found as {schema.target(c)}", [c.where()])
    a.checked += rel.members + rel.enums
    a.I.visited_extra = rel.pairs


RULE = "related by structure, from the document element: the same attributes and elements under the same names, in the same order, as often, with the same value types and enumerations; members named after their own element"


def _register():
    for name, path, module, ns, local in (
        ("sicd_v1_2_1", "sicd/SICD_schema_V1.2.1_2018_12_13.xsd", "sicd.models.sicd_v1_2_1", "urn:SICD:1.2.1", "SICD"),
        ("sicd_v1_3_0", "sicd/SICD_schema_V1.3.0_2021_11_30_FINAL.xsd", "sicd.models.sicd_v1_3_0", "urn:SICD:1.3.0", "SICD"),
        ("sidd_v1_0_0", "sidd/SIDD_schema_V1.0.0_2011_08_31.xsd", "sidd.models.sidd_v1_0_0", "urn:SIDD:1.0.0", "SIDD"),
        ("sidd_v2_0_0", "sidd/SIDD_schema_V2.0.0_2019_05_31.xsd", "sidd.models.sidd_v2_0_0", "urn:SIDD:2.0.0", "SIDD"),
        ("sidd_v3_0_0", "sidd/SIDD_schema_V3.0.0.xsd", "sidd.models.sidd_v3_0_0", "urn:SIDD:3.0.0", "SIDD"),
    ):

        def f(a, args=(path, module, ns, local)):
            relate(a, *args)

        f.__name__ = "schema_" + name
        ob("P23", f"formats/{module.replace('.', '/')}.py:{local}", RULE)(f)


_register()
