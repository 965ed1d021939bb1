"""Metadata documents are read by parsers that refuse entity declarations or external entities: an interprocedural-free
lint over every module, with names resolved through imports, aliases and assignments."""
import ast
import os

from vga import spec
from vga.spec import ob

# parsers of the standard library and of lxml, which expand entities a document declares
UNSAFE = {
    "xml.etree.ElementTree": {"fromstring", "fromstringlist", "parse", "iterparse", "XML", "XMLID", "XMLParser", "XMLPullParser"},
    "xml.etree.cElementTree": {"fromstring", "fromstringlist", "parse", "iterparse", "XML", "XMLID", "XMLParser", "XMLPullParser"},
    "xml.dom.minidom": {"parse", "parseString"},
    "xml.dom.pulldom": {"parse", "parseString"},
    "xml.dom.expatbuilder": {"parse", "parseString"},
    "xml.sax": {"parse", "parseString", "make_parser"},
    "xml.sax.expatreader": {"create_parser", "ExpatParser"},
    "xml.parsers.expat": {"ParserCreate"},
    "lxml.etree": {"fromstring", "fromstringlist", "parse", "iterparse", "XML", "XMLID", "XMLParser", "XMLPullParser", "HTMLParser"},
    "lxml.objectify": {"fromstring", "parse", "XML", "makeparser"},
    "xsdata.formats.dataclass.parsers.handlers": {"LxmlEventHandler", "LxmlSaxHandler"},
    "xsdata.formats.dataclass.parsers.handlers.lxml": {"LxmlEventHandler", "LxmlSaxHandler"},
}
# what defusedxml must not be told, by keyword and position after the source
PERMIT = {"forbid_entities": "entity declarations", "forbid_external": "external entities"}
DEFUSED = {"fromstring": ("forbid_dtd", "forbid_entities", "forbid_external"), "XML": ("forbid_dtd", "forbid_entities", "forbid_external"), "parse": ("parser", "forbid_dtd", "forbid_entities", "forbid_external"), "iterparse": ("events", "parser", "forbid_dtd", "forbid_entities", "forbid_external")}


def dotted(node, names):
    if isinstance(node, ast.Name):
        return names.get(node.id)
    if isinstance(node, ast.Attribute):
        b = dotted(node.value, names)
        return b and b + "." + node.attr
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "getattr" and len(node.args) >= 2 and isinstance(node.args[1], ast.Constant):
        b = dotted(node.args[0], names)
        return b and f"{b}.{node.args[1].value}"
    if isinstance(node, ast.Call) and dotted(node.func, names) in ("importlib.import_module", "__import__") and node.args and isinstance(node.args[0], ast.Constant):
        return node.args[0].value
    return None


def unsafe(name):
    if not name or "." not in name:
        return False
    m, _, f = name.rpartition(".")
    return f in UNSAFE.get(m, ())


SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def own(scope):
    """the nodes of a scope, without those of functions inside it and without import fallbacks"""
    out, todo = [], list(ast.iter_child_nodes(scope))
    while todo:
        n = todo.pop(0)
        out.append(n)
        if not isinstance(n, SCOPES):
            todo += [c for c in ast.iter_child_nodes(n) if not isinstance(c, ast.ExceptHandler)]
    return out


def bindings(scope, outer):
    """names bound by imports and by plain assignments of resolvable names"""
    names, local = dict(outer), {}
    for n in own(scope):
        if isinstance(n, ast.Import):
            for a in n.names:
                local[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and not n.level:
            for a in n.names:
                local[a.asname or a.name] = f"{n.module}.{a.name}"
    names.update(local)
    for _ in range(3):
        for n in own(scope):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                d = dotted(n.value, names)
                if d:
                    names[n.targets[0].id] = d
    return names


def scoped(tree):
    """every node with the names visible in its scope"""
    todo = [(tree, bindings(tree, {"__import__": "__import__"}))]
    while todo:
        scope, names = todo.pop()
        for n in _all(scope):
            if isinstance(n, SCOPES):
                todo.append((n, bindings(n, names)))
            yield n, names


def _all(scope):
    todo = list(ast.iter_child_nodes(scope))
    while todo:
        n = todo.pop(0)
        yield n
        if not isinstance(n, SCOPES):
            todo += ast.iter_child_nodes(n)


def modules():
    for base, dirs, files in os.walk(os.path.join(spec.ROOT, "aws")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                yield os.path.join(base, f)


def where_in(tree, path):
    """innermost function of every node"""
    out = {}

    def walk(n, q):
        for c in ast.iter_child_nodes(n):
            k = f"{q}.{c.name}".lstrip(".") if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else q
            out[c] = k
            walk(c, k)

    walk(tree, "")
    return lambda n: (path, n.lineno, out.get(n) or "module")


@ob("P24", "gdal/nitf_des_accessor.py, gdal/gdal_utils.py and every other module", "no reference to an XML parser that expands declared entities or resolves external ones; defusedxml is not told to permit them")
def xml_parsers(a):
    seen = set()
    for path in modules():
        tree = ast.parse(open(path).read())
        at = where_in(tree, path)
        for n, names in scoped(tree):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Call):
                d = dotted(n, names)
                if isinstance(n, ast.Call) and d is None:
                    f = dotted(n.func, names)
                    if f and f.startswith("defusedxml.") and f.rpartition(".")[2] in DEFUSED:
                        seen.add(at(n))
                        opts = dict(zip(DEFUSED[f.rpartition(".")[2]], n.args[1:]))
                        opts.update({k.arg: k.value for k in n.keywords if k.arg})
                        for o, what in PERMIT.items():
                            x = opts.get(o)
                            a.check(x is None or not (isinstance(x, ast.Constant) and not x.value), "defused parser", f"{f} is called with {o} false, so documents may declare {what}", [at(n)])
                    elif f and f.startswith("xsdata.") and f.endswith(".XmlParser"):
                        seen.add(at(n))
                        a.ok()
                    continue
                if d and (d.startswith("xml.") or d.startswith("lxml.") or d.startswith("xsdata.formats.dataclass.parsers.handlers")):
                    seen.add(at(n))
                    a.check(not unsafe(d), "parser", f"{d} expands the entities a document declares", [at(n)])
    if not seen:
        a.fail("parsers", "no use of an XML parser was found in any module", undecided=True)
    a.w.funcs_seen |= {(p, q) for p, _, q in seen}
