"""Relating XML schema types to the data classes that bind them (xsdata's conventions), both read as source text.

The relation is structural, so it does not depend on the names of the Python classes or fields: a schema type and a
class are related if they have the same attributes and elements under the same qualified names, in the same order, as
often, with related types."""
import ast
import os
import xml.etree.ElementTree as ET

XS = "{http://www.w3.org/2001/XMLSchema}"
STRINGS = "string normalizedString token language Name NCName NMTOKEN ID IDREF ENTITY anyURI anySimpleType".split()
INTS = "integer int long short byte nonNegativeInteger positiveInteger nonPositiveInteger negativeInteger unsignedInt unsignedLong unsignedShort unsignedByte".split()
BUILTIN = {**{n: "str" for n in STRINGS}, **{n: "int" for n in INTS}, "double": "float", "float": "float", "decimal": "Decimal", "boolean": "bool", "dateTime": "XmlDateTime", "date": "XmlDate", "time": "XmlTime", "duration": "XmlDuration", "gYear": "XmlPeriod"}
LISTS = {"NMTOKENS", "IDREFS", "ENTITIES"}


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------------------------------------ schemas
class Schemas:
    def __init__(self):
        self.parts = {k: {} for k in ("simpleType", "complexType", "element", "attribute", "attributeGroup", "group")}
        self.files = {}

    def load(self, path, ns=None):
        path = os.path.realpath(path)
        if path in self.files or not os.path.exists(path):
            return
        nsmap = {}
        for _, (p, u) in ET.iterparse(path, events=["start-ns"]):
            nsmap.setdefault(p, u)
        root = ET.parse(path).getroot()
        ns = root.get("targetNamespace", ns or "")
        d = Doc(self, nsmap, ns, root)
        self.files[path] = d
        for n in root:
            if n.tag in (XS + "import", XS + "include"):
                loc = n.get("schemaLocation")
                if loc:
                    self.load(os.path.join(os.path.dirname(path), loc), ns if n.tag == XS + "include" else None)
            else:
                k = n.tag.replace(XS, "") if isinstance(n.tag, str) else ""
                if k in self.parts and n.get("name"):
                    self.parts[k][f"{{{ns}}}{n.get('name')}"] = (d, n)

    def find(self, kind, qname):
        return self.parts[kind].get(qname)


class Doc:
    def __init__(self, schemas, nsmap, ns, root):
        self.schemas, self.nsmap, self.ns, self.root = schemas, nsmap, ns, root

    def qname(self, s):
        p, _, n = s.rpartition(":")
        u = self.nsmap.get(p, "" if p else self.ns)
        return f"{{{u}}}{n}"

    def q(self, node, kind):
        """the qualified name that a local element or attribute has in documents"""
        form = node.get("form") or self.root.get(kind + "FormDefault", "unqualified")
        return f"{{{self.ns}}}{node.get('name')}" if form == "qualified" else node.get("name")


class Simple:
    """a simple type: the Python types of its values, whether it is a list, its enumeration"""

    def __init__(self, kinds, tokens=False, values=None):
        self.kinds, self.tokens, self.values = kinds, tokens, values  # values: [(python type, text)] or None

    def __repr__(self):
        return ("list of " if self.tokens else "") + "/".join(sorted(self.kinds)) + (f" of {len(self.values)} values" if self.values else "")


class Element:
    def __init__(self, qname, type_, many, nillable, default, branch):
        self.qname, self.type, self.many, self.nillable, self.default, self.branch = qname, type_, many, nillable, default, branch


class Complex:
    def __init__(self, name):
        self.name, self.elements, self.attributes, self.text, self.abstract, self.base = name, [], {}, None, False, None


class Reader:
    """content models of the schema types"""

    def __init__(self, schemas):
        self.s = schemas
        self.memo = {}

    def type_of(self, d, node, default=None):
        if node.get("type"):
            return self.named(d.qname(node.get("type")))
        for c in node:
            if c.tag == XS + "simpleType":
                return self.simple(d, c)
            if c.tag == XS + "complexType":
                return self.complex(d, c)
        if default is not None:
            return default
        return Complex("anyType")

    def named(self, qn):
        if qn in self.memo:
            return self.memo[qn]
        if qn.startswith(XS):
            n = qn[len(XS) :]
            if n in LISTS:
                return Simple({"str"}, True)
            if n in BUILTIN:
                return Simple({BUILTIN[n]})
            if n == "anyType":
                return Complex("anyType")
            raise Unsupported("type " + qn)
        r = self.s.find("simpleType", qn)
        if r:
            self.memo[qn] = self.simple(*r)
            return self.memo[qn]
        r = self.s.find("complexType", qn)
        if r is None:
            raise Unsupported("unknown type " + qn)
        return self.complex(*r, qn=qn)

    def simple(self, d, node):
        for c in node:
            if c.tag == XS + "restriction":
                b = self.named(d.qname(c.get("base"))) if c.get("base") else self.type_of(d, c)
                v = [e.get("value") for e in c if e.tag == XS + "enumeration"]
                if isinstance(b, Union):
                    return b if not v else Simple({"str"}, False, [("str", x) for x in v])
                if v:
                    return Simple(b.kinds, b.tokens, [(k, x) for k in b.kinds for x in v])
                return Simple(b.kinds, b.tokens, b.values)
            if c.tag == XS + "list":
                b = self.named(d.qname(c.get("itemType"))) if c.get("itemType") else self.type_of(d, c)
                if isinstance(b, Union):
                    return Union([Simple(m.kinds, True, m.values) for m in b.members])
                return Simple(b.kinds, True, b.values)
            if c.tag == XS + "union":
                ms = [self.named(d.qname(m)) for m in (c.get("memberTypes") or "").split()] + [self.simple(d, m) for m in c if m.tag == XS + "simpleType"]
                return Union(ms)
        raise Unsupported("simple type without content")

    def complex(self, d, node, qn=None):
        key = id(node)
        if key in self.memo:
            return self.memo[key]
        r = Complex(qn or node.get("name") or "(anonymous)")
        r.abstract = node.get("abstract") == "true"
        self.memo[key] = r
        self.content(d, node, r)
        return r

    def content(self, d, node, r):
        for c in node:
            if c.tag in (XS + "complexContent", XS + "simpleContent"):
                for e in c:
                    if e.tag in (XS + "extension", XS + "restriction"):
                        b = self.named(d.qname(e.get("base")))
                        if isinstance(b, (Simple, Union)):
                            r.text = b
                        else:
                            r.base = b
                            if e.tag == XS + "extension":
                                r.elements.extend(b.elements)
                            r.attributes.update(b.attributes)
                            r.text = b.text
                        self.content(d, e, r)
            else:
                self.particle(d, c, r, False, ())

    def particle(self, d, c, r, many, branch):
        if not isinstance(c.tag, str):
            return
        t = c.tag.replace(XS, "")
        many = many or c.get("maxOccurs", "1") not in ("0", "1")
        if t in ("sequence", "all"):
            for x in c:
                self.particle(d, x, r, many, branch)
        elif t == "choice":
            for i, x in enumerate(c):
                self.particle(d, x, r, many, branch + ((id(c), i),))
        elif t == "group":
            gd, g = self.s.find("group", d.qname(c.get("ref")))
            for x in g:
                self.particle(gd, x, r, many, branch)
        elif t == "element":
            if c.get("ref"):
                qn = d.qname(c.get("ref"))
                found = self.s.find("element", qn)
                if not found:
                    raise Unsupported("unknown element " + qn)
                ed, e = found
            else:
                ed, e, qn = d, c, d.q(c, "element")
            r.elements.append(Element(qn, Lazy(self, ed, e), many, e.get("nillable") == "true", e.get("default") or e.get("fixed"), branch))
        elif t == "attribute":
            if c.get("use") == "prohibited":
                r.attributes.pop(c.get("name"), None)
                return
            if c.get("ref"):
                qn = d.qname(c.get("ref"))
                if qn.startswith("{http://www.w3.org/XML/1998/namespace}"):
                    r.attributes[qn] = (Simple({"str"}), None)
                    return
                ad, a = self.s.find("attribute", qn)
            else:
                ad, a, qn = d, c, d.q(c, "attribute")
            r.attributes[qn] = (self.type_of(ad, a, Simple({"str"})), c.get("default") or c.get("fixed") or a.get("default") or a.get("fixed"))
        elif t == "attributeGroup":
            if c.get("ref"):
                gd, g = self.s.find("attributeGroup", d.qname(c.get("ref")))
                for x in g:
                    self.particle(gd, x, r, many, branch)
        elif t in ("any", "anyAttribute"):
            r.elements.append(Element("*" if t == "any" else "@*", None, many, False, None, branch))


class Lazy:
    def __init__(self, reader, d, node):
        self.args = reader, d, node

    def get(self):
        r, d, n = self.args
        return r.type_of(d, n)


class Union:
    def __init__(self, members):
        self.members = [m for x in members for m in (x.members if isinstance(x, Union) else [x])]

    def __repr__(self):
        return " or ".join(map(repr, self.members))


# ------------------------------------------------------------------------------------------------ data classes
class PyClass:
    def __init__(self, module, node, outer=None):
        self.module, self.node, self.name, self.outer = module, node, node.name, outer
        self.qual = (outer.qual + "." if outer else "") + node.name
        self.inner = {c.name: PyClass(module, c, self) for c in node.body if isinstance(c, ast.ClassDef)}

    def meta(self):
        m = self.inner.get("Meta")
        out = {}
        for s in m.node.body if m else []:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                out[s.targets[0].id] = const(self.module, s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                out[s.target.id] = const(self.module, s.value)
        return out, m is not None

    def bases(self):
        return [b for b in (self.module.resolve(x, self.outer) for x in self.node.bases) if b is not None]

    def is_enum(self):
        return any(isinstance(b, PyClass) and b.is_enum() or b in ("Enum", "IntEnum", "StrEnum") for b in self.bases())

    def members(self):
        out = []
        for s in self.node.body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                out.append((s.targets[0].id, const(self.module, s.value)))
        return out

    def fields(self):
        """[(declaring class, name, annotation, call)] in dataclass order"""
        out = {}
        for b in reversed(self.mro()[1:]):
            for f in b.own():
                out[f[1]] = f
        for f in self.own():
            out[f[1]] = f
        return list(out.values())

    def own(self):
        r = []
        for s in self.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if isinstance(s.annotation, ast.Subscript) and ast.unparse(s.annotation.value).endswith("ClassVar"):
                    continue
                r.append((self, s.target.id, s.annotation, s.value))
        return r

    def mro(self):
        out = [self]
        for b in self.bases():
            if isinstance(b, PyClass):
                out += [c for c in b.mro() if c not in out]
        return out

    def where(self, line=None):
        return (self.module.path, line or self.node.lineno, self.qual)


def const(module, e):
    if isinstance(e, ast.Name):
        v = module.consts.get(e.id)
        if v is None:
            raise Unsupported(f"value {e.id} in {module.path}")
        return const(module, v)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("Decimal", "float", "int", "str", "XmlDateTime", "dict", "QName") and not e.keywords:
        return const(module, e.args[0]) if e.args else {}
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict":
        return {k.arg: const(module, k.value) for k in e.keywords}
    if isinstance(e, ast.Dict):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                out.update(const(module, v))
            else:
                out[const(module, k)] = const(module, v)
        return out
    if isinstance(e, (ast.Tuple, ast.List)):
        return tuple(const(module, x) for x in e.elts)
    if isinstance(e, ast.Attribute):
        b = module.resolve(e.value)
        if isinstance(b, PyClass) and b.is_enum():
            for n, v in b.members():
                if n == e.attr:
                    return v
        raise Unsupported(f"value {ast.unparse(e)} in {module.path}")
    try:
        return ast.literal_eval(e)
    except ValueError:
        raise Unsupported(f"value {ast.unparse(e)[:60]} in {module.path}")


class PyModule:
    def __init__(self, world, name, path):
        self.world, self.name, self.path = world, name, path
        tree = ast.parse(open(path).read())
        self.classes, self.imports, self.consts = {}, {}, {}
        is_pkg = os.path.basename(path) == "__init__.py"
        for s in tree.body:
            if isinstance(s, ast.ClassDef):
                self.classes[s.name] = PyClass(self, s)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    p = name.split(".")
                    p = p[: len(p) - s.level + (1 if is_pkg else 0)]
                    base = ".".join(p + ([s.module] if s.module else []))
                for n in s.names:
                    self.imports[n.asname or n.name] = (base, n.name)
            elif isinstance(s, ast.Import):
                for n in s.names:
                    self.imports[n.asname or n.name.split(".")[0]] = (n.name, None)
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value

    def namespace(self):
        v = self.consts.get("__NAMESPACE__")
        return const(self, v) if v is not None else None

    def lookup(self, name, seen=()):
        if name in self.classes:
            return self.classes[name]
        if name in self.imports:
            m, n = self.imports[name]
            mod = self.world.module(m)
            if mod is not None and n is not None:
                return mod.lookup(n, seen + (name,)) if len(seen) < 10 else None
            if mod is None:
                return n or m
            return mod
        if name in self.consts and isinstance(self.consts[name], (ast.Name, ast.Attribute)):
            return self.resolve(self.consts[name])
        return name

    def resolve(self, e, outer=None):
        """the class an annotation names"""
        if isinstance(e, str):
            e = ast.parse(e, mode="eval").body
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return self.resolve(e.value, outer)
        if isinstance(e, ast.Name):
            return self.lookup(e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve(e.value, outer)
            if isinstance(b, PyClass):
                return b.inner.get(e.attr)
            if isinstance(b, PyModule):
                return b.lookup(e.attr)
            return e.attr
        raise Unsupported(f"type {ast.unparse(e)[:80]} in {self.path}")


class PyWorld:
    def __init__(self, root):
        self.root = root
        self.modules = {}

    def module(self, name):
        if name not in self.modules:
            self.modules[name] = None
            p = os.path.join(self.root, *name.split("."))
            for q in (p + ".py", os.path.join(p, "__init__.py")):
                if os.path.exists(q):
                    self.modules[name] = PyModule(self, name, q)
                    break
        return self.modules[name]

    def load_below(self, package):
        top = os.path.join(self.root, *package.split("."))
        for d, _, fs in sorted(os.walk(top)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    n = os.path.relpath(os.path.join(d, f), self.root)[:-3].split(os.sep)
                    self.module(".".join(n[:-1] if n[-1] == "__init__" else n))

    def all_classes(self):
        todo = [c for m in self.modules.values() if m for c in m.classes.values()]
        while todo:
            c = todo.pop()
            yield c
            todo.extend(c.inner.values())


class Field:
    """a field as xsdata reads it"""

    def __init__(self, cls, decl, name, ann, call, parent_ns, default_type):
        m = decl.module
        self.name, self.line, self.cls = name, ann.lineno, decl
        md, self.default, self.has_default = {}, None, False
        if call is not None:
            if isinstance(call, ast.Call) and ast.unparse(call.func).split(".")[-1] == "field":
                for k in call.keywords:
                    if k.arg == "metadata":
                        md = const(m, k.value)
                    elif k.arg == "default":
                        self.default, self.has_default = const(m, k.value), True
                    elif k.arg == "default_factory":
                        self.default, self.has_default = ast.unparse(k.value), True
                    elif k.arg == "init":
                        md = dict(md)
            else:
                self.default, self.has_default = const(m, call), True
        self.md = md
        self.type = md.get("type", default_type)
        self.many, self.tokens, self.optional = False, bool(md.get("tokens")), False
        self.types = self.parse(m, decl, ann)
        local = md.get("name") or name
        ns = md.get("namespace")
        if self.type == "Element" and ns is None:
            ns = parent_ns
        self.qname = f"{{{ns}}}{local}" if ns else local

    def parse(self, m, decl, ann):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            ann = ast.parse(ann.value, mode="eval").body
        if isinstance(ann, ast.Constant) and ann.value is None:
            self.optional = True
            return []
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self.parse(m, decl, ann.left) + self.parse(m, decl, ann.right)
        if isinstance(ann, ast.Subscript):
            h = ast.unparse(ann.value).split(".")[-1]
            args = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            if h == "Optional":
                self.optional = True
                return self.parse(m, decl, args[0])
            if h == "Union":
                return [t for x in args for t in self.parse(m, decl, x)]
            if h in ("List", "list", "Sequence", "Tuple", "tuple"):
                if self.tokens and not self.listed:
                    self.listed += 1
                else:
                    self.many = True
                    self.listed += 1
                return [t for x in args if not (isinstance(x, ast.Constant) and x.value is Ellipsis) for t in self.parse(m, decl, x)]
            raise Unsupported(f"type {ast.unparse(ann)[:80]} in {m.path}")
        r = m.resolve(ann, decl)
        if r is None:
            raise Unsupported(f"type {ast.unparse(ann)[:80]} in {m.path}")
        return [r]

    listed = 0


def fields_of(c):
    """xsdata's view of the fields of a class"""
    fs = c.fields()
    mds = []
    for decl, name, ann, call in fs:
        md = {}
        if isinstance(call, ast.Call):
            for k in call.keywords:
                if k.arg == "metadata":
                    md = const(decl.module, k.value)
        mds.append(md)
    kinds = [m.get("type", "undefined") for m in mds]
    default_type = "Text" if kinds.count("undefined") == 1 and "Text" not in kinds else "Element"
    return fs, default_type


class Relation:
    def __init__(self, reader, world, report):
        self.reader, self.world, self.report = reader, world, report
        self.done = set()
        self.pairs = self.members = self.enums = 0
        self.derived = {}
        for qn, (d, n) in list(reader.s.parts["complexType"].items()):
            try:
                t = reader.named(qn)
            except Unsupported:
                continue
            if t.base is not None:
                self.derived.setdefault(id(t.base), []).append((qn, t))

    def bad(self, where, msg):
        self.report(where, msg)

    def simple(self, f, x, what, where):
        """the Python types of a field against a simple type"""
        ms = x.members if isinstance(x, Union) else [x]
        tokens = any(m.tokens for m in ms)
        if f.tokens != tokens:
            self.bad(where, f"{what} is {'a list' if tokens else 'a single value'} in the schema and {'a list' if f.tokens else 'a single value'} here")
            return
        if tokens and not f.listed:
            self.bad(where, f"{what} is a list in the schema and not a list here")
        want_kinds = {k for m in ms if m.values is None for k in m.kinds}
        want_values = {(k, norm(k, v)) for m in ms if m.values is not None for k, v in m.values}
        got_kinds, got_values = set(), set()
        for t in f.types:
            if isinstance(t, PyClass):
                if not t.is_enum():
                    self.bad(where, f"{what} is a {x!r} in the schema and a {t.qual} here")
                    return
                self.enums += 1
                for n, v in crossed([(n, str(v)) for n, v in t.members()]):
                    self.bad(t.where(), f"{t.qual}.{n} stands for {v!r}")
                for n, v in t.members():
                    got_values.add((type(v).__name__, v))
            else:
                got_kinds.add(str(t))
        gv = {str(v) for _, v in got_values}
        wv = {str(v) for _, v in want_values}
        if "str" in want_kinds or "str" in got_kinds and want_values:
            # a string reads every value
            if got_kinds - want_kinds - {"str"} or (want_kinds - got_kinds):
                self.bad(where, f"{what} has values of type {sorted(got_kinds)} here and {x!r} in the schema")
            elif gv - wv:
                self.bad(where, f"{what} has the values {sorted(gv - wv)[:5]} which the schema does not have")
            elif got_values and wv - gv:
                self.bad(where, f"{what} lacks the values {sorted(wv - gv)[:5]} of the schema")
            return
        if want_values:
            if not got_values:
                if got_kinds - {k for k, _ in want_values}:
                    self.bad(where, f"{what} has values of type {sorted(got_kinds)} here and {x!r} in the schema")
            elif gv != wv:
                self.bad(where, f"{what} has the values {sorted(gv - wv)[:5]} which the schema does not have and lacks {sorted(wv - gv)[:5]}")
            if want_kinds - got_kinds:
                self.bad(where, f"{what} has values of type {sorted(got_kinds)} here and {x!r} in the schema")
            return
        if got_kinds != want_kinds or got_values:
            self.bad(where, f"{what} has values of type {sorted(got_kinds) or [t.qual for t in f.types]} here and {x!r} in the schema")

    def complex(self, t, c, ns, path):
        """a complex type against a class; ns: the namespace handed down by the parent class"""
        meta, has = c.meta()
        ns = meta.get("namespace", ns)
        key = (id(t), c.module.name, c.qual, ns)
        if key in self.done:
            return
        self.done.add(key)
        self.pairs += 1
        fs, default_type = fields_of(c)
        elements, attributes, text = [], {}, None
        for decl, name, ann, call in fs:
            pns = ns
            if decl is not c:
                dm, dhas = decl.meta()
                if dhas:
                    pns = dm.get("namespace", ns)
            f = Field(c, decl, name, ann, call, pns, default_type)
            self.members += 1
            if f.type == "Ignore":
                continue
            if not f.has_default and f.many:
                self.bad(decl.where(f.line), f"{path}: field {name} has no default")
            if f.type == "Attribute":
                if f.qname in attributes:
                    self.bad(decl.where(f.line), f"{path}: attribute {f.qname} is bound twice")
                attributes[f.qname] = f
            elif f.type == "Text":
                text = f
            elif f.type == "Element":
                elements.append(f)
            else:
                raise Unsupported(f"field of type {f.type} in {c.qual}")
        here = c.where()
        attrs = dict(attributes)
        # attributes
        for q, (x, dflt) in t.attributes.items():
            f = attributes.pop(q, None)
            if f is None:
                self.bad(here, f"{path}: attribute {q} of the schema is not bound")
                continue
            w = f.cls.where(f.line)
            self.simple(f, x, f"{path}: attribute {q}", w)
            if f.many:
                self.bad(w, f"{path}: attribute {q} is bound as a list of values")
            if f.default not in (None, "list") and text_of(f.default) != dflt:
                self.bad(w, f"{path}: attribute {q} has default {f.default!r}, in the schema {dflt!r}")
            if dflt is not None and f.default is None:
                self.bad(w, f"{path}: attribute {q} has no default, in the schema {dflt!r}")
        for q, f in attributes.items():
            self.bad(f.cls.where(f.line), f"{path}: attribute {q} is not in the schema")
        # text
        if t.text is not None:
            if text is None:
                self.bad(here, f"{path}: the text of the schema is not bound")
            else:
                self.simple(text, t.text, f"{path}: text", text.cls.where(text.line))
                if text.many:
                    self.bad(text.cls.where(text.line), f"{path}: text is bound as a list of values")
                if text.default not in (None, "", "list"):
                    self.bad(text.cls.where(text.line), f"{path}: text has default {text.default!r}")
        elif text is not None:
            self.bad(text.cls.where(text.line), f"{path}: text is bound, the schema has none")
        # elements
        want = {}
        for e in t.elements:
            if e.qname in want:
                o = want[e.qname]
                many = o.many or e.many or not exclusive(o.branch, e.branch)
                want[e.qname] = Element(e.qname, o.type, many, o.nillable, o.default, o.branch)
                want[e.qname].also = getattr(o, "also", []) + [e]
            else:
                want[e.qname] = e
        got = {}
        for f in elements:
            w = f.cls.where(f.line)
            if f.qname in got:
                self.bad(w, f"{path}: element {f.qname} is bound twice")
            got[f.qname] = f
            if f.qname not in want:
                self.bad(w, f"{path}: element {f.qname} is not in the schema")
        for q, e in want.items():
            f = got.get(q)
            if f is None:
                self.bad(here, f"{path}: element {q} of the schema is not bound")
                continue
            w = f.cls.where(f.line)
            if f.many != e.many:
                self.bad(w, f"{path}: element {q} may occur {'several times' if e.many else 'once'} and is bound as {'a list' if f.many else 'a single value'}")
            if bool(f.md.get("nillable")) != e.nillable:
                self.bad(w, f"{path}: element {q} is{'' if e.nillable else ' not'} nillable in the schema")
            if f.md.get("wrapper") or f.md.get("choices") or f.md.get("format"):
                self.bad(w, f"{path}: element {q} has a {'wrapper' if f.md.get('wrapper') else 'choice' if f.md.get('choices') else 'format'}")
            if f.default not in (None, "list") and text_of(f.default) != e.default:
                self.bad(w, f"{path}: element {q} has default {f.default!r}, in the schema {e.default!r}")
            p = f"{path}/{q.split('}')[-1]}"
            for x in [e.type.get()] + [y.type.get() for y in getattr(e, "also", [])]:
                if isinstance(x, Complex):
                    if x.name == "anyType":
                        continue
                    cs = [y for y in f.types if isinstance(y, PyClass) and not y.is_enum()]
                    if len(cs) != 1 or len(f.types) != 1:
                        self.bad(w, f"{path}: element {q} has the complex type {x.name} in the schema and {[str(getattr(y, 'qual', y)) for y in f.types]} here")
                        continue
                    self.complex(x, cs[0], ns, p)
                    self.subtypes(x, cs[0], ns, p, w)
                else:
                    self.simple(f, x, f"{path}: element {q}", w)
        for p, q in crossed([(f.name, f.qname) for f in elements] + [(f.name, q) for q, f in attrs.items()]):
            self.bad(here, f"{path}: field {p} is bound to {q}")
        # order: fields are written in their order
        order = {q: i for i, q in enumerate(want)}
        seq = [f for f in elements if f.qname in order]
        for a in range(len(seq)):
            for b in range(a + 1, len(seq)):
                x, y = want[seq[a].qname], want[seq[b].qname]
                if order[x.qname] > order[y.qname] and not exclusive(x.branch, y.branch) and not getattr(x, "also", None) and not getattr(y, "also", None):
                    self.bad(seq[a].cls.where(seq[a].line), f"{path}: element {x.qname} is written before {y.qname}, the schema has it after")

    def others(self):
        """global elements and named types that are not part of the document element, where there is a class for them"""
        s = self.reader.s
        for c in list(self.world.all_classes()):
            if c.name == "Meta" or c.is_enum():
                continue
            qn = target(c)
            meta, has = c.meta()
            if qn is None:
                continue
            r = s.parts["element"].get(qn) if "namespace" in meta else s.parts["complexType"].get(qn)
            if not r:
                continue
            t = self.reader.type_of(*r) if "namespace" in meta else self.reader.named(qn)
            if isinstance(t, Complex) and t.name != "anyType":
                self.complex(t, c, None if "namespace" in meta else qn[1:].split("}")[0], c.name)

    def subtypes(self, t, c, ns, path, where):
        """types that may stand for t by xsi:type are found among the subclasses by their name"""
        for qn, d in self.derived.get(id(t), ()):
            if not d.abstract:
                found = [k for k in self.world.all_classes() if c in k.mro() and target(k) == qn]
                if len(found) == 0:
                    if t.abstract:
                        self.bad(where, f"{path}: no class for type {qn}, which may replace {t.name}")
                    continue
                for k in found:
                    self.complex(d, k, ns, path + f"[{qn.split('}')[-1]}]")
            self.subtypes(d, c, ns, path, where)


def target(c):
    meta, has = c.meta()
    if c.outer is not None or meta.get("global_type") is False:
        return None
    ns = meta.get("target_namespace", c.module.namespace() or meta.get("namespace"))
    return f"{{{ns}}}{meta.get('name') or c.name}"


def exclusive(a, b):
    """in different branches of the same choice"""
    da = dict(a)
    return any(k in da and da[k] != i for k, i in b)


def text_of(x):
    return str(x).lower() if isinstance(x, bool) else str(x)


def plain(s):
    return "".join(c for c in s.rsplit("}")[-1].lower() if c.isalnum())


def crossed(pairs):
    """[(Python name, XML name)] where the Python name is that of another member: code reading it gets the wrong one"""
    own = {plain(x) for _, x in pairs}
    return [(p, x) for p, x in pairs if plain(p) != plain(x) and plain(p) in own]


def norm(kind, text):
    if kind == "int":
        return int(text)
    if kind == "float":
        return float(text)
    return text


def root_class(world, module, local, ns):
    """the class of that module that binds the global element"""
    out = []
    for c in module.classes.values():
        meta, has = c.meta()
        if has and meta.get("namespace") == ns and (meta.get("name") or c.name) == local:
            out.append(c)
    return out
