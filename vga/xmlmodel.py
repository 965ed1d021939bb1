"""xml.etree elements with optional children and attributes, for ElementPath expressions used on metadata."""
import re
from xml.etree import ElementTree as ET

from . import lib
from . import values as v
from .interp import Dead, HDict, HInst, HList
from .values import Ext, FALSE, G, K, NONE, Obj, Ref, T, TRUE, b_and, ite, simplify

ELEM = "xml.etree.ElementTree.Element"


def element(a, st, tag, attrib=None, children=()):
    """attrib: {name: value | (guard, value)}; children: refs or (guard, ref)"""
    d = {}
    for k, x in (attrib or {}).items():
        g, x = x if isinstance(x, tuple) else (TRUE, x)
        d[K(k).key] = (g, K(k), v.lift_const(x))
    ch = [c if isinstance(c, tuple) else (TRUE, c) for c in children]
    at = a.I.new(st, HDict(d))
    cl = a.I.new(st, HList(tuple((g, c, None) for g, c in ch)))
    return a.I.new(st, HInst(Ext(ELEM), {"tag": v.lift_const(tag), "attrib": at, "__children__": cl, "text": NONE, "tail": NONE}))


def parsed(a, st, e):
    """the model of constant XML text"""
    r = element(a, st, e.tag, dict(e.attrib), [parsed(a, st, c) for c in e])
    at = a.I.deref(st, r).attrs
    at["text"], at["tail"] = (NONE if q is None else K(q) for q in (e.text, e.tail))
    return r


STEP = re.compile(r"""^(\.|\*|[\w.:{}/-]+?)?((\[[^\]]*\])*)$""")
PRED = re.compile(r"""\[\s*@([\w:.-]+)\s*(?:=\s*('([^']*)'|"([^"]*)"))?\s*\]""")


def kids(I, st, r):
    return [(g, c) for g, c, l in I.deref(st, I.deref(st, r).attrs["__children__"]).entries]


def matches(I, st, r, tag, preds):
    h = I.deref(st, r)
    g = TRUE
    if tag != "*":
        g = v.veq(h.attrs["tag"], K(tag))
    at = I.deref(st, h.attrs["attrib"])
    for name, val in preds:
        e = at.entries.get(K(name).key)
        if e is None:
            return FALSE
        g = b_and(g, e[0])
        if val is not None:
            g = b_and(g, v.veq(e[2], K(val)))
    return g


def select(I, st, roots, path):
    """[(guard, ref)] in document order, or None when the path is not understood"""
    cur = roots
    p = path.strip()
    if p.startswith("./"):
        p = p[2:]
    deep = False
    if p.startswith(".//"):
        p, deep = p[3:], True
    elif p.startswith("/"):
        deep, p = True, p[1:]
    for step in p.split("/"):
        if step == "":
            deep = True
            continue
        if step == ".":
            continue
        i = step.find("[")
        tag, rest = (step, "") if i < 0 else (step[:i], step[i:])
        preds = []
        for m in PRED.finditer(rest):
            preds.append((m.group(1), m.group(3) if m.group(3) is not None else m.group(4)))
        if PRED.sub("", rest).strip():
            return None
        nxt = []
        for g, r in cur:
            pool = []
            stack = [(g, r)]
            if deep:
                def walk(gg, rr):
                    for g2, c in kids(I, st, rr):
                        pool.append((b_and(gg, g2), c))
                        walk(b_and(gg, g2), c)

                walk(g, r)
            else:
                pool = [(b_and(g, g2), c) for g2, c in kids(I, st, r)]
            for gg, c in pool:
                mg = b_and(gg, matches(I, st, c, tag, preds))
                if mg is not FALSE:
                    nxt.append((mg, c))
        cur = nxt
        deep = False
    return cur


def method(I, recv, h, name, args, kw, st, ctx):
    args = [simplify(lib.unbox(I, x, st), st.pc) for x in args]
    if name in ("find", "findall", "iterfind", "findtext", "iter"):
        p = args[0] if args else kw.get("path", kw.get("match"))
        if name == "iter":
            p = K(".//" + (p.val if isinstance(p, K) and p.val else "*"))
        if not (isinstance(p, K) and isinstance(p.val, str)):
            return lib.top("dynamic element path")
        r = select(I, st, [(TRUE, recv)], p.val)
        if r is None:
            return lib.top("element path " + p.val)
        r = [(simplify(g, st.pc), c) for g, c in r]
        r = [(g, c) for g, c in r if g is not FALSE]
        if name in ("findall", "iterfind", "iter"):
            return I.new(st, HList(tuple((g, c, None) for g, c in r)))
        out = kw.get("default", args[1] if len(args) > 1 else NONE) if name == "findtext" else NONE
        for g, c in reversed(r):
            out = ite(g, c if name == "find" else I.deref(st, c).attrs["text"], out)
        return simplify(out, st.pc)
    if name == "get":
        d = kw.get("default", args[1] if len(args) > 1 else NONE)
        return lib.dict_get(I, h.attrs["attrib"], I.deref(st, h.attrs["attrib"]), args[0], st, ctx, default=d)
    if name == "set":
        lib.setitem(I, h.attrs["attrib"], args[0], args[1], st, ctx)
        return NONE
    if name in ("items", "keys"):
        return lib.method(I, h.attrs["attrib"], name, args, kw, st, ctx)
    if name in ("append", "extend", "insert", "remove", "clear"):
        return lib.method(I, h.attrs["__children__"], name, args, kw, st, ctx)
    return lib.top("Element." + name)


def install(a):
    """contracts that turn text into the registered documents"""
    a.documents = {}

    def lookup(x):
        stack, seen = [x], set()
        while stack:
            q = stack.pop()
            if q.key in seen:
                continue
            seen.add(q.key)
            if q.key in a.documents:
                return a.documents[q.key]
            if isinstance(q, T):
                stack.extend(q.args)
        return None

    def fromstring(I, st, args, kw, ctx):
        x = simplify(I.freeze(lib.unbox(I, args[0] if args else kw["text"], st), st), st.pc)
        if isinstance(x, K) and isinstance(x.val, str):
            try:
                return parsed(a, st, ET.fromstring(x.val))
            except ET.ParseError:
                I.raise_builtin(st, "SyntaxError")
        d = lookup(x)
        if isinstance(d, str):
            I.raise_builtin(st, d)
        return d

    C = a.w.contracts
    for n in ("defusedxml.ElementTree.fromstring", "xml.etree.ElementTree.fromstring", "defusedxml.ElementTree.XML"):
        C[("ext", n)] = fromstring

    def from_string(I, x, name, args, kw, st, ctx):
        if not (isinstance(x, T) and "XmlParser" in x.op):
            return None
        d = lookup(simplify(I.freeze(lib.unbox(I, args[0] if args else kw["source"], st), st), st.pc))
        if isinstance(d, str):
            I.raise_builtin(st, d)
        return d

    lib.METHOD_MODELS["from_string"] = from_string
