"""match statements as conditional chains, so that only one form of branching has to be analysed"""
import ast
import copy


class Unsupported(Exception):
    pass


def load(name):
    return ast.Name(name, ast.Load())


def both(ts):
    ts = [t for t in ts if t is not None]
    return None if not ts else ts[0] if len(ts) == 1 else ast.BoolOp(ast.And(), ts)


def call(f, *a):
    return ast.Call(load(f), list(a), [])


def bind(name, x):
    """always true, and binds the name"""
    return ast.Subscript(ast.Tuple([ast.NamedExpr(ast.Name(name, ast.Store()), x), ast.Constant(True)], ast.Load()), ast.Constant(1), ast.Load())


def test(p, x):
    """the test for pattern p on expression x; None is always true"""
    x = copy.deepcopy(x)
    if isinstance(p, ast.MatchValue):
        return ast.Compare(x, [ast.Eq()], [p.value])
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(x, [ast.Is()], [ast.Constant(p.value)])
    if isinstance(p, ast.MatchAs):
        t = test(p.pattern, x) if p.pattern is not None else None
        return both([t, bind(p.name, x) if p.name else None])
    if isinstance(p, ast.MatchOr):
        ts = [test(q, x) for q in p.patterns]
        return None if any(t is None for t in ts) else ast.BoolOp(ast.Or(), ts)
    if isinstance(p, ast.MatchSequence):
        if any(isinstance(q, ast.MatchStar) for q in p.patterns):
            raise Unsupported("star pattern")
        n = ast.Constant(len(p.patterns))
        head = [call("isinstance", x, ast.Tuple([load("list"), load("tuple")], ast.Load())), ast.Compare(call("len", x), [ast.Eq()], [n])]
        return both(head + [test(q, ast.Subscript(x, ast.Constant(i), ast.Load())) for i, q in enumerate(p.patterns)])
    if isinstance(p, ast.MatchMapping):
        if p.rest:
            raise Unsupported("mapping rest")
        ts = [call("isinstance", x, load("dict"))]
        for k, q in zip(p.keys, p.patterns):
            ts += [ast.Compare(k, [ast.In()], [x]), test(q, ast.Subscript(x, k, ast.Load()))]
        return both(ts)
    if isinstance(p, ast.MatchClass):
        if p.patterns:
            raise Unsupported("positional class pattern")
        ts = [call("isinstance", x, p.cls)]
        for k, q in zip(p.kwd_attrs, p.kwd_patterns):
            ts += [call("hasattr", x, ast.Constant(k)), test(q, ast.Attribute(x, k, ast.Load()))]
        return both(ts)
    raise Unsupported(type(p).__name__)


class Chain(ast.NodeTransformer):
    n = 0

    def visit_Match(self, m):
        self.generic_visit(m)
        Chain.n += 1
        name = f"__match{Chain.n}"
        try:
            arms = [(both([test(c.pattern, load(name)), c.guard]), c.body) for c in m.cases]
        except Unsupported:
            return m
        r = []
        for t, body in reversed(arms):
            r = [ast.If(t if t is not None else ast.Constant(True), body, r)]
        out = [ast.Assign([ast.Name(name, ast.Store())], m.subject)] + r
        for o in out:
            for k in ast.walk(o):
                if not hasattr(k, "lineno") and isinstance(k, (ast.expr, ast.stmt)):
                    ast.copy_location(k, m)
            ast.fix_missing_locations(o)
        return out


def desugar(tree):
    return Chain().visit(tree) if any(isinstance(n, ast.Match) for n in ast.walk(tree)) else tree
