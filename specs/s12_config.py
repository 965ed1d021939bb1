"""Temporary GDAL configuration."""
from vga import values as v
from vga.interp import Dead
from vga.spec import ob
from vga.values import K, NONE, TRUE, FALSE, ite, pred

CFG = "aws.osml.gdal.gdal_config.GDALConfigEnv"
STUB = """
class Config:
    def __init__(self, options):
        self.options = options
        self.log = []
    def SetConfigOption(self, key, value):
        if value is None:
            self.options.pop(key, None)
        else:
            self.options[key] = value
    def GetConfigOption(self, key, default=None):
        return self.options.get(key, default)
    def GetConfigOptions(self):
        return dict(self.options)
    def use(self):
        self.log.append(dict(self.options))

def config(options):
    return Config(options)

def scoped(env, cfg, fail):
    with env:
        cfg.use()
        if fail:
            raise KeyError("inside")
    return "done"

def changed(env, cfg, value, fail):
    with env:
        cfg.SetConfigOption("A", value)
        cfg.SetConfigOption("B", None)
        if fail:
            raise KeyError("inside")
    return "done"

def nested(outer, inner, cfg, fail):
    with outer:
        with inner:
            cfg.use()
            if fail:
                raise KeyError("inside")
        cfg.use()
    return "done"
"""


def setup(a, st, present):
    r = a.ref(STUB)
    c = a.call(st, r("config"), a.dict(st, {k: a.sym("old_" + k, "s") for k in present}))
    for n in ("SetConfigOption", "GetConfigOption", "GetConfigOptions"):
        a.w.contracts[("ext", "gdal." + n)] = lambda I, s, args, kw, ctx, n=n: I.call(I.getattr(c, n, s, ctx), args, kw, s, ctx)
    for n in ("GetThreadLocalConfigOption", "GetGlobalConfigOption"):  # only one of the two places an option can be set in
        a.w.contracts[("ext", "gdal." + n)] = lambda I, s, args, kw, ctx, n=n: v.applyN(lambda *q: v.term(n, *q, kind="s"), [I.freeze(x, s) for x in args])
    return r, c


def ends(a, st, got):
    out = [(st, "return")] if got is not None else []
    return out + [(s, "exception") for s, e, w in a.raises()]


def inside(a, st, c, want, what, i=0):
    logs = a.items(st, a.attr(st, c, "log"))
    if len(logs) <= i:
        a.fail(what, "the scope is not entered", undecided=True)
        return
    a.eq(st, logs[i], a.dict(st, want), what + ": options inside the scope")


@ob("P10", "gdal/gdal_config.py:GDALConfigEnv", "options are set as strings inside the scope and put back to exactly their previous values (or unset) when it ends, normally or by an exception, which is passed on")
def config_scope(a):
    for present in ((), ("A",), ("A", "B", "C")):
        for fail in (False, True):
            st = a.state()
            r, c = setup(a, st, present)
            olds = {k: a.sym("old_" + k, "s") for k in present}
            opts = a.dict(st, {"A": a.sym("vA", "s"), "B": K(5)})
            env = a.new(st, CFG, opts)
            got = a.call(st, r("scoped"), env, c, fail)
            what = f"{len(present)} options set before, {'exception' if fail else 'normal'} exit"
            es = ends(a, st, got)
            a.check(len(es) == 1 and (es[0][1] == "exception") == fail, what, "the scope swallows an exception" if fail else "the scope raises")
            for s, how in es:
                a.eq(s, a.attr(s, c, "options"), a.dict(s, olds), what + ": options afterwards", care=s.pc)
                inside(a, s, c, dict(olds, A=a.sym("vA", "s"), B=K("5")), what)
                a.eq(s, opts, a.dict(s, {"A": a.sym("vA", "s"), "B": K(5)}), what + ": the caller's options")


@ob("P10", "gdal/gdal_config.py:GDALConfigEnv", "nested scopes with overlapping options, and one scope used twice, restore the values in turn")
def config_nested(a):
    for fail in (False, True):
        st = a.state()
        r, c = setup(a, st, ("A",))
        old = a.sym("old_A", "s")
        e1 = a.new(st, CFG, a.dict(st, {"A": a.sym("a1", "s"), "B": a.sym("b1", "s")}))
        e2 = a.new(st, CFG, a.dict(st, {"B": a.sym("b2", "s"), "D": a.sym("d2", "s")}))
        got = a.call(st, r("nested"), e1, e2, c, fail)
        for s, how in ends(a, st, got):
            what = f"nested, {how}"
            a.eq(s, a.attr(s, c, "options"), a.dict(s, {"A": old}), what + ": options afterwards", care=s.pc)
            inside(a, s, c, {"A": a.sym("a1", "s"), "B": a.sym("b2", "s"), "D": a.sym("d2", "s")}, what)
            if not fail:
                inside(a, s, c, {"A": a.sym("a1", "s"), "B": a.sym("b1", "s")}, what + " (outer)", 1)
    st = a.state()
    r, c = setup(a, st, ("A",))
    env = a.new(st, CFG, a.dict(st, {"A": a.sym("a1", "s")}))
    a.call(st, r("scoped"), env, c, False)
    a.call(st, a.ref("def put(c, k, x):\n    c.SetConfigOption(k, x)\n")("put"), c, "A", a.sym("changed", "s"))
    a.call(st, r("scoped"), env, c, False)
    a.eq(st, a.attr(st, c, "options"), a.dict(st, {"A": a.sym("changed", "s")}), "scope used twice")
    a.never_raises("scope used twice")
    for present in ((), ("A", "B")):
        for fail in (False, True):
            st = a.state()
            r, c = setup(a, st, present)
            olds = {k: a.sym("old_" + k, "s") for k in present}
            env = a.new(st, CFG, a.dict(st, {"A": a.sym("a1", "s"), "B": a.sym("b1", "s")}))
            got = a.call(st, r("changed"), env, c, a.sym("other", "s"), fail)
            for s, how in ends(a, st, got):
                a.eq(s, a.attr(s, c, "options"), a.dict(s, olds), f"options changed inside the scope, {how}, {len(present)} set before: options afterwards", care=s.pc)


@ob("P10", "gdal/gdal_config.py:GDALConfigEnv.with_aws_credentials", "the three AWS credentials are set inside the scope and removed afterwards; the caller's dictionaries are left alone")
def config_credentials(a):
    for own in (False, True):
        for given in (False, True):
            st = a.state()
            r, c = setup(a, st, ("AWS_SECRET_ACCESS_KEY",))
            old = {"AWS_SECRET_ACCESS_KEY": a.sym("old_AWS_SECRET_ACCESS_KEY", "s")}
            cred = {"SecretAccessKey": a.sym("secret", "s"), "AccessKeyId": a.sym("id", "s"), "SessionToken": a.sym("token", "s"), "Expiration": a.sym("exp", "o")}
            cd = a.dict(st, cred)
            od = a.dict(st, {"X": a.sym("x", "s")})
            env = a.new(st, CFG, od) if own else a.new(st, CFG)
            env = a.m(st, env, "with_aws_credentials", cd if given else NONE)
            a.call(st, r("scoped"), env, c, False)
            want = dict(old)
            if own:
                want["X"] = a.sym("x", "s")
            if given:
                want.update(AWS_SECRET_ACCESS_KEY=cred["SecretAccessKey"], AWS_ACCESS_KEY_ID=cred["AccessKeyId"], AWS_SESSION_TOKEN=cred["SessionToken"])
            what = f"{'own options' if own else 'no options'}, {'credentials' if given else 'no credentials'}"
            inside(a, st, c, want, what)
            a.eq(st, a.attr(st, c, "options"), a.dict(st, old), what + ": options afterwards")
            a.eq(st, od, a.dict(st, {"X": a.sym("x", "s")}), what + ": the caller's options")
            a.eq(st, cd, a.dict(st, cred), what + ": the caller's credentials")
            a.never_raises(what)
