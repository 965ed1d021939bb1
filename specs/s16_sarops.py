"""Image operations for complex SAR pixels."""
from vga import lib
from vga import values as v
from vga.interp import HArr
from vga.spec import ob
from vga.values import FALSE, K, NONE, TRUE, Tup, ite, term

M = "aws.osml.image_processing.sar_complex_imageop."
REF = """
import math

def power(i, q):
    return i * i + q * q

def polar(amplitude, phase):
    return amplitude * math.cos(2 * math.pi * phase / 256), amplitude * math.sin(2 * math.pi * phase / 256)

def decibels(p):
    return 10 * math.log10(p)

def clip(x):
    return 0 if x < 0 else (255 if x > 255 else x)

def mean(xs):
    total, n = 0, 0
    for x in xs:
        if math.isfinite(x):
            total, n = total + x, n + 1
    return total / n

def stretch(xs, scale):
    m = mean(xs)
    return [clip(255 * x / (scale * m)) for x in xs]

def quarter(xs, scale, m):
    r = [math.sqrt(abs(x)) for x in xs]
    if m is None:
        m = mean(r)
    return [clip(255 * x / (scale * m)) for x in r]

def linear(xs):
    lo, hi = min(xs), max(xs)
    return [0.5 if lo == hi else (x - lo) / (hi - lo) for x in xs]
"""
SHAPES = ((1, 1), (2, 2), (1, 3))


def plane(a, st, name, shape, kind="num"):
    lib.NARROW = False
    n, m = shape
    return [[a.sym(f"{name}{i}{j}", kind) for j in range(m)] for i in range(n)]


def same(a, st, got, want, shape, what):
    """an array of the given shape with the given elements"""
    if got is None:
        a._no_value(what, st)
        return
    z = lib.as_arr(a.I, lib.unbox(a.I, got, st), st)
    if not isinstance(z, HArr):
        a.eq(st, got, a.arr(st, want), what)
        return
    a.check(z.shape == shape, what, f"has shape {z.shape}, expected {shape}")
    if z.shape == shape:
        assert len(z.data) == len(flat(want)), what
        for i, (x, y) in enumerate(zip(z.data, flat(want))):
            a.eq(st, x, y, f"{what}: element {i}")


def flat(x):
    return [q for y in x for q in flat(y)] if isinstance(x, list) else [x]


def rows(xs, shape):
    return [xs[i * shape[1] : (i + 1) * shape[1]] for i in range(shape[0])]


@ob("P28", "image_processing/sar_complex_imageop.py:image_pixels_to_complex", "amplitude / phase pixels become amplitude (through the lookup table, if any) times cosine and sine of phase/256 of a turn; real / imaginary pixels are returned as they are; unknown types are a ValueError")
def to_complex(a):
    r = a.ref(REF)
    for shape in SHAPES:
        for table in (False, True):
            st = a.state()
            A, P = plane(a, st, "amp", shape, "i"), plane(a, st, "ph", shape, "i")
            px = a.arr(st, [A, P])
            lut = a.lst(st, a.syms("l0 l1 l2 l3"))
            arr = a.arr(st, a.syms("l0 l1 l2 l3"))
            look = lambda x: lib.getitem(a.I, arr, x, st, None) if table else x
            got = a.call(st, a.get(M + "image_pixels_to_complex"), px, K("AMP8I_PHS8I"), **({"amplitude_table": lut} if table else {}))
            want = [a.comps(st, a.call(st, r("polar"), look(x), p), 2) for x, p in zip(flat(A), flat(P))]
            same(a, st, got, [rows([q[i] for q in want], shape) for i in (0, 1)], (2,) + shape, f"amplitude and phase{' with table' if table else ''}")
            for t in (None, "RE32F_IM32F", "RE16I_IM16I"):
                got = a.call(st, a.get(M + "image_pixels_to_complex"), px, pixel_type=NONE if t is None else K(t))
                same(a, st, got, [A, P], (2,) + shape, f"pixel type {t}")
            same(a, st, px, [A, P], (2,) + shape, "pixels passed in")
    a.never_raises("conversion")
    for t in ("MAG8", "RE64F_IM64F", "RE32I_IM32I", "AMP16I_PHS16I", "amp8i_phs8i", "AMP8I", "PHS8I", "RE32F", "IM16I", "RE", "_", ""):
        st = a.state()
        px = a.arr(st, [plane(a, st, "i", (1, 2)), plane(a, st, "q", (1, 2))])
        a.call(st, a.get(M + "image_pixels_to_complex"), px, K(t))
        a.must_raise(st, ["ValueError"], TRUE, f"unknown pixel type '{t}'")


@ob("P28", "image_processing/sar_complex_imageop.py:complex_to_power_value", "power is the sum of the squares of both components, in decibels ten times its logarithm; integer pixels are widened before they are squared")
def power(a):
    r = a.ref(REF)
    for shape in SHAPES:
        st = a.state()
        I_, Q = plane(a, st, "i", shape), plane(a, st, "q", shape)
        want = rows([a.call(st, r("power"), i, q) for i, q in zip(flat(I_), flat(Q))], shape)
        px = a.arr(st, [I_, Q])
        same(a, st, a.call(st, a.get(M + "complex_to_power_value"), px), want, shape, "power")
        same(a, st, px, [I_, Q], (2,) + shape, "pixels passed in")
        P = plane(a, st, "p", shape)
        px = a.arr(st, P)
        same(a, st, a.call(st, a.get(M + "power_value_in_decibels"), px), rows([a.call(st, r("decibels"), p) for p in flat(P)], shape), shape, "decibels")
        lo, hi = a.comps(st, a.call(st, a.get(M + "get_value_bounds"), px), 2)
        lib.OPAQUE_MINMAX = False
        a.eq(st, lo, lib.extremum("min", flat(P)), "smallest value")
        a.eq(st, hi, lib.extremum("max", flat(P)), "largest value")
    a.never_raises("power")


@ob("P28", "image_processing/sar_complex_imageop.py:complex_to_power_value", "squares of integer pixels are not computed in the pixels' own type")
def power_width(a):
    """types are followed for this one: wide(x) is x converted to a floating point type"""
    wide = lambda x: v.apply1(lambda l: l if isinstance(l, K) or (isinstance(l, T_) and l.op == "wide") else term("wide", l, kind="num"), x)
    T_ = type(a.sym("t"))
    floats = ("float", "float64", "float_", "float32", "double", "single", "complex64", "complex128", "complex", "longdouble", "int64", "uint64")

    def astype(I, x, t, st):
        return wide(x) if lib.dtype_name(t) in floats else x

    plain = lib.astype
    lib.astype = astype
    for n in ("square", "multiply", "power", "sum", "array", "asarray", "abs"):
        f = lib.NP.get("numpy." + n)
        if f is None:
            continue

        def g(I, args, kw, st, ctx, f=f):
            kw = dict(kw)
            t = kw.pop("dtype", None)
            if t is not None and t is not NONE and lib.dtype_name(t) in floats:
                args = [elementwise(I, x, st) for x in args[:1]] + list(args[1:])
            return f(I, args, kw, st, ctx)

        lib.NP["numpy." + n] = g

    def elementwise(I, x, st):
        z = lib.as_arr(I, x, st)
        return I.new(st, HArr(z.shape, [wide(q) for q in z.data])) if isinstance(z, HArr) else x

    a.w.contracts[("ext", "numpy.issubdtype")] = lambda I, s, args, kw, ctx: TRUE
    for shape in SHAPES:
        st = a.state()
        I_, Q = plane(a, st, "i", shape, "i"), plane(a, st, "q", shape, "i")
        got = a.call(st, a.get(M + "complex_to_power_value"), a.arr(st, [I_, Q]))
        want = rows([v.add(v.mul(wide(i), wide(i)), v.mul(wide(q), wide(q))) for i, q in zip(flat(I_), flat(Q))], shape)
        same(a, st, got, want, shape, "power of integer pixels, with its number types")


@ob("P28", "image_processing/sar_complex_imageop.py:histogram_stretch_mag_values", "each output is 255 times the value (quarter power: its square root) over scale times the mean of the finite ones, clipped to 0..255; the image versions apply this to the power; linear mapping scales the range to 0..1 and gives 0.5 for a constant image")
def stretches(a):
    r = a.ref(REF)
    for shape in SHAPES:
        for s in (None, "s"):
            st = a.state()
            P = plane(a, st, "p", shape)
            xs = a.lst(st, flat(P))
            kw = {} if s is None else {"scale_factor": a.sym("scale")}
            m = a.sym("mean")
            what = f"{shape} scale {s}"
            want = lambda f, d, *more: rows(a.items(st, a.call(st, r(f), xs, a.sym("scale") if s else K(d), *more)), shape)
            same(a, st, a.call(st, a.get(M + "histogram_stretch_mag_values"), a.arr(st, P), **kw), want("stretch", 8), shape, "histogram stretch " + what)
            same(a, st, a.call(st, a.get(M + "quarter_power_mag_values"), a.arr(st, P), **kw), want("quarter", 3, NONE), shape, "quarter power " + what)
            same(a, st, a.call(st, a.get(M + "quarter_power_mag_values"), a.arr(st, P), precomputed_mean=m, **kw), want("quarter", 3, m), shape, "quarter power with mean " + what)
            for t in (None, "AMP8I_PHS8I"):
                I_, Q = plane(a, st, "i", shape), plane(a, st, "q", shape)
                tk = {} if t is None else {"pixel_type": K(t)}
                pairs = list(zip(flat(I_), flat(Q)))
                if t is not None:
                    pairs = [a.comps(st, a.call(st, r("polar"), *p), 2) for p in pairs]
                xs = a.lst(st, [a.call(st, r("power"), *p) for p in pairs])
                px = a.arr(st, [I_, Q])
                same(a, st, a.call(st, a.get(M + "histogram_stretch"), px, **tk, **kw), want("stretch", 8), shape, f"histogram stretch of {t} image {what}")
                same(a, st, a.call(st, a.get(M + "quarter_power_image"), px, **tk, **kw), want("quarter", 3, NONE), shape, f"quarter power of {t} image {what}")
                same(a, st, a.call(st, a.get(M + "quarter_power_image"), px, precomputed_mean=m, **tk, **kw), want("quarter", 3, m), shape, f"quarter power of {t} image with mean {what}")
                same(a, st, px, [I_, Q], (2,) + shape, "pixels passed in")


@ob("P28", "image_processing/sar_complex_imageop.py:linear_mapping", "linear mapping scales the range of the values to 0..1 and gives 0.5 for a constant image")
def linear(a):
    r = a.ref(REF)
    for shape in SHAPES[:1] + SHAPES[2:]:
        st = a.state()
        P = plane(a, st, "p", shape)
        got = a.call(st, a.get(M + "linear_mapping"), a.arr(st, P))
        same(a, st, got, rows(a.items(st, a.call(st, r("linear"), a.lst(st, flat(P)))), shape), shape, f"linear mapping {shape}")
    a.never_raises("linear mapping")
