"""No wrap-around or truncation: pixel arithmetic never happens in an integer type too small for its result."""
from ..harness import *
from ..registry import register
from .metrics import VN, score_fi, takes_dim

_INT = {"uint8": (0, 8), "uint16": (0, 16), "uint32": (0, 32), "uint64": (0, 64), "int8": (1, 8), "int16": (1, 16), "int32": (1, 32), "int64": (1, 64)}
_ARITH = {"add", "sub", "mul", "pow", "neg", "floordiv", "mod", "matmul", "lshift"}
_UFUNC = {"numpy.add": "add", "numpy.subtract": "sub", "numpy.multiply": "mul", "numpy.square": "sq", "numpy.power": "pow", "numpy.negative": "neg",
          "numpy.diff": "sub", "numpy.dot": "mul", "numpy.matmul": "mul", "numpy.tensordot": "mul", "numpy.einsum": "mul", "numpy.inner": "mul",
          "numpy.vdot": "mul", "numpy.convolve": "mul"}
# filters that return the type of their input (rounding or wrapping the result into it)
_FILTERS = {"correlate", "convolve", "correlate1d", "convolve1d", "gaussian_filter", "gaussian_filter1d", "uniform_filter", "uniform_filter1d",
            "sobel", "prewitt", "laplace", "gaussian_laplace", "gaussian_gradient_magnitude", "generic_filter", "zoom", "rotate", "shift",
            "affine_transform"}
_SAME = {"abs", "absolute", "flip", "rot90", "moveaxis", "transpose", "swapaxes", "reshape", "ravel", "asarray", "ascontiguousarray", "copy", "squeeze",
         "pad", "array", "clip", "take", "expand_dims", "asanyarray", "tensor", "as_tensor", "from_numpy", "flatten", "repeat", "maximum", "minimum",
         "sort", "where"}
_CONV = {"numpy.astype", "numpy.asarray", "numpy.array", "numpy.asanyarray", "numpy.ascontiguousarray"}


def limits(dt):
    s, b = _INT[dt]
    return (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1)


def promote(a, b):
    (sa, na), (sb, nb) = _INT[a], _INT[b]
    if sa == sb:
        return a if na >= nb else b
    u, s = (na, nb) if sa == 0 else (nb, na)
    n = s if s > u else u * 2
    return f"int{n}" if n <= 64 else "float64"


class Ints:
    """exact integer element types and value intervals of array terms"""

    def __init__(self, e):
        self.e, self.t, self.r, self.i = e, {}, {}, {}

    def image(self, t):
        """is the value derived from an input image?"""
        r = self.i.get(t)
        if r is None:
            r = self.i[t] = t in (R, M, I) or loaded(t) or any(isinstance(x, T) and self.image(x) for x in flat(t.args))
        return r

    def ty(self, t):
        if t in self.t:
            return self.t[t]
        self.t[t] = None
        r = self.t[t] = self._ty(t)
        return r

    def conv(self, t):
        """(source, target type) of an explicit conversion"""
        if t.op == "call" and t.args[0] in _CONV and t.args[1]:
            dt = t.args[1][1] if len(t.args[1]) > 1 else dict(t.args[2]).get("dtype")
            if dt is not None:
                x = self.e.exact_dtype(dt)
                if x is None and dt.op in ("ext", "builtin", "class", "type") and str(dt.args[-1]).split(".")[-1] == "int":
                    x = "int64"
                return t.args[1][0], x, dt
        return None

    def _ty(self, t):
        e = self.e
        if loaded(t) or t in (R, M, I):
            d = e.dtype(t)
            return d if d in _INT else None
        if t.op in ("view", "store", "neg", "getitem"):
            return self.ty(t.args[0])
        c = self.conv(t)
        if c is not None:
            if c[1] is None and c[2].op == "attr" and c[2].args[1] == "dtype":
                return self.ty(c[2].args[0])
            return c[1] if c[1] in _INT else None
        if t.op in _ARITH:
            return self.arith(t.args)
        if t.op == "call" and isinstance(t.args[0], str) and t.args[1]:
            kw = dict(t.args[2])
            if "dtype" in kw or "output" in kw:
                x = e.exact_dtype(kw.get("dtype", kw.get("output")))
                return x if x in _INT else None
            if t.args[0] in _UFUNC:
                return self.arith(t.args[1])
            s = t.args[0].split(".")[-1]
            if t.args[0].startswith("scipy.ndimage.") or t.args[0].startswith("numpy.") and s in _SAME:
                a = t.args[1][1] if s == "where" and len(t.args[1]) > 2 else t.args[1][0]
                return self.ty(a) if isinstance(a, T) else None
        return None

    def arith(self, args):
        r = None
        for a in args:
            if not isinstance(a, T):
                return None
            x = self.ty(a)
            if x is None:
                if is_const(a):
                    v = cval(a)
                    if isinstance(v, bool) or not isinstance(v, int):
                        if not isinstance(v, bool):
                            return None
                    continue
                if self.e.dtype(a) in ("pyint", "bool", "pybool"):
                    continue
                return None
            r = x if r is None else promote(r, x)
            if r not in _INT:
                return None
        return r

    def rng(self, t):
        if t in self.r:
            return self.r[t]
        self.r[t] = None
        r = self.r[t] = self._rng(t)
        return r

    def _rng(self, t):
        if is_const(t):
            v = cval(t)
            return (v, v) if isinstance(v, int) else None
        if loaded(t) or t in (R, M, I):
            x = self.ty(t)
            return limits(x) if x else None
        if t.op in ("view", "getitem"):
            return self.rng(t.args[0])
        c = self.conv(t)
        if c is not None:
            return self.rng(c[0])
        op, args = t.op, t.args
        if t.op == "call" and t.args[0] in _UFUNC:
            op, args = _UFUNC[t.args[0]], t.args[1]
            if t.args[0] in ("numpy.dot", "numpy.matmul", "numpy.tensordot", "numpy.einsum", "numpy.inner", "numpy.vdot", "numpy.convolve"):
                return None
            if t.args[0] == "numpy.diff":
                a = self.rng(args[0])
                return (a[0] - a[1], a[1] - a[0]) if a else None
        if t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith("numpy.") and t.args[1]:
            s = t.args[0].split(".")[-1]
            if s in ("abs", "absolute"):
                a = self.rng(t.args[1][0])
                return (0 if a[0] <= 0 <= a[1] else min(map(abs, a)), max(map(abs, a))) if a else None
            if s in _SAME and s not in ("pad", "clip", "where"):
                rs = [self.rng(a) for a in t.args[1] if isinstance(a, T)]
                if s in ("maximum", "minimum"):
                    return (min(a for a, _ in rs), max(b for _, b in rs)) if all(rs) else None
                return rs[0]
        rs = [self.rng(a) if isinstance(a, T) else None for a in args]
        if op == "neg" and rs[0]:
            return (-rs[0][1], -rs[0][0])
        if op == "sq" and rs[0]:
            return (0, max(x * x for x in rs[0]))
        if len(rs) == 2 and all(rs):
            (a, b), (c, d) = rs
            if op == "add":
                return (a + c, b + d)
            if op == "sub":
                return (a - d, b - c)
            if op == "mul":
                q = [a * c, a * d, b * c, b * d]
                return (min(q), max(q))
            if op == "pow" and c == d and 0 <= c <= 8:
                q = [a ** c, b ** c]
                return (0 if c % 2 == 0 else min(q), max(q))
        return None

    def wraps(self, t):
        """type in which the arithmetic of t is done although its result may not fit"""
        kind = None
        if t.op in _ARITH and t.op != "mod":
            kind = t.op
        elif t.op == "call" and t.args[0] in _UFUNC:
            kind = t.args[0]
        if kind is not None:
            x = self.ty(t)
            if x is None or x in ("int64", "uint64") and self.rng(t) is None:
                return None
            if not any(isinstance(a, T) and self.image(a) for a in flat(t.args)):
                return None
            r = self.rng(t)
            lo, hi = limits(x)
            if r is not None and lo <= r[0] and r[1] <= hi:
                return None
            return x
        if t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith("scipy.ndimage.") and t.args[0].split(".")[-1] in _FILTERS:
            x = self.ty(t)
            if x is not None and x not in ("int64",) and self.image(t.args[1][0]):
                return x
        return None

    def truncates(self, t):
        c = self.conv(t)
        if c is None or c[1] not in _INT or not self.image(c[0]):
            return None
        s = self.ty(c[0])
        if s is None:
            return c[1] if self.e.dtype(c[0]) in ("float", "float32", "float64", "float16") else None
        r = self.rng(c[0])
        if r is None:
            r = limits(s)
        lo, hi = limits(c[1])
        return None if lo <= r[0] and r[1] <= hi else c[1]


def flat(args):
    for a in args:
        if isinstance(a, tuple):
            yield from flat(a)
        else:
            yield a


def source_of(path, t):
    """event at which the term was computed"""
    s = strip_ids(t)
    for ev in path.st.events:
        for a in ev.a:
            if isinstance(a, T) and (a is t or a.op == t.op and strip_ids(a) == s):
                return ev.loc
        if ev.kind == "ext" and t.op == "call" and ev.a[0] == t.args[0]:
            return ev.loc
    return None


@register("C18", "Integer images are scored without wrap-around or truncation", VN + " with exact element types and value intervals")
def c18(rep, tier):
    e = engine()
    rep.rule("wrap", "arithmetic on image data done in an integer element type has a result interval that fits that type (difference, sum, product, power, filter)")
    rep.rule("truncate", "image data are never converted to an integer type that cannot hold them")
    dts = ("uint8", "uint16", "int16", "float64") if tier == "thorough" else ("uint8", "int16", "float64")
    for cls in fr_metrics(e) + nr_metrics(e):
        name = cls.args[1]
        fr = cls in fr_metrics(e)
        fi = score_fi(e, cls)
        for kind in ("2d", "3d", "rgb"):
            modes = [[]]
            if fr and kind == "3d" and takes_dim(fi):
                modes = [[("dim", const(1)), ("im_slice", sym("im_slice", "int"))]]
                if tier == "thorough" or name in ("GSM", "SSIM"):
                    modes.append([("dim", const(0))])
                if name == "GSM":
                    modes.append([("dim", const(0)), ("experimental", TRUE)])
            elif not fr and name in ("CNR", "SNR"):
                n = 3 if kind == "3d" else 2
                kw = [("signal_center", tup(*[sym(f"s{i}", "int") for i in range(n)])), ("radius", sym("rad", "int"))]
                if name == "CNR":
                    if kind == "rgb":
                        continue
                    kw.append(("background_center", tup(*[sym(f"b{i}", "int") for i in range(n)])))
                modes = [kw] + ([kw + [("yuv", FALSE)]] if name == "SNR" and kind == "rgb" else [])
            for kws in modes:
                for dt in dts:
                    e.cfg = scenario(kind, dt)
                    for p in construct(e, cls, kws=[("data_range", sym("DATA_RANGE", "int"))]):
                        if p.kind != "ret":
                            continue
                        for q in method(e, p.st, p.val, "score", [R, M] if fr else [I], kws):
                            if q.kind != "ret":
                                continue
                            an = Ints(e)
                            for t in subterms(e.freeze(q.val, q.st)):
                                if t.op in _ARITH or t.op == "call":
                                    if not an.image(t):
                                        continue
                                    if an.conv(t) is not None:
                                        rep.ob("truncate")
                                        x = an.truncates(t)
                                        if x:
                                            rep.bad("truncate", f"{name} {kind}: {x}", source_of(q, t) or (e.p.modules[fi.mod].rel, fi.node.lineno, fi.qual),
                                                    f"{name}.score of {dt} {kind} images converts image data to {x}, which cannot hold them: {short(t)}")
                                    elif dt in _INT:
                                        rep.ob("wrap", what=f"{name} {kind} {dt}: {short(t, 80)}" if t.op != "call" else None)
                                        x = an.wraps(t)
                                        if x:
                                            rep.bad("wrap", f"{name} {kind}: {t.op if t.op != 'call' else t.args[0]}",
                                                    source_of(q, t) or (e.p.modules[fi.mod].rel, fi.node.lineno, fi.qual),
                                                    f"{name}.score of {dt} {kind} images computes in {x}, which cannot hold the result: {short(t)}")
    rep.floor("wrap", 300)
    rep.assume("skimage and piq kernels compute in floating point for integer input")
