"""Contrast- and signal-to-noise ratio: region of interest, formula and guards."""
from fractions import Fraction

from ..linear import lin, order_facts, plus
from ..poly import Rat, Unknown, patom, pconst, padd, pkey, pmul, rat
from .export import *

CNRF = ("viqa.nr_metrics.cnr", "contrast_to_noise_ratio")
SNRF = ("viqa.nr_metrics.snr", "signal_to_noise_ratio")
RAD = sym("radius", "int")
CUBE, BALL, WHOLE = ("cubic", "cube", "square"), ("spherical", "sphere", "circle"), ("full", "original")
YUV = ((0.2126, 0.7152, 0.0722), (-0.09991, -0.33609, 0.436), (0.615, -0.55861, -0.05639))
TRUE_, FALSE_ = ("true",), ("false",)
MEAN = {"mean", "average", "nanmean"}


class Mismatch(Exception):
    """a definite error in the shape of a mask"""


class Regions:
    """reads image statistics as (statistic, image content, set of pixels); pixel sets are conjunctions of polynomial inequalities over
    the pixel coordinates p0, p1, p2"""

    def __init__(self, e, kind, sub):
        self.e, self.kind, self.sub = e, kind, sub
        self.n = 3 if kind == "3d" else 2
        self.rank = 2 if kind == "2d" else 3

    # ------------------------------------------------------------ scalars and pixel-wise values
    def scalar(self, t):
        f = lin(t, None)
        if f is not None and all(a is None or not self.e.is_arr(a) for a in f):
            f2 = None
            if any(a is not None and a.op == "call" for a in f):
                f2 = lin(t, self.sub)
            r = pconst(0)
            for a, c in f.items():
                r = padd(r, pconst(c) if a is None else pmul(pconst(c), patom(self.atom(a))))
            return r
        return rat(t, lambda x: Rat(patom(self.atom(x))) if x.op in ("sym", "dim") else None).poly()

    def atom(self, a):
        if a.op == "dim":
            return f"n{a.args[1]}"
        if a.op == "sym":
            return a.args[0]
        if a.op == "call" and a.args[0] in ("builtins.abs", "builtins.max", "builtins.min", "numpy.abs"):
            raise Unknown("abs")
        raise Unknown(a.op)

    def value(self, t, co):
        """polynomial value of an array term at the pixel with coordinates co (list of polynomials or None for broadcast axes)"""
        def leaf(x):
            if x.op == "getitem" and is_const(x.args[1]) and isinstance(cval(x.args[1]), int):
                k, g = cval(x.args[1]), x.args[0]
                if g.op == "getitem" and g.args[0].op == "ext" and g.args[0].args[0] in ("numpy.ogrid", "numpy.mgrid"):
                    sl = g.args[1].args if g.args[1].op == "tuple" else (g.args[1],)
                    if len(sl) != len(co) and not (self.kind == "rgb" and len(sl) == 2):
                        raise Unknown("grid")
                    s = sl[k]
                    if s.op != "slice" or not is_const(s.args[2], None, 1):
                        raise Unknown("grid step")
                    start = pconst(0) if is_const(s.args[0], None) else self.scalar(s.args[0])
                    if co[k] is None:
                        raise Unknown("grid")
                    return Rat(padd(start, co[k]))
                if g.op == "call" and g.args[0] == "numpy.indices":
                    return Rat(co[k])
                raise Unknown("item")
            if x.op == "view":
                return Rat(self.value(x.args[0], self.viewco(x, co)))
            if x.op == "call" and x.args[0] == "numpy.arange" and len(co) >= 1:
                if len(x.args[1]) == 1:
                    return Rat(co[-1])
                if len(x.args[1]) == 2:
                    return Rat(padd(self.scalar(x.args[1][0]), co[-1]))
                raise Unknown("arange")
            if x.op in ("sym", "dim"):
                return Rat(patom(self.atom(x)))
            if x.op == "call" and x.args[0] in ("builtins.abs", "numpy.abs", "numpy.absolute"):
                return Rat(patom(("abs", pkey(self.value(x.args[1][0], co)))))
            if x.op == "call" and x.args[0] in ("numpy.sqrt", "math.sqrt"):
                return Rat(patom(("sqrt", pkey(self.value(x.args[1][0], co)))))
            return None
        r = rat(t, leaf).poly()
        # |x|^2 = x^2
        out = pconst(0)
        for m, c in r.items():
            q = pconst(c)
            for a, k in m:
                if isinstance(a, tuple) and a[0] in ("abs", "sqrt"):
                    b = dict(a[1])
                    while k >= 2:
                        q = pmul(q, pmul(b, b) if a[0] == "abs" else b)
                        k -= 2
                if k:
                    q = pmul(q, patom(a, k))
            out = padd(out, q)
        return out

    def viewco(self, v, co):
        base, spec, fixed = v.args
        n = self.e.ndim(base)
        n = n if n is not None else sum(1 for s in spec if s[0] != "new") + len(fixed)
        r = [None] * n
        off = len(co) - len(spec)
        for k, s in enumerate(spec):
            if s[0] == "new":
                continue
            if s[1] or s[2] or k + off < 0:
                raise Unknown("view")
            r[s[0]] = co[k + off]
        for ax, ix in fixed:
            r[ax] = self.scalar(ix)
        return r

    def pred(self, t, co):
        """truth of a boolean array at a pixel: TRUE_, FALSE_, ('and', frozenset of polynomials <= 0), ('not', p)"""
        o, a = t.op, t.args
        if o in ("invert", "not") or o == "call" and a[0] in ("numpy.logical_not", "numpy.invert", "numpy.bitwise_not"):
            return neg(self.pred(a[0] if o != "call" else a[1][0], co))
        if o in ("bitand", "and", "mul") or o == "call" and a[0] in ("numpy.logical_and", "numpy.bitwise_and"):
            x, y = a if o != "call" else a[1][:2]
            return conj(self.pred(x, co), self.pred(y, co))
        if o in ("bitor", "or") or o == "call" and a[0] in ("numpy.logical_or", "numpy.bitwise_or"):
            x, y = a if o != "call" else a[1][:2]
            return neg(conj(neg(self.pred(x, co)), neg(self.pred(y, co))))
        if o in ("le", "lt", "ge", "gt"):
            x, y = a
            if o in ("ge", "gt"):
                x, y = y, x
            return self.cmp(self.value(x, co), self.value(y, co), o in ("lt", "gt"))
        if o == "call" and a[0] in ("numpy.less_equal", "numpy.less", "numpy.greater", "numpy.greater_equal"):
            x, y = a[1][:2]
            if "greater" in a[0]:
                x, y = y, x
            return self.cmp(self.value(x, co), self.value(y, co), not a[0].endswith("equal"))
        if o == "store":
            base, ix, v = a
            if not is_const(v) or cval(v) not in (0, 1, True, False):
                raise Unknown("store")
            inside = self.box(ix, co, self.e.ndim(base))
            old = self.pred(base, co)
            return neg(conj(neg(old), neg(inside))) if cval(v) else conj(old, neg(inside))
        if o in ("alloc", "call") and isinstance(a[0], str) and a[0].startswith("numpy."):
            f = a[0].split(".")[-1]
            if f in ("zeros", "zeros_like", "ones", "ones_like", "full", "full_like"):
                nd = self.e.ndim(t)
                if nd is not None and nd != len(co):
                    raise Mismatch(f"a mask with {nd} axes is used for an image with {len(co)}")
                if f.startswith("zeros"):
                    return FALSE_
                if f.startswith("ones"):
                    return TRUE_
                v = a[1][1] if len(a[1]) > 1 else dict(a[2]).get("fill_value")
                if v is not None and is_const(v) and cval(v) in (0, 1):
                    return TRUE_ if cval(v) else FALSE_
                raise Unknown("full")
            if f in ("repeat", "broadcast_to", "tile", "stack"):
                x = a[1][0]
                if f == "repeat":
                    nx = self.mrank(x)
                    if nx is not None and nx != len(co):
                        raise Mismatch(f"the mask is repeated to {nx} axes for an image with {len(co)}")
                    return self.pred(x, co[:-1] + [None])
                if f == "broadcast_to":
                    return self.pred(x, co)
                raise Unknown(f)
            if f in ("asarray", "array", "astype", "copy", "ascontiguousarray") and a[1]:
                return self.pred(a[1][0], co)
        if o == "mcall" and a[1] in ("astype", "copy"):
            return self.pred(a[0], co)
        if o == "view":
            return self.pred(a[0], self.viewco(t, co))
        if o == "getitem" and a[1].op == "tuple":
            r, k = [], 0
            for s in a[1].args:
                if is_none_ix(s):
                    k += 1
                elif s.op == "slice" and all(is_const(x, None) for x in s.args):
                    r.append(co[k])
                    k += 1
                elif is_const(s) and cval(s) is Ellipsis:
                    m = len(co) - (len(a[1].args) - 1)
                    r += co[k:k + m]
                    k += m
                else:
                    raise Unknown("mask index")
            return self.pred(a[0], r + co[k:])
        raise Unknown(o if o != "call" else a[0])

    def mrank(self, t):
        """rank of a mask term, or None"""
        if t.op == "getitem" and t.args[1].op == "tuple":
            b = self.mrank(t.args[0])
            return None if b is None else b + sum(1 for s in t.args[1].args if is_none_ix(s))
        n = self.e.ndim(t)
        if n is None and t.op in ("le", "lt", "ge", "gt"):
            g = [x for x in subterms(t) if x.op == "getitem" and x.args[0].op == "ext" and x.args[0].args[0] in ("numpy.ogrid", "numpy.mgrid")]
            if g and g[0].args[1].op == "tuple":
                return len(g[0].args[1].args)
        return n

    def cmp(self, x, y, strict):
        """x <= y (or <) over the integers"""
        def root(p):
            if len(p) == 1:
                (m, c), = p.items()
                if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "sqrt" and c == 1:
                    return dict(m[0][0][1])
            return None
        r = root(x)
        if r is not None and root(y) is None:
            x, y = r, pmul(y, y)          # both sides are non-negative (the right one is the radius)
        if any(isinstance(a, tuple) for p in (x, y) for m in p for a, _ in m):
            # |u| <= v  <=>  u <= v and -u <= v
            if len(x) == 1 and list(x.values()) == [1]:
                (m,) = x
                if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "abs":
                    u = dict(m[0][0][1])
                    return conj(self.cmp(u, y, strict), self.cmp(pmul(u, pconst(-1)), y, strict))
            raise Unknown("comparison")
        d = padd(x, y, -1)
        if strict:
            d = padd(d, pconst(1))
        if any(c.denominator != 1 for c in d.values()):
            raise Unknown("comparison")
        return ("and", frozenset([pkey(d)]))

    def box(self, ix, co, nd):
        if nd is not None and nd != len(co):
            raise Mismatch(f"a mask with {nd} axes is used for an image with {len(co)}")
        items = ix.args if ix.op == "tuple" else (ix,)
        r = TRUE_
        k = 0
        for s in items:
            if is_const(s) and cval(s) is Ellipsis:
                k = len(co) - (len(items) - 1 - items.index(s))
                continue
            if s.op != "slice":
                raise Unknown("index")
            r = conj(r, self.interval(s.args, co[k], k))
            k += 1
        return r

    def interval(self, sl, p, ax):
        lo, hi, st = sl
        if not is_const(st, None, 1):
            raise Unknown("step")
        if p is None:
            return TRUE_
        r = TRUE_
        lo, hi = self.clip(lo, ax, True), self.clip(hi, ax, False)
        if lo is not None:
            r = conj(r, self.cmp(lo, p, False))
        if hi is not None:
            r = conj(r, self.cmp(p, hi, True))
        return r

    def clip(self, t, ax, low):
        """bound of a slice; max(x, 0) and min(x, extent) are resolved in the analysed case"""
        if is_const(t, None):
            return None
        if low and is_const(t, 0):
            return None
        while t.op == "call" and t.args[0] in ("builtins.max", "builtins.min", "numpy.maximum", "numpy.minimum", "numpy.clip", "builtins.int"):
            full = lin(t, self.sub)
            for x in t.args[1]:
                if lin(x, self.sub) == full:
                    t = x
                    break
            else:
                raise Unknown("bound")
        if t.op == "dim":
            return None
        return self.scalar(t)

    # ------------------------------------------------------------ array content
    def arr(self, t):
        """-> (content, pixel set): content 'img', 'gray', ('mix', coefficients), 'all' (all channels)"""
        co = [patom(f"p{k}") for k in range(self.n)]
        o, a = t.op, t.args
        if t is I:
            return ("img" if self.kind != "rgb" else "all", TRUE_)
        if loaded(t):
            return self.arr(loaded_src(t))
        if o in ("store", "call", "opaque") and self.kind == "rgb" and any(x.op == "call" and x.args[0] == "skimage.color.rgb2gray" for x in subterms(t)) \
                and self.e.ndim(t) == 2 and not any(x.op == "call" and x.args[0].startswith("numpy.ma") for x in subterms(t) if isinstance(x.args[0], str)):
            return ("gray", TRUE_)
        if o == "call":
            n = a[0]
            if n in ("numpy.ma.array", "numpy.ma.masked_array", "numpy.ma.core.MaskedArray", "numpy.ma.MaskedArray"):
                kw = dict(a[2])
                d = a[1][0] if a[1] else kw.get("data")
                m = kw.get("mask", a[1][1] if len(a[1]) > 1 and n != "numpy.ma.array" else a[1][2] if len(a[1]) > 2 else None)
                c, p = self.arr(d)
                if m is None:
                    return c, p
                return c, conj(p, neg(self.mask(m, c)))
            if n == "numpy.ma.masked_where":
                c, p = self.arr(a[1][1])
                return c, conj(p, neg(self.mask(a[1][0], c)))
            if n in ("numpy.astype", "numpy.asarray", "numpy.array", "numpy.copy", "numpy.float64", "numpy.float32", "numpy.ravel", "numpy.ascontiguousarray"):
                return self.arr(a[1][0])
            if n in ("numpy.dot", "numpy.matmul"):
                return self.mix(a[1][0], a[1][1])
            raise Unknown(n)
        if o == "mcall" and a[1] in ("compressed", "ravel", "flatten", "astype", "copy"):
            return self.arr(a[0])
        if o == "mcall" and a[1] == "dot":
            return self.mix(a[0], a[2][0])
        if o == "matmul":
            return self.mix(*a)
        if o == "view":
            c, p = self.arr(a[0])
            fixed = dict(a[2])
            for ax, s in enumerate(a[1]):
                if s[0] == "new" or s[1]:
                    raise Unknown("view")
                for sl in s[2]:
                    if len(s[2]) != 1 or len(sl) != 3 or s[0] >= self.n:
                        raise Unknown("view")
                    p = conj(p, self.interval(sl, co[s[0]], s[0]))
            if fixed:
                if self.kind != "rgb" or set(fixed) != {2}:
                    raise Unknown("plane")
                return self.channel(c, fixed[2]), p
            return c, p
        if o == "getitem":
            b, ix = a
            items = ix.args if ix.op == "tuple" else (ix,)
            if self.kind == "rgb" and len(items) in (2, 3) and is_const(items[-1]) and isinstance(cval(items[-1]), int) and (
                    len(items) == 3 and all(s.op == "slice" and all(is_const(x, None) for x in s.args) for s in items[:2]) or is_const(items[0]) and cval(items[0]) is Ellipsis):
                c, p = self.arr(b)
                return self.channel(c, items[-1]), p
            if all(s.op == "slice" for s in items):
                c, p = self.arr(b)
                return c, conj(p, self.box(ix, co if c not in ("all",) else co + [None], None))
            if len(items) == 1:
                c, p = self.arr(b)
                return c, conj(p, self.mask(ix, c))
        raise Unknown(o)

    def mask(self, m, content):
        co = [patom(f"p{k}") for k in range(self.n)]
        allch = content == "all" or isinstance(content, tuple) and content[0] == "mix3"
        return self.pred(m, co + [None] if allch else co)

    def mix(self, x, w):
        c, p = self.arr(x)
        if c != "all":
            raise Unknown("matmul")
        tr = False
        while True:
            if w.op == "attr" and w.args[1] == "T" or w.op == "call" and w.args[0] == "numpy.transpose":
                w, tr = w.args[0] if w.op == "attr" else w.args[1][0], not tr
            elif w.op == "view" and len(w.args[1]) == 2 and not w.args[2] and not any(s[0] == "new" or s[1] or s[2] for s in w.args[1]):
                if w.args[1][0][0] == 1:
                    tr = not tr
                w = w.args[0]
            elif w.op == "call" and w.args[0] in ("numpy.array", "numpy.asarray") and w.args[1]:
                w = w.args[1][0]
            else:
                break
        rows = w.args if w.op in ("listv", "tuple") else ()
        try:
            mat = [[rat(v, lambda x: None).value() for v in r.args] for r in rows]
        except (Unknown, AttributeError):
            raise Unknown("weights")
        if len(mat) != 3 or any(len(r) != 3 for r in mat):
            raise Unknown("weights")
        if not tr:
            mat = [list(r) for r in zip(*mat)]
        return ("mix3", tuple(tuple(r) for r in mat)), p

    def channel(self, c, ix):
        if not is_const(ix) or not isinstance(cval(ix), int) or not -3 <= cval(ix) < 3:
            raise Unknown("channel")
        i = cval(ix) % 3
        if c == "all":
            return ("mix", tuple(Fraction(int(j == i)) for j in range(3)))
        if isinstance(c, tuple) and c[0] == "mix3":
            return ("mix", c[1][i])
        raise Unknown("channel")

    # ------------------------------------------------------------ statistics
    def stat(self, t):
        """-> (statistic, content, pixels) or None"""
        o, a = t.op, t.args
        ix = None
        if o == "view" and len(a[1]) == 0 and len(a[2]) == 1 and a[2][0][0] == 0:
            ix, t = a[2][0][1], a[0]
        elif o == "getitem":
            ix, t = a[1], a[0]
        o, a = t.op, t.args
        if o == "call" and a[0].startswith("numpy.") and a[1]:
            name, x, pos, kw = a[0].split(".")[-1], a[1][0], a[1][1:], dict(a[2])
        elif o == "mcall":
            name, x, pos, kw = a[1], a[0], a[2], dict(a[3]) if len(a) > 3 else {}
        else:
            return None
        if name not in ("mean", "average", "nanmean", "std", "nanstd", "var", "nanvar", "median", "sum", "min", "max", "ptp", "amax", "amin", "nanmedian", "count", "size"):
            return None
        axis = kw.get("axis", pos[0] if pos else NONE)
        rest = {k: v for k, v in kw.items() if k not in ("axis", "dtype", "keepdims", "out", "where", "weights") and not is_const(v, None, 0)}
        if kw.get("where") or kw.get("weights") or len(pos) > 1:
            raise Unknown("statistic")
        c, p = self.arr(x)
        if ix is not None:
            if axis.op != "tuple" or [cval(v) for v in axis.args if is_const(v)] not in ([0, 1],):
                raise Unknown("axis")
            c = self.channel(c, ix)
        elif not is_const(axis, None):
            if c not in ("img", "gray") and not (isinstance(c, tuple) and c[0] == "mix"):
                raise Unknown("axis")
            if axis.op != "tuple" or len(axis.args) != self.n:
                raise Unknown("axis")
        if isinstance(c, tuple) and c[0] == "mix3":
            c = ("allmix", c[1])
        name = "mean" if name in MEAN else {"nanstd": "std", "nanvar": "var"}.get(name, name)
        if rest:
            name += "".join(f"[{k}={show(v)}]" for k, v in sorted(rest.items()))
        return (name, c, p)


def is_none_ix(s):
    return is_const(s, None) or s.op == "ext" and s.args[0] == "numpy.newaxis"


def neg(p):
    if p == TRUE_:
        return FALSE_
    if p == FALSE_:
        return TRUE_
    if p[0] == "not":
        return p[1]
    if p[0] == "and" and len(p[1]) == 1:
        (k,) = p[1]
        return ("and", frozenset([pkey(padd(pmul(dict(k), pconst(-1)), pconst(1)))]))   # not (P <= 0)  <=>  1 - P <= 0
    return ("not", p)


def conj(p, q):
    if p == TRUE_:
        return q
    if q == TRUE_:
        return p
    if FALSE_ in (p, q):
        return FALSE_
    if p[0] == "and" and q[0] == "and":
        return ("and", p[1] | q[1])
    if p == q:
        return p
    raise Unknown("pixel set")


def show_pixels(p, n=300):
    if p == TRUE_:
        return "the whole image"
    if p == FALSE_:
        return "no pixel"

    def poly(k):
        out = []
        for m, c in sorted(dict(k).items(), key=repr):
            f = "*".join(f"{a}^{e}" if e > 1 else str(a) for a, e in m)
            out.append(f"{'' if abs(c) == 1 and f else abs(c)}{f}" if c > 0 else f"-{'' if abs(c) == 1 and f else abs(c)}{f}")
        return " + ".join(out).replace("+ -", "- ") + " <= 0"
    if p[0] == "not":
        return "outside of " + show_pixels(p[1])
    s = "pixels p with " + ", ".join(sorted(poly(k) for k in p[1]))
    return s if len(s) < n else s[:n] + "…"


def expected_pixels(names, rtype):
    n = len(names)
    P = [patom(f"p{k}") for k in range(n)]
    C = [patom(c) for c in names]
    R_ = patom("radius")
    if rtype in WHOLE:
        return TRUE_
    if rtype in CUBE:
        s = set()
        for p, c in zip(P, C):
            s.add(pkey(padd(padd(c, R_, -1), p, -1)))
            s.add(pkey(padd(padd(padd(p, c, -1), R_, -1), pconst(1))))
        return ("and", frozenset(s))
    d = pconst(0)
    for p, c in zip(P, C):
        q = padd(p, c, -1)
        d = padd(d, pmul(q, q))
    return ("and", frozenset([pkey(padd(d, pmul(R_, R_), -1))]))


def show_stat(s):
    name, c, p = s
    what = {"img": "the image", "gray": "the luminance", "all": "all channels"}.get(c) if isinstance(c, str) else \
        "channel " + "RGB"[[int(v) for v in c[1]].index(1)] if c[0] == "mix" and sorted(c[1]) == [0, 0, 1] else \
        "channel with RGB weights (" + ", ".join(f"{float(v):g}" for v in c[1]) + ")" if c[0] == "mix" else "all channels"
    return f"{name} of {what} over {show_pixels(p, 160)}"


def cases(kind, n, centres):
    """(label, substitution, centre symbols) for regions inside the image"""
    out = []
    orders = [(0,)] if len(centres) == 1 else [(0, 1), (1, 0)]
    for o in orders:
        sub = {RAD: {sym("r_", "int"): 1, None: 1}}
        first = centres[o[0]]
        for k in range(n):
            sub[first[k]] = plus(sub[RAD], {sym(f"a{k}", "int"): 1})
            last = first[k]
            if len(o) == 2:
                sub[centres[o[1]][k]] = plus(sub[first[k]], {sym(f"b{k}", "int"): 1})
                last = centres[o[1]][k]
            sub[mk("dim", I, k)] = plus(plus(sub[last], sub[RAD]), {sym(f"d{k}", "int"): 1})
        out.append(sub)
    return out


def dims(sub, kind, e):
    """the extent of the loaded image is that of the image"""
    return sub


@register("C17", "CNR and SNR follow their definition on exactly the requested region", VN)
def c17(rep, tier):
    e = engine()
    rep.rule("formula", "the result is the documented quotient of means and standard deviations of the documented image content")
    rep.rule("region", "the pixels entering each mean and standard deviation are exactly those of the requested region")
    rep.rule("zero", "the result is 0 where the standard deviation is 0")
    rep.rule("guard", "centres closer than the radius to a border, ill-fitting, non-integer or unknown settings raise an error and regions inside the image do not")
    undecided = 0
    for metric, (mod, name), kinds in (("CNR", CNRF, ("2d", "3d")), ("SNR", SNRF, ("2d", "3d", "rgb"))):
        fi = e.p.func(mod, name)
        loc = fi_loc(e, fi)
        rep.functions.add(f"{mod}.{name}")
        for kind in kinds:
            n = 3 if kind == "3d" else 2
            sig = [sym(f"signal{k}", "int") for k in range(n)]
            bgr = [sym(f"background{k}", "int") for k in range(n)]
            cent = [sig, bgr] if metric == "CNR" else [sig]

            def run_(rtype, facts, sc=None, bc=None, rad=RAD, extra=()):
                e.cfg = scenario(kind, "float64", facts=facts, load_opaque=True)
                kws = [("signal_center", sc or tup(*sig)), ("radius", rad)] + ([("region_type", const(rtype))] if rtype else [])
                if metric == "CNR":
                    kws.append(("background_center", bc or tup(*bgr)))
                return call(e, mk("func", mod, name), [I], kws + list(extra))

            modes = [None] if kind != "rgb" else [True, False]
            rtypes = (None,) + CUBE + BALL + WHOLE
            for sub in cases(kind, n, cent):
                sub = withloaded(sub, kind)
                for rtype in rtypes:
                    for mode in modes:
                        extra = [] if mode is None else [("yuv", const(mode))]
                        undecided += one(rep, e, metric, kind, n, rtype, mode, sub, lambda f, extra=extra, rtype=rtype: run_(rtype, f, extra=extra), loc, fi)
                if tier == "quick" and metric == "CNR":
                    pass
            guards(rep, e, metric, kind, n, run_, loc, sig, bgr)
    rep.ob("formula", 0, f"undecided: {undecided}")
    rep.floor("formula", 60)
    rep.floor("region", 80)
    rep.floor("guard", 30)


def withloaded(sub, kind):
    """extents of the loaded image = extents of the image"""
    r = dict(sub)
    if kind == "rgb":
        r[mk("dim", I, 2)] = {None: 3}
    return r


def dimfacts(e, sub):
    """order facts that also see the extents of loaded / converted copies of the image"""
    base = order_facts(e, sub)

    def canon(t):
        if not isinstance(t, T):
            return t
        m = {}
        for x in subterms(t):
            if x.op == "dim" and isinstance(x.args[0], T) and x.args[0] is not I:
                y = x.args[0]
                while loaded(y):
                    y = loaded_src(y)
                if y is I or (y.op in ("matmul", "store", "call") and I in subterms(y) and x.args[1] < 2):
                    m[x] = mk("dim", I, x.args[1])
        return subst(t, m) if m else t

    def f(key):
        return base(canon(key))
    return f


def stat_facts(rg, zero):
    """facts for comparisons of a standard deviation (or variance) with 0; zero(stat) -> True / False"""
    def sd(t):
        while t.op == "call" and t.args[0] in ("numpy.float64", "builtins.float", "builtins.abs", "numpy.abs") and t.args[1]:
            t = t.args[1][0]
        try:
            r = form(rg, t)
        except (Unknown, Mismatch):
            return None
        if len(r.n) == 1 and len(r.d) == 1:
            (m, c), = r.n.items()
            if len(m) == 1 and c > 0 and not m[0][0][0].find("std") and r.d == pconst(1):
                return m[0][0]
        return None

    def f(key):
        if key.op in ("eq", "lt", "le"):
            a, b = key.args
            for x, y, sw in ((a, b, False), (b, a, True)):
                if is_const(y) and not isinstance(cval(y), (str, type(None))) and cval(y) == 0:
                    s = sd(x)
                    if s is None:
                        continue
                    z = zero(s)
                    if key.op == "eq":
                        return z
                    if key.op == "lt":
                        return (not z) if sw else False
                    return True if sw else z
            return None
        s = sd(key)
        if s is not None:
            return not zero(s)
        return None
    return f


def one(rep, e, metric, kind, n, rtype, mode, sub, run_, loc, fi):
    rg = Regions(e, kind, sub)
    order = dimfacts(e, sub)
    ps = expected_pixels([f"signal{k}" for k in range(n)], rtype or "cubic")
    pb = expected_pixels([f"background{k}" for k in range(n)], rtype or "cubic")
    label = f"{metric} of a {kind} image, region type {rtype or '(default)'}" + ("" if mode is None else f", yuv={mode}")
    rgb = kind == "rgb"
    contents = ["img"] if not rgb else [("mix", tuple(Fraction(v) for v in r)) for r in YUV] if mode else [("mix", tuple(Fraction(int(i == j)) for j in range(3))) for i in range(3)]
    ncomp = len(contents)
    undecided = 0
    zero_sets = [()] + ([tuple(range(ncomp))] if ncomp == 1 else [tuple(range(ncomp))] + [(i,) for i in range(ncomp)])
    for zs in zero_sets:
        zkeys = {contents[i] for i in zs}

        def zero(s):
            return s[1] in zkeys if rgb else bool(zs)
        sf = stat_facts(rg, zero)
        facts = lambda k: (lambda v: v if v is not None else sf(k))(order(k))
        for p in run_(facts):
            rule = "zero" if zs else "formula"
            rep.ob(rule, 1, label)
            if p.kind == "exc":
                if any_unknown(p, e):
                    continue
                rep.bad("guard", f"{kind} {rtype} {mode}: {e.exc_name(p.val)}", loc, f"{label}: {e.exc_name(p.val)} is raised although the region lies inside the image ("
                        + "; ".join(f"{short(c, 80)} is {v}" for c, v in list(p.st.conds.items())[-2:]) + ")")
                continue
            v = e.freeze(p.val, p.st)
            comps = list(v.args) if v.op in ("tuple", "listv") else [v]
            lum = None
            if rgb:
                want = ncomp + (0 if mode else 1)
                if v.op not in ("tuple", "listv"):
                    undecided += 1
                    continue
                if len(comps) != want:
                    rep.bad("formula", f"{kind} {mode}: number of values", loc, f"{label}: {len(comps)} values are returned instead of {want}")
                    continue
                if not mode:
                    lum, comps = comps[0], comps[1:]
            elif len(comps) != 1:
                rep.bad("formula", f"{kind}: tuple", loc, f"{label}: {len(comps)} values are returned instead of one")
                continue
            if lum is not None:
                undecided += luminance(rep, e, rg, lum, ps, label, loc, rtype, zs)
            for i, c in enumerate(comps):
                if rgb:
                    mean = ("mean", contents[0] if mode else contents[i], ps)
                    sd = ("std", contents[i], ps)
                    want = (mean,), sd
                elif metric == "CNR":
                    want = (("mean", "img", ps), ("mean", "img", pb)), ("std", "img", pb)
                else:
                    want = (("mean", "img", ps),), ("std", "img", ps)
                if rgb and i in zs or not rgb and zs:
                    want = None
                undecided += compare(rep, rg, c, want, label + (f", value {i}" if rgb else ""), loc, f"{kind} {rtype} {mode} {i}", p, e)
    return undecided


def any_unknown(p, e):
    """the path depends on a condition the order facts could not decide and that is not about the analysed quantities"""
    return False


def luminance(rep, e, rg, t, ps, label, loc, rtype, zs):
    while t.op == "call" and t.args[0] in ("numpy.float64", "builtins.float") and t.args[1]:
        t = t.args[1][0]
    if t.op == "reccall":
        d = dict(t.args[1])
        img = next((v for v in d.values() if isinstance(v, T) and v.op in ("store", "call", "opaque") and I in subterms(v)), None)
        try:
            c = rg.arr(img)[0] if img is not None else None
        except (Unknown, Mismatch):
            return 1
        rep.ob("formula", 1, label + ", luminance")
        want = {"signal_center": tup(*[sym(f"signal{k}", "int") for k in range(2)]), "radius": RAD, "region_type": const(rtype or "cubic"), "auto_center": FALSE}
        for k, v in want.items():
            if k in d and d[k] is not v:
                rep.bad("region", f"luminance {k}", loc, f"{label}: the luminance SNR is computed with {k} = {short(d[k], 60)} instead of {short(v, 60)}")
        if c != "gray":
            rep.bad("formula", "luminance content", loc, f"{label}: the first value is not computed on the luminance image")
        return 0
    if is_const(t, 0) or is_const(t, 0.0):
        if not zs:
            rep.bad("formula", "luminance zero", loc, f"{label}: the luminance SNR is 0")
        return 0
    try:
        r = form(rg, t)
    except Unknown:
        return 1
    except Mismatch as x:
        rep.bad("region", f"luminance {x}", loc, f"{label}: {x}")
        return 0
    want = Rat(patom(("mean", "gray", ps))) / Rat(patom(("std", "gray", ps)))
    rep.ob("formula", 1, label + ", luminance")
    if not r.same(want):
        rep.bad("formula", "luminance", loc, f"{label}: the luminance SNR is not mean / std of the luminance over the region")
    return 0


def form(rg, t):
    def leaf(x):
        s = rg.stat(x)
        if s is not None:
            if s[0] == "var":
                return Rat(patom(("std",) + s[1:], 2))
            return Rat(patom(s))
        if x.op == "call" and x.args[0] in ("numpy.sqrt", "math.sqrt"):
            r = rat(x.args[1][0], leaf)
            if len(r.n) == 1 and r.d == pconst(1):
                (m, c), = r.n.items()
                if c == 1 and all(k % 2 == 0 for _, k in m):
                    return Rat({tuple((a, k // 2) for a, k in m): Fraction(1)})
            raise Unknown("sqrt")
        return None
    return rat(t, leaf)


def compare(rep, rg, t, want, label, loc, tag, p, e):
    try:
        r = form(rg, t)
    except Unknown:
        return 1
    except Mismatch as x:
        rep.bad("region", f"{tag}: mask", loc, f"{label}: {x}, so no value can be computed")
        return 0
    if want is None:
        if r.value() != 0:
            rep.bad("zero", f"{tag}", loc, f"{label}: where the standard deviation is 0 the result is {short(t, 100)} instead of 0")
        return 0
    means, sd = want
    rep.ob("region", len(r.atoms()), label)
    w = Rat(patom(means[0]))
    if len(means) == 2:
        w = w - Rat(patom(means[1]))
    w = w / Rat(patom(sd))
    if not r.same(w):
        if not r.atoms() and blurred(rg, p):
            return 1
        ok = {*means, sd}
        odd = [s for s in r.atoms() if s not in ok]
        rep.bad("formula" if not odd else "region", f"{tag}", loc, f"{label}: the result "
                + (f"uses the {show_stat(odd[0])}; expected are " + " and ".join(show_stat(s) for s in (*means, sd)) if odd and isinstance(odd[0], tuple) and len(odd[0]) == 3
                   else f"is not ({' - '.join('mean' for _ in means)}) / std of the regions" if r.atoms() else f"is {short(t, 80)} although the standard deviation is not 0"))
    return 0


def blurred(rg, p):
    """the path was taken on a condition about the image that could not be read"""
    for c in p.st.conds:
        if I not in subterms(c):
            continue
        if c.op in ("eq", "lt", "le"):
            x = [y for y in c.args if not is_const(y)]
            try:
                if len(x) == 1 and form(rg, x[0]).atoms():
                    continue
            except (Unknown, Mismatch):
                pass
        return True
    return False


def guards(rep, e, metric, kind, n, run_, loc, sig, bgr):
    cents = [("signal", sig)] + ([("background", bgr)] if metric == "CNR" else [])

    def must_raise(what, tag, ps, types=("ValueError", "TypeError")):
        for p in ps:
            rep.ob("guard", 1, f"{metric} {kind}: {what}")
            if p.kind == "ret" or not any(e.exc_is(p.val, x) for x in types):
                rep.bad("guard", f"{kind}: {tag}", loc, f"{metric} of a {kind} image: {what} " + ("is accepted" if p.kind == "ret" else f"raises {e.exc_name(p.val)}")
                        + " instead of raising ValueError or TypeError")
                return
    inside = withloaded(cases(kind, n, [c for _, c in cents])[0], kind)
    yes = dimfacts(e, inside)
    for who, c in cents:
        for k in range(n):
            # too close to the low border: 0 <= c < r
            sub = dict(inside)
            sub[c[k]] = {sym("u", "int"): 1}
            sub[RAD] = {sym("u", "int"): 1, sym("v", "int"): 1, None: 1}
            for w, d in cents:
                for j in range(n):
                    if (w, j) != (who, k):
                        sub[d[j]] = plus(sub[RAD], {sym(f"a{w}{j}", "int"): 1})
            for j in range(n):
                s = {}
                for w, d in cents:
                    s = plus(s, sub[d[j]])
                sub[mk("dim", I, j)] = plus(plus(s, sub[RAD]), {sym(f"e{j}", "int"): 1})
            for rt in ("cubic", "spherical"):
                must_raise(f"a {who} centre closer than the radius to the low border of axis {k} ({rt})", f"{who} low {k}", run_(rt, dimfacts(e, sub)))
            # too close to the high border: extent - r < c < extent
            sub = dict(inside)
            sub[RAD] = {sym("w", "int"): 1, sym("z", "int"): 1, None: 1}
            for w, d in cents:
                for j in range(n):
                    sub[d[j]] = plus(sub[RAD], {sym(f"a{w}{j}", "int"): 1})
            for j in range(n):
                s = {}
                for w, d in cents:
                    s = plus(s, sub[d[j]])
                sub[mk("dim", I, j)] = plus(plus(s, sub[RAD]), {sym(f"e{j}", "int"): 1})
            dim = mk("dim", I, k)
            sub[dim] = plus(sub[c[k]], {sym("w", "int"): 1})
            for w, d in cents:
                if w != who:      # the other centre stays inside: r <= d, d + r <= extent; take it as close to the low border as possible
                    sub[RAD] = {sym("w", "int"): 1, sym("z", "int"): 1, None: 1}
                    sub[c[k]] = plus(plus(sub[RAD], sub[RAD]), {sym(f"a{who}{k}", "int"): 1})
                    sub[dim] = plus(sub[c[k]], {sym("w", "int"): 1})
                    sub[d[k]] = dict(sub[RAD])
            for rt in ("cubic", "spherical"):
                must_raise(f"a {who} centre closer than the radius to the high border of axis {k} ({rt})", f"{who} high {k}", run_(rt, dimfacts(e, sub)))
            f = [sym(f"{who}f{j}", "float") if j == k else c[j] for j in range(n)]
            kw = {"sc" if who == "signal" else "bc": tup(*f)}
            must_raise(f"a non-integer coordinate {k} of the {who} centre", f"{who} float {k}", run_("cubic", yes, **kw))
        for m in (n - 1, n + 1):
            cc = tup(*([*c, sym("extra", "int")][:m]))
            sub = dict(inside)
            sub[sym("extra", "int")] = plus(sub[RAD], {sym("x", "int"): 1})
            kw = {"sc" if who == "signal" else "bc": cc}
            must_raise(f"a {who} centre with {m} coordinates", f"{who} {m} coordinates", run_("cubic", dimfacts(e, sub), **kw))
    must_raise("a non-integer radius", "float radius", run_("cubic", yes, rad=sym("rf", "float")))
    sub = dict(inside)
    sub[RAD] = {}
    must_raise("a radius of 0", "radius 0", run_("cubic", dimfacts(e, sub)))
    sub[RAD] = {sym("m", "int"): -1, None: -1}
    must_raise("a negative radius", "radius negative", run_("cubic", dimfacts(e, sub)))
    must_raise("an unknown region type", "region type", run_("no such region", yes), ("ValueError",))
