"""Normal forms of array expressions: rational functions over interned atoms (images, filter responses, reductions, roots, ...).
Two values with the same normal form are equal up to rounding for all images."""
from fractions import Fraction

from .harness import NODE, call, loaded, loaded_src, run, top_frame
from .poly import ONE, Rat, Unknown, padd, patom, pconst, pmul, ppow
from .terms import T, cval, is_const, mk, sym

ZERO, UNIT = Rat({}), Rat(pconst(1))


def C(v):
    if isinstance(v, float):
        # the simplest fraction that rounds to this float, so that 0.1, 1/10 and 49/48 are recognised
        q = Fraction(v).limit_denominator(1 << 20)
        v = q if float(q) == v else Fraction(repr(v))
    return Rat(pconst(Fraction(v)))


_ARITH = {"add", "sub", "mul", "div", "pow"}
_UF = {"numpy.add": "add", "numpy.subtract": "sub", "numpy.multiply": "mul", "numpy.divide": "div", "numpy.true_divide": "div", "numpy.power": "pow",
       "numpy.float_power": "pow", "builtins.pow": "pow", "math.pow": "pow"}
_CAST = {"builtins.float", "numpy.float64", "numpy.float32", "numpy.double", "numpy.float_", "numpy.longdouble", "numpy.asarray", "numpy.array",
         "numpy.ascontiguousarray", "numpy.copy", "numpy.asanyarray", "numpy.astype", "numpy.squeeze", "numpy.asfortranarray", "numpy.single"}
_SIG = {"scipy.ndimage.gaussian_filter": (("input", "sigma", "order", "output", "mode", "cval", "truncate", "radius", "axes"),
                                           {"order": 0, "output": None, "mode": "reflect", "cval": 0, "truncate": 4.0, "radius": None, "axes": None}),
        "scipy.ndimage.uniform_filter": (("input", "size", "output", "mode", "cval", "origin", "axes"),
                                          {"size": 3, "output": None, "mode": "reflect", "cval": 0, "origin": 0, "axes": None}),
        "scipy.ndimage.correlate": (("input", "weights", "output", "mode", "cval", "origin"), {"output": None, "mode": "reflect", "cval": 0, "origin": 0}),
        "scipy.ndimage.convolve": (("input", "weights", "output", "mode", "cval", "origin"), {"output": None, "mode": "reflect", "cval": 0, "origin": 0})}
_RED = {"numpy.mean": "mean", "numpy.average": "mean", "numpy.nanmean": "nanmean", "numpy.max": "amax", "numpy.amax": "amax", "numpy.min": "amin", "numpy.amin": "amin",
        "numpy.nanmax": "nanmax", "numpy.sum": "sum"}
_ELEM = {"numpy.nan_to_num", "numpy.sqrt", "numpy.abs", "numpy.absolute", "numpy.square", "numpy.exp", "numpy.log", "numpy.log10", "numpy.maximum", "numpy.minimum",
         "numpy.subtract", "numpy.add", "numpy.multiply", "numpy.divide", "numpy.true_divide", "numpy.power", "numpy.negative", "numpy.real", "numpy.where"}
_SK = {"mean_squared_error": ("image0", "image1"), "peak_signal_noise_ratio": ("image_true", "image_test", "data_range")}
_SCALAR = {"amax", "amin", "mean", "nanmean", "sum", "nanmax", "dim", "size", "log10", "log", "int", "norm"}


class Atom:
    __slots__ = ("n", "k")

    def __init__(self, n, k):
        self.n, self.k = n, k

    def __repr__(self):
        return f"a{self.n:05d}"


class NF:
    def __init__(self, e, leaf=None, raw=False):
        self.e, self.leaf, self.tab, self.rats, self.memo, self.kmemo = e, leaf or {}, {}, [], {}, {}
        self.fps, self.avals = [], {}
        self.st = None
        self.raw = raw  # unknown operations are atoms by identity

    # ---------------------------------------------------------------- atoms
    def atom(self, *key):
        a = self.tab.get(key)
        if a is None:
            a = self.tab[key] = Atom(len(self.tab), key)
        return a

    def at(self, *key):
        return Rat(patom(self.atom(*key)))

    def rk(self, r):
        """number of a rational function (equal functions, equal numbers)"""
        f = self.finger(r)
        for i, q in enumerate(self.rats):
            if not self.apart(f, self.fps[i]) and self.same(r, q):
                return i
        self.rats.append(r)
        self.fps.append(f)
        return len(self.rats) - 1

    # A fingerprint of a rational function: its value at a few fixed points of the atom space.  Different fingerprints save the exact comparison.
    def finger(self, r):
        out = []
        for s in range(3):
            n, d = self.peval(r.n, s), self.peval(r.d, s)
            out.append(None if n is None or d is None or abs(d) < 1e-9 else n / d)
        return out

    @staticmethod
    def apart(f, g):
        return any(x is not None and y is not None and abs(x - y) > 1e-4 * (abs(x) + abs(y) + 1e-3) for x, y in zip(f, g))

    def peval(self, p, s):
        tot = 0.0
        try:
            for m, c in p.items():
                t = float(c)
                for a, k in m:
                    v = self.aeval(a, s)
                    if v is None:
                        return None
                    t *= v ** k
                tot += t
        except (OverflowError, ZeroDivisionError):
            return None
        return tot

    def aeval(self, a, s):
        if (a, s) in self.avals:
            return self.avals[a, s]
        if a.k[0] in ("sqrt", "abs"):
            v = self.fps[a.k[1]][s]
            if v is not None:
                v = abs(v) if a.k[0] == "abs" else v ** 0.5 if v > 0 else None
        else:
            v = 0.5 + ((a.n + 1) * (0.6180339887, 0.7548776662, 0.5698402910)[s]) % 1.0
        self.avals[a, s] = v
        return v

    def same(self, x, y):
        if self.apart(self.finger(x), self.finger(y)):
            return False
        if x.same(y):
            return True
        if not any(a.k[0] in ("sqrt", "abs") for r in (x, y) for a in r.atoms()):
            return False
        p, q = self.red(Rat(pmul(x.n, y.d))), self.red(Rat(pmul(y.n, x.d)))
        return p.same(q)

    # ---------------------------------------------------------------- arithmetic with roots
    def red(self, r):
        """sqrt(a)^2 = a, sqrt(a) sqrt(b) = sqrt(ab), |a|^2 = a^2"""
        def bad(m):
            s = [(a, k) for a, k in m if a.k[0] == "sqrt"]
            return len(s) > 1 or any(k > 1 for _, k in s) or any(a.k[0] == "abs" and k > 1 for a, k in m)

        def one(p):
            if not any(bad(m) for m in p):
                return Rat(p)
            tot = ZERO
            for m, c in p.items():
                t = Rat({ONE: c})
                odd = []
                for a, k in m:
                    if a.k[0] == "sqrt" and k > 0:
                        x = self.rats[a.k[1]]
                        for _ in range(k // 2):
                            t = t * x
                        if k % 2:
                            odd.append(x)
                    elif a.k[0] == "abs" and k > 1:
                        x = self.rats[a.k[1]]
                        for _ in range(k // 2):
                            t = t * x * x
                        if k % 2:
                            t = t * Rat(patom(a))
                    else:
                        t = t * Rat(patom(a, k))
                if odd:
                    x = odd[0]
                    for y in odd[1:]:
                        x = x * y
                    t = t * self.sqrt(x)
                tot = tot + t
            return tot
        n, d = one(r.n), one(r.d)
        if n.n is r.n and d.n is r.d:
            return r
        return n / d

    def mul(self, x, y):
        return self.red(x * y)

    def div(self, x, y):
        if not y.n:
            raise Unknown("division by zero")
        return self.red(x / y)

    def pw(self, b, n):
        r = UNIT
        for _ in range(abs(n)):
            r = self.mul(r, b)
        return r if n >= 0 else self.div(UNIT, r)

    def power(self, b, x):
        v = x.value()
        if v is not None and v.denominator == 1 and abs(v) <= 8:
            return self.pw(b, int(v))
        if v is not None and v == Fraction(1, 2):
            return self.sqrt(b)
        if v is not None and v == Fraction(-1, 2):
            return self.div(UNIT, self.sqrt(b))
        bv = b.value()
        if bv == 1:
            return UNIT
        if bv == 0 and v is not None and v > 0:
            return ZERO
        return self.at("pow", self.rk(b), self.rk(x))

    def sqrt(self, x):
        v = x.value()
        if v is not None and v >= 0:
            from math import isqrt
            n, d = isqrt(v.numerator), isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return C(Fraction(n, d))
        if set(x.d) == {ONE}:
            return self.at("sqrt", self.rk(Rat({m: c / x.d[ONE] for m, c in x.n.items()})))
        return Rat(self.sqrt(Rat(x.n)).n, self.sqrt(Rat(x.d)).n) if len(x.d) == 1 and all(a.k[0] in ("size", "dim") for m in x.d for a, _ in m) else self.at("sqrt", self.rk(x))

    def abs(self, x):
        v = x.value()
        if v is not None:
            return C(abs(v))
        f, g = self.finger(x), self.finger(-x)
        for i, q in enumerate(self.rats):
            if not self.apart(f, self.fps[i]) and x.same(q) or not self.apart(g, self.fps[i]) and (-x).same(q):
                return self.at("abs", i)
        return self.at("abs", self.rk(x))

    def exp(self, x):
        """exp(-x) = 1/exp(x)"""
        f, g = self.finger(x), self.finger(-x)
        for i, q in enumerate(self.rats):
            if not self.apart(f, self.fps[i]) and x.same(q):
                return self.at("exp", i)
            if not self.apart(g, self.fps[i]) and (-x).same(q):
                return self.div(UNIT, self.at("exp", i))
        return self.at("exp", self.rk(x))

    def mono(self, p):
        return len(p) == 1

    def log(self, name, x):
        if x.value() == 1:
            return ZERO
        if len(x.n) == 1 and len(x.d) == 1:
            tot = ZERO
            for p, s in ((x.n, 1), (x.d, -1)):
                (m, c), = p.items()
                if c != 1:
                    tot = tot + Rat(pmul(patom(self.atom(name, self.rk(C(c)))), pconst(s)))
                for a, k in m:
                    inner = Rat(patom(a))
                    f = Fraction(k * s)
                    if a.k[0] == "sqrt":
                        inner, f = self.rats[a.k[1]], f / 2
                    tot = tot + (Rat(pmul(patom(self.atom(name, self.rk(inner))), pconst(f))) if inner.value() is None or True else ZERO)
            return tot
        return self.at(name, self.rk(x))

    def scalar(self, a):
        if a.k[0] == "sym":
            return a.k[2] in ("int", "float", "bool", "str") or a.k[1] == "#D"
        if a.k[0] in ("sqrt", "abs"):
            return self.scalar_rat(self.rats[a.k[1]])
        if a.k[0] == "pow":
            return self.scalar_rat(self.rats[a.k[1]]) and self.scalar_rat(self.rats[a.k[2]])
        return a.k[0] in _SCALAR

    def scalar_rat(self, r):
        return all(self.scalar(a) for a in r.atoms())

    def mean(self, x, shape):
        """sum of the elements over their number"""
        if x.value() is not None or self.scalar_rat(x):
            return x
        return self.linear("sum", x) / self.at("size", shape)

    def shp(self, t):
        """key of the shape of an array value"""
        o, a = t.op, t.args
        if loaded(t):
            return "img"
        if o in _ARITH or o == "neg" or o in ("lt", "eq"):
            ks = [k for k in (self.shp(x) for x in a) if k is not None]
            return ks[0] if ks else None
        if o == "const" or o == "sym" and a[1] != "array":
            return None
        if o == "call":
            if a[0] in _CAST or a[0] in _SIG or a[0] in _ELEM:
                x = a[1][0] if a[1] else dict(a[2]).get("input")
                k = self.shp(x) if x is not None else None
                if k is None and len(a[1]) > 1:
                    k = self.shp(a[1][1])
                return k
            if a[0] in _RED or a[0].endswith(".norm"):
                return None
            if a[0].endswith(".crop") and a[0].startswith("skimage.util") and len(a[1]) == 2:
                return ("crop", self.shp(a[1][0]), self.key(a[1][1]))
        if o == "store":
            return self.shp(a[0])
        if o == "alloc" and a[1] and a[1][0].op == "shape":
            return self.shp(a[1][0].args[0])
        if o == "getitem" and a[1].op == "tuple" and any(x.op == "slice" for x in a[1].args):
            w = self.cropidx(a[1])
            return ("crop", self.shp(a[0]), ("R", self.rk(w))) if w is not None else ("sl", self.shp(a[0]), self.key(a[1]))
        return ("of", t if self.raw else self.key(t))

    def linear(self, op, x):
        """a linear reduction of x"""
        if not all(self.scalar(a) for m in x.d for a, _ in m):
            return self.at(op, self.rk(x))
        tot = ZERO
        for m, c in x.n.items():
            s = tuple((a, k) for a, k in m if self.scalar(a))
            v = tuple((a, k) for a, k in m if not self.scalar(a))
            t = Rat({s: c})
            if v:
                t = t * self.at(op, self.rk(Rat({v: Fraction(1)})))
            tot = tot + t
        return tot / Rat(x.d)

    # ---------------------------------------------------------------- terms
    def rat(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._rat(t)
        return r

    def _rat(self, t):
        if t in self.leaf:
            return self.leaf[t]
        o, a = t.op, t.args
        if o == "const":
            v = cval(t)
            if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and abs(v) != float("inf"):
                return C(v)
            return self.at("c", repr(v))
        if o == "sym":
            return self.at("sym", a[0], a[1])
        if loaded(t):
            return self.at("img", loaded_src(t))
        if o in _ARITH:
            return self.arith(o, self.rat(a[0]), self.rat(a[1]))
        if o == "neg":
            return -self.rat(a[0])
        if o == "pos":
            return self.rat(a[0])
        if o == "floordiv":
            return self.floordiv(self.rat(a[0]), self.rat(a[1]))
        if o in ("call", "alloc"):
            return self.callf(t)
        if o == "view":
            x = self.rat(a[0])
            if x.value() is not None:
                return x
            if all(s[0] == i and not s[1] and not s[2] for i, s in enumerate(a[1])) and not a[2]:
                return x
            p = self.slices(t)
            if p is not None:
                return self.crop(x, p)
            return self.at("view", self.rk(x), self.key(a[1]), self.key(a[2]))
        if o == "getitem":
            if a[0].op == "call" and a[0].args[0] == "builtins.sorted":
                g = self.argext(a[0], a[1])
                if g is not None:
                    return g
            x = self.element(a[0], a[1])
            if x is not None:
                return x
            x = self.rat(a[0])
            if x.value() is not None and a[0].op in _ARITH | {"call"}:
                return x
            p = self.cropidx(a[1])
            if p is not None:
                return self.crop(x, p)
            return self.at("t", t) if self.raw else self.at("getitem", self.key(a[0]), self.key(a[1]))
        if o == "dim" and loaded(a[0]):
            return self.at("dim", a[1])
        if o == "attr" and a[1] == "size":
            return self.at("size", self.shp(a[0]))
        if o == "mcall" and a[1] in ("item", "astype", "copy", "squeeze"):
            return self.rat(a[0])
        return self.at("t", t) if self.raw else self.at(o, self.key(a))

    def element(self, t, ix):
        """element of a vector of known elements"""
        if not is_const(ix) or not isinstance(cval(ix), int):
            return None
        if t.op in ("listv", "tuple"):
            return self.rat(t.args[cval(ix)]) if -len(t.args) <= cval(ix) < len(t.args) else None
        if t.op == "call" and t.args[0] in _CAST and t.args[1]:
            return self.element(t.args[1][0], ix)
        if t.op in ("div", "mul"):
            x, y = self.element(t.args[0], ix), self.element(t.args[1], ix)
            if x is None and y is None:
                return None
            q = [v if v is not None else self.rat(z) if self.scalar_rat(self.rat(z)) else None for v, z in ((x, t.args[0]), (y, t.args[1]))]
            if None in q:
                return None
            return self.arith(t.op, *q)
        return None

    def cropidx(self, ix):
        """width p when the index is [p:-p, p:-p, ...]"""
        if ix.op != "tuple":
            return None
        w = None
        for s in ix.args:
            if not isinstance(s, T) or s.op != "slice":
                return None
            lo, hi = s.args[0], s.args[1]
            if is_const(lo, None) or is_const(hi, None) or len(s.args) > 2 and not is_const(s.args[2], None, 1):
                return None
            l, h = self.rat(lo), self.rat(hi)
            if not (l + h).n and (w is None or w.same(l)):
                w = l
            else:
                return None
        return w

    def slices(self, t):
        return None

    def crop(self, x, p):
        if x.value() is not None:
            return x
        if not p.n:
            return x
        return self.at("crop", self.rk(x), self.rk(p))

    def floordiv(self, x, y):
        v = y.value()
        if v and v.denominator == 1 and v > 0:
            try:
                p = x.poly()
            except Unknown:
                p = None
            if p is not None and all(c.denominator == 1 for c in p.values()):
                q, r = {}, {}
                for m, c in p.items():
                    d, rest = divmod(int(c), int(v))
                    if m == ONE or rest == 0:
                        if d:
                            q[m] = Fraction(d)
                    else:
                        r[m] = Fraction(int(c))
                if not r:
                    return Rat(q)
        return self.at("floordiv", self.rk(x), self.rk(y))

    def arith(self, o, x, y):
        if o == "add":
            return x + y
        if o == "sub":
            return x - y
        if o == "mul":
            return self.mul(x, y)
        if o == "div":
            return self.div(x, y)
        return self.power(x, y)

    def bind(self, name, pos, kws):
        names, dflt = _SIG[name]
        d = dict(zip(names, pos))
        d.update(dict(kws))
        out = []
        for n in names:
            if n in d:
                out.append((n, self.key(d[n])))
            elif n in dflt:
                v = dflt[n]
                out.append((n, self.key(mk("const", v))))
        return tuple(out)

    def callf(self, t):
        n, pos, kws = t.args[0], t.args[1], t.args[2]
        kw = dict(kws)
        if n in ("numpy.zeros", "numpy.zeros_like"):
            return ZERO
        if n in _CAST and pos:
            return self.rat(pos[0])
        if n in _UF and len(pos) == 2 and not kw:
            return self.arith(_UF[n], self.rat(pos[0]), self.rat(pos[1]))
        if n == "numpy.square" and len(pos) == 1 and not kw:
            return self.pw(self.rat(pos[0]), 2)
        if n == "numpy.negative" and len(pos) == 1:
            return -self.rat(pos[0])
        if n == "numpy.reciprocal" and len(pos) == 1:
            return self.div(UNIT, self.rat(pos[0]))
        if n in ("numpy.sqrt", "math.sqrt") and len(pos) == 1 and not kw:
            return self.sqrt(self.rat(pos[0]))
        if n in ("numpy.abs", "numpy.absolute", "builtins.abs", "numpy.fabs", "math.fabs") and len(pos) == 1 and not kw:
            return self.abs(self.rat(pos[0]))
        if n in ("numpy.log10", "math.log10", "numpy.log", "math.log") and len(pos) == 1 and not kw:
            return self.log(n.split(".")[1], self.rat(pos[0]))
        if n in ("numpy.exp", "math.exp") and len(pos) == 1 and not kw:
            x = self.rat(pos[0])
            return UNIT if x.value() == 0 else self.exp(x)
        if n == "builtins.int" and len(pos) == 1:
            x = self.rat(pos[0])
            v = x.value()
            return C(int(v)) if v is not None else self.at("int", self.rk(x))
        if n in _SIG:
            b = self.bind(n, pos, kws)
            d = dict(b)
            x = self.rat(pos[0] if pos else kw["input"])
            if x.value() is not None and (x.value() == 0 and d.get("cval") == ("R", self.rk(ZERO)) or d.get("mode") not in (("c", "'constant'"),) and n.endswith("_filter")
                                          and d.get("order", ("R", self.rk(ZERO))) == ("R", self.rk(ZERO))):
                return x
            return self.at("filter", n.split(".")[-1], self.rk(x), tuple(p for p in b if p[0] != "input"))
        if n in _RED and pos:
            rest = [(k, v) for k, v in kws if k not in ("dtype", "axis") and not (k == "keepdims" and is_const(v, False))]
            ax = pos[1] if len(pos) > 1 else kw.get("axis")
            if len(pos) <= 2 and not rest and (ax is None or is_const(ax, None)):
                x = self.rat(pos[0])
                op = _RED[n]
                if op == "mean":
                    return self.mean(x, self.shp(pos[0]))
                if op == "sum":
                    if pos[0].op in ("listv", "tuple"):
                        tot = ZERO
                        for q in pos[0].args:
                            tot = tot + self.rat(q)
                        return tot
                    if x.value() is not None or self.scalar_rat(x):
                        return self.mul(x, self.at("size", self.shp(pos[0])))
                    return self.linear("sum", x)
                if x.value() is not None or self.scalar_rat(x) and op in ("amax", "amin", "nanmean", "nanmax") and pos[0].op not in ("listv", "tuple"):
                    return x
                if op in ("amax", "amin") and pos[0].op in ("listv", "tuple"):
                    return self.at("max" if op == "amax" else "min", frozenset(self.key(q) for q in flatargs(pos[0])))
                return self.at(op, self.rk(x))
        if n == "numpy.linalg.norm" and len(pos) == 1 and not kw:
            x = self.rat(pos[0])
            return x if x.value() == 0 else self.sqrt(self.linear("sum", self.pw(x, 2)))
        if n in ("numpy.prod", "math.prod", "numpy.size", "numpy.product") and len(pos) == 1 and not kw:
            if n == "numpy.size":
                return self.at("size", self.shp(pos[0]))
            if pos[0].op == "shape":
                return self.at("size", self.shp(pos[0].args[0]))
        if n == "numpy.nan_to_num" and len(pos) == 1:
            x = self.rat(pos[0])
            if x.value() is not None:
                return x
            return self.at("nan_to_num", self.rk(x), tuple(sorted((k, self.key(v)) for k, v in kws if k != "copy")))
        if n in ("builtins.max", "numpy.maximum", "builtins.min", "numpy.minimum", "numpy.fmax"):
            op = "min" if n.endswith("min") or n.endswith("minimum") else "max"
            items = flatargs(pos[0]) if len(pos) == 1 else list(pos)
            if "key" in kw:
                return self.argset(op, items, kw["key"])
            if n.startswith("builtins") and not kw or len(pos) == 2 and not kw:
                ks = frozenset(self.key(q) for q in items)
                if len(ks) == 1:
                    return self.rat(items[0])
                return self.at(op, ks)
        if n.endswith(".crop") and n.startswith("skimage.util") and len(pos) == 2 and not kw:
            return self.crop(self.rat(pos[0]), self.rat(pos[1]))
        if n.startswith("skimage") and n.split(".")[-1] in _SK:
            d = dict(zip(_SK[n.split(".")[-1]], pos))
            d.update(kw)
            x, y = (d.get(k) for k in _SK[n.split(".")[-1]][:2])
            if x is not None and y is not None and (n.endswith("_error") or "data_range" in d):
                m = self.mean(self.pw(self.rat(x) - self.rat(y), 2), self.shp(x))
                return m if n.endswith("_error") else self.mul(C(10), self.log("log10", self.div(self.pw(self.rat(d["data_range"]), 2), m)))
        if self.raw:
            return self.at("t", t)
        return self.at("call", n, tuple(self.key(x) for x in pos), tuple(sorted((k, self.key(v)) for k, v in kws)))

    # ---------------------------------------------------------------- selection of the strongest gradient
    def argset(self, op, items, key):
        ks = frozenset(self.key(q) for q in items)
        if len(ks) == 1:
            return self.rat(items[0])
        return self.at("arg" + op, ks, self.fn(key))

    def argext(self, t, ix):
        n, pos, kws = t.args[0], t.args[1], dict(t.args[2])
        if "key" not in kws or len(pos) != 1 or not is_const(ix, 0, -1):
            return None
        rev = kws.get("reverse")
        if rev is not None and not is_const(rev, True, False):
            return None
        big = (rev is not None and cval(rev)) == (cval(ix) == 0)
        return self.argset("max" if big else "min", flatargs(pos[0]), kws["key"])

    def fn(self, f):
        """what a key function computes"""
        x = sym("#x", "array")
        try:
            st = self.st.fork() if self.st is not None else None
            ps = [p for p in call(self.e, f, [x], st=st) if p.kind == "ret"]
            vs = {self.key(p.val) for p in ps}
            if len(vs) == 1:
                return ("fn", vs.pop())
        except Exception:
            pass
        return ("fn", repr(f))

    # ---------------------------------------------------------------- keys of arbitrary values
    def key(self, x):
        if isinstance(x, T):
            k = self.kmemo.get(x)
            if k is None:
                k = self.kmemo[x] = self._key(x)
            return k
        if isinstance(x, (tuple, list)):
            return tuple(self.key(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(self.key(y) for y in x)
        return ("v", repr(x))

    def _key(self, t):
        o = t.op
        if o == "const":
            v = cval(t)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return ("R", self.rk(self.rat(t)))
            return ("c", repr(v))
        if o in ("closure", "func", "lambda"):
            return self.fn(t) if o != "func" else ("c", repr(t))
        if o in ("tuple", "slice", "listv", "ext", "class", "eq", "lt", "not", "and", "or", "shape", "dtype", "attr"):
            if o == "shape" and loaded(t.args[0]):
                return ("shape", "img")
            if o == "eq":
                return ("eq", frozenset(self.key(y) for y in t.args))
            return (o, self.key(t.args))
        if o == "call" and t.args[0] in ("numpy.array_equal", "numpy.array_equiv"):
            return ("array_equal", frozenset(self.key(y) for y in t.args[1]))
        r = self.rat(t)
        return ("R", self.rk(r))


def flatargs(t):
    if t.op in ("listv", "tuple"):
        return [x for x in t.args]
    if t.op == "call" and t.args[0] in ("builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray") and len(t.args[1]) == 1:
        return flatargs(t.args[1][0])
    return [t]


def describe(nf, r, depth=0):
    """readable form of a normal form"""
    def at(a):
        k = a.k
        if k[0] == "img":
            return k[1].args[0]
        if k[0] == "sym":
            return k[1]
        if depth > 3:
            return "…"
        if k[0] in ("sqrt", "abs", "mean", "nanmean", "amax", "amin", "nan_to_num", "log10", "norm", "crop", "exp", "log"):
            return f"{k[0]}({describe(nf, nf.rats[k[1]], depth + 1)})"
        if k[0] == "filter":
            return f"{k[1]}({describe(nf, nf.rats[k[2]], depth + 1)})"
        if k[0] == "pow":
            return f"({describe(nf, nf.rats[k[1]], depth + 1)})**({describe(nf, nf.rats[k[2]], depth + 1)})"
        return k[0]

    def po(p):
        if not p:
            return "0"
        out = []
        for m, c in sorted(p.items(), key=lambda x: repr(x[0]))[:6]:
            s = "*".join(at(a) + (f"^{k}" if k != 1 else "") for a, k in m)
            out.append((f"{c}*" if c != 1 and s else "" if s else str(c)) + s)
        return " + ".join(out) + (" + …" if len(p) > 6 else "")
    return po(r.n) if r.d == pconst(1) else f"({po(r.n)}) / ({po(r.d)})"
