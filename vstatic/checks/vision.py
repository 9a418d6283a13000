"""MAD's vision model: luminance, contrast sensitivity, masking and log-Gabor filters, compared pixel by pixel with the published model."""
from fractions import Fraction

from ..algebra import NF, C, UNIT, ZERO
from ..harness import *
from ..poly import Rat, Unknown
from ..registry import register
from ..terms import subterms
from .formula import loaded_terms, metric, scores
from .metrics import DR, VN, fi_loc, score_fi

HALF = C(Fraction(1, 2))
MAXLEAVES = 4096
CMP = {"lt", "gt", "le", "ge"}
NPCMP = {"less": "lt", "greater": "gt", "less_equal": "le", "greater_equal": "ge", "equal": "eq", "not_equal": "ne"}
AND, OR, NOT = {"logical_and", "bitwise_and"}, {"logical_or", "bitwise_or"}, {"logical_not", "invert", "bitwise_not"}
SAME = {"asarray", "array", "ascontiguousarray", "asfortranarray", "copy", "float64", "float32", "float", "astype", "asanyarray", "double", "squeeze"}
UF = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div", "power": "pow", "float_power": "pow"}


class Need(Exception):
    pass


class Und(Exception):
    """a construct whose value at one pixel is not modelled"""


class Cx:
    def __init__(self, re, im):
        self.re, self.im = re, im


def short_name(f):
    return f.split(".")[-1]


def npname(t):
    """last part of the name of a call of numpy/scipy/math/builtins, or None"""
    if t.op in ("call", "alloc") and isinstance(t.args[0], str) and t.args[0].split(".")[0] in ("numpy", "scipy", "math", "builtins", "operator", "cmath"):
        return short_name(t.args[0])
    return None


class Model:
    """shared tables: literals of decisions, arrays passed to whole-image operations"""

    def __init__(self, e):
        self.nf = NF(e, raw=True)
        self.nf.leaf[DR] = self.nf.at("sym", "#D", "int")
        self.lits, self.arrs, self.known = [], [], {}

    def literal(self, kind, r):
        """number and polarity of the decision 'r > 0' (or 'r == 0')"""
        k = min(r.n, key=lambda m: (len(m), [(a.n, x) for a, x in m]))
        r = self.nf.div(r, C(abs(r.n[k])))
        for i, (kd, q) in enumerate(self.lits):
            if kd == kind:
                if self.nf.same(q, r):
                    return i, True
                if self.nf.same(q, -r):
                    return i, kind == "zero"
        self.lits.append((kind, r))
        return len(self.lits) - 1, True

    def leaves(self, f, base=()):
        """[(decisions, value)] of f(Eval)"""
        out, todo = [], [dict(base)]
        while todo:
            env = todo.pop()
            try:
                out.append((env, f(Eval(self, env))))
            except Need as n:
                i = n.args[0]
                todo += [{**env, i: True}, {**env, i: False}]
            if len(out) + len(todo) > MAXLEAVES:
                raise Und("too many cases")
        return out

    def equal(self, x, y):
        if isinstance(x, Cx) or isinstance(y, Cx):
            x, y = [v if isinstance(v, Cx) else Cx(v, ZERO) for v in (x, y)]
            return self.nf.same(x.re, y.re) and self.nf.same(x.im, y.im)
        return self.nf.same(x, y)

    def values(self, f):
        """leaves of f with fingerprints"""
        return [(env, v, None if isinstance(v, (Cx, bool)) else self.nf.finger(v)) for env, v in self.leaves(f)]

    def differ(self, f, g):
        """(decisions, f's value, g's value) of a case in which the two arrays differ, or None"""
        return self.apart(self.values(f), self.values(g))

    def apart(self, fs, gs):
        for env, x, p in fs:
            for e2, y, q in gs:
                if any(e2.get(k, v) != v for k, v in env.items()):
                    continue
                if isinstance(x, bool) or isinstance(y, bool) or p is not None and q is not None and self.nf.apart(p, q) or not self.equal(x, y):
                    return {**env, **e2}, x, y
        return None

    def array(self, f, key=None):
        """number of an array given by its value at every pixel (equal arrays, equal numbers)"""
        if key is None:
            return self._array(f)
        if key not in self.known:
            self.known[key] = self._array(f)
        return self.known[key]

    def _array(self, f):
        lv = self.values(f)
        for i, g in enumerate(self.arrs):
            if self.apart(lv, g) is None:
                return i
        self.arrs.append(lv)
        return len(self.arrs) - 1


class Eval:
    """values at one generic pixel (row, column) under the decisions env"""

    def __init__(self, model, env, sub=None):
        self.m, self.nf, self.env, self.memo = model, model.nf, env, {}
        self.sub = sub or {}

    # ------------------------------------------------------------ decisions
    def pos(self, r):
        v = r.value()
        if v is not None:
            return v > 0
        return self.decide("pos", r)

    def zero(self, r):
        v = r.value()
        if v is not None:
            return v == 0
        return self.decide("zero", r)

    def decide(self, kind, r):
        i, pol = self.m.literal(kind, r)
        if i not in self.env:
            raise Need(i)
        return self.env[i] == pol

    # ------------------------------------------------------------ arithmetic
    def cx(self, v):
        return v if isinstance(v, Cx) else Cx(v, ZERO)

    def arith(self, o, x, y):
        nf = self.nf
        if isinstance(x, bool) or isinstance(y, bool):
            x, y = [C(int(v)) if isinstance(v, bool) else v for v in (x, y)]
        if isinstance(x, Cx) or isinstance(y, Cx):
            if o == "pow":
                raise Und("power of a complex number")
            if o in ("mul", "div") and not isinstance(y, Cx):
                return Cx(nf.mul(x.re, y), nf.mul(x.im, y)) if o == "mul" else Cx(nf.div(x.re, y), nf.div(x.im, y))
            x, y = self.cx(x), self.cx(y)
            if o == "div":
                raise Und("division by a complex number")
            if o == "mul":
                return Cx(nf.mul(x.re, y.re) - nf.mul(x.im, y.im), nf.mul(x.re, y.im) + nf.mul(x.im, y.re))
            return Cx(x.re + y.re, x.im + y.im) if o == "add" else Cx(x.re - y.re, x.im - y.im)
        if o == "add":
            return x + y
        if o == "sub":
            return x - y
        if o == "mul":
            return nf.mul(x, y)
        if o == "div":
            return nf.div(x, y)
        return self.power(x, y)

    def power(self, x, y):
        return self.nf.power(x, y)

    def ratio(self, n, d):
        """the constant n/d, or None"""
        if len(n.d) != 1 or len(d.d) != 1 or not n.n or not d.n:
            return None
        k = next(iter(d.n))
        if k not in n.n or list(n.d) != list(d.d):
            return None
        c = C(n.n[k] / d.n[k] * next(iter(d.d.values())) / next(iter(n.d.values())))
        return c if self.nf.same(n, self.nf.mul(c, d)) else None

    def real(self, v):
        if isinstance(v, (Cx, bool)):
            raise Und("a complex number or truth value in place of a real number")
        return v

    def absolute(self, v):
        if not isinstance(v, Cx):
            return self.nf.abs(v)
        # |c * z| = c |z|: the common factors of both parts that cannot be negative leave the root
        return self.hypot(v.re, v.im)

    def hypot(self, x, y):
        nf = self.nf
        return nf.sqrt(nf.pw(x, 2) + nf.pw(y, 2))

    def angle(self, im, re):
        if not re.n:
            raise Und("angle")
        q = self.nf.div(im, re)
        return self.fun("angle", q)

    def fun(self, name, x):
        nf = self.nf
        if name in ("log", "log10", "log2"):
            if x.value() == 1:
                return ZERO
            return nf.at(name, nf.rk(x))
        if not x.n and name in ("exp", "cos", "sin", "tan"):
            return UNIT if name in ("exp", "cos") else ZERO
        if name == "exp":
            return nf.exp(x)
        if name in ("cos", "sin") and len(x.d) == 1 and len(x.n) > 1:       # addition theorems
            k = min(x.n, key=lambda m: (len(m), [(a.n, p) for a, p in m]))
            u = Rat({k: x.n[k]}, x.d)
            v = Rat({m: c for m, c in x.n.items() if m != k}, x.d)
            su, cu, sv, cv = self.fun("sin", u), self.fun("cos", u), self.fun("sin", v), self.fun("cos", v)
            return nf.mul(su, cv) + nf.mul(cu, sv) if name == "sin" else nf.mul(cu, cv) - nf.mul(su, sv)
        if name in ("cos", "angle", "sin"):     # even or odd functions: sign leaves the argument
            f = nf.finger(x)
            g = [None if v is None else -v for v in f]
            for i, q in enumerate(nf.rats):
                if not nf.apart(f, nf.fps[i]) and nf.same(q, x):
                    return nf.at(name, i)
                if not nf.apart(g, nf.fps[i]) and nf.same(q, -x):
                    return nf.at(name, i) if name == "cos" else -nf.at(name, i)
        return nf.at(name, nf.rk(x))

    def whole(self, t):
        """number of the array t, for operations on whole arrays"""
        sub = self.sub
        key = t, frozenset((k, self.nf.rk(v)) for k, v in sub.items())
        return self.m.array(lambda ev: Eval(ev.m, ev.env, sub).px(t), key)

    # ------------------------------------------------------------ index
    def ix(self, axis, perm):
        return self.nf.at("ix", axis, perm)

    # ------------------------------------------------------------ arrays
    def px(self, t, perm=""):
        key = (t, perm)
        if key not in self.memo:
            self.memo[key] = self._px(t, perm)
        return self.memo[key]

    def _px(self, t, perm):
        if t in self.sub:
            return self.sub[t]
        o, a = t.op, t.args
        nf = self.nf
        if o == "const":
            v = cval(t)
            if isinstance(v, bool):
                return v
            if isinstance(v, complex):
                return Cx(num(v.real), num(v.imag))
            if isinstance(v, (int, float)) and v == v and abs(v) != float("inf"):
                return num(v)
            raise Und(f"constant {v!r}")
        if t in nf.leaf:
            return nf.leaf[t]
        if o == "sym":
            return nf.at("sym", a[0], a[1])
        if o == "ext" and a[0] in ("numpy.pi", "math.pi"):
            return nf.at("pi")
        if loaded(t):
            return nf.at("img", loaded_src(t), perm)
        if o in ("add", "sub", "mul", "div", "pow"):
            return self.arith(o, self.px(a[0], perm), self.px(a[1], perm))
        if o == "neg":
            return self.arith("sub", ZERO, self.px(a[0], perm))
        if o == "pos":
            return self.px(a[0], perm)
        if o in CMP or o in ("eq", "ne"):
            return self.compare(o, self.px(a[0], perm), self.px(a[1], perm))
        if o in ("bitand", "and"):
            return self.truth(a[0], perm) and self.truth(a[1], perm)
        if o in ("bitor", "or"):
            return self.truth(a[0], perm) or self.truth(a[1], perm)
        if o in ("not", "invert"):
            return not self.truth(a[0], perm)
        if o == "dim":
            return self.extent(t)
        if o == "attr" and a[1] in ("real",):
            return self.realpart(self.px(a[0], perm))
        if o == "mcall" and a[1] in ("copy", "astype"):
            return self.px(a[0], perm)
        if o == "store":
            return self.store(t, perm)
        if o == "view":
            x = self.stored(t)
            if x is not None:
                return x.px_at(perm)
            raise Und("array section")
        if o == "getitem":
            return self.item(t, perm)
        if o in ("call", "alloc"):
            return self.callv(t, perm)
        raise Und(f"{o}")

    def extent(self, t):
        return self.nf.at("dim", t.args[1])       # all arrays of the model have the extents of the images

    def truth(self, t, perm):
        v = self.px(t, perm)
        if not isinstance(v, bool):
            raise Und("truth value of a number")
        return v

    def compare(self, o, x, y):
        x, y = self.real(x), self.real(y)
        if o in ("eq", "ne"):
            return self.zero(x - y) == (o == "eq")
        d = (y - x) if o in ("lt", "le") else (x - y)
        if o in ("le", "ge"):       # x <= y is not y < x
            return not self.pos(-d)
        return self.pos(d)

    def realpart(self, v):
        return v.re if isinstance(v, Cx) else self.nf.at("real", self.nf.rk(v))

    def store(self, t, perm):
        base, ix, val = t.args[:3]
        if is_const(ix) and cval(ix) is Ellipsis:
            if val.op == "call":
                kw = dict(val.args[2])
                if "where" in kw:
                    return self.px(val, perm) if self.truth(kw["where"], perm) else self.px(base, perm)
            return self.px(val, perm)
        b = self.block(t)
        if b is not None:
            return b
        if ix.op == "tuple" and len(ix.args) == 2 and not any(x.op in ("slice", "idx", "elem") for x in ix.args):
            at = [self.real(self.px(x)) for x in ix.args]
            here = all([self.zero(self.ix(k, perm) - r) for k, r in enumerate(at)])
            return self.px(val, perm) if here else self.px(base, perm)
        if ix.op in CMP or ix.op in ("eq", "ne", "bitand", "bitor", "not", "invert") or npname(ix) in AND | OR | NOT | set(NPCMP):
            return self.px(val, perm) if self.truth(ix, perm) else self.px(base, perm)
        raise Und("assignment to a part of an array")

    def block(self, t):
        """a map of block statistics: the statistic, the array and the block size"""
        val = t.args[2]
        found = None
        for c in subterms(val):
            n = npname(c)
            if n in ("mean", "std", "var", "nanmean", "average") and c.args[1]:
                x = c.args[1][0]
                ws = {w for w in subterms(x) if w.op == "getitem" and w.args[1].op == "tuple" and len(w.args[1].args) == 2 and all(
                    s.op == "slice" and any(q.op in ("elem", "idx") for q in subterms(s.args[0])) for s in w.args[1].args if isinstance(s, T))}
                outer = [w for w in ws if not any(w is not v and w in set(subterms(v)) for v in ws)]
                if len(outer) != 1:
                    return None
                if found is not None:
                    return None
                kw = dict(c.args[2])
                size = [self.nf.rat(s.args[1]) - self.nf.rat(s.args[0]) for s in outer[0].args[1].args]
                if not self.nf.same(*size):
                    raise Und("blocks that are not square")
                dd = kw.get("ddof", const(0))
                found = c, self.nf.at("blk", n, self.nf.rk(self.px(dd)), self.whole(outer[0].args[0]), self.nf.rk(size[0]))
        if found is None:
            return None
        v = val
        while v.op == "getitem":
            v = v.args[0]
        if v is not found[0]:
            if npname(v) is None and v.op not in ("add", "sub", "mul", "div", "pow"):
                return None
            return Eval(self.m, self.env, {found[0]: found[1]}).px(strip_items(val, found[0]))
        return found[1]

    def stored(self, t):
        """element [s, o] of an array of arrays"""
        base, spec, sel = t.args[0], t.args[1], t.args[2]
        if spec or base.op != "store" or base.args[1].op != "tuple" or any(not (isinstance(x, tuple) and len(x) == 2) for x in sel):
            return None
        want = dict(sel)
        ix = base.args[1].args
        if set(want) != set(range(len(ix))):
            return None
        mp = {}
        for k, i in enumerate(ix):
            if i.op in ("idx", "elem"):
                if mp.setdefault(i, want[k]) is not want[k]:
                    return None
            elif i.op == "sub" and is_const(i.args[0]) and i.args[1].op in ("idx", "elem"):
                mp[i.args[1]] = mk("sub", i.args[0], want[k])
            elif i is not want[k]:
                return None
        return Part(self, base.args[2], mp)

    def item(self, t, perm):
        base, ix = t.args[:2]
        if base.op == "call" and npname(base) == "meshgrid" and is_const(ix, 0, 1) and len(base.args[1]) == 2:
            kw = dict(base.args[2])
            if not set(kw) <= {"indexing", "copy"}:
                raise Und("meshgrid")
            ij = "indexing" in kw and is_const(kw["indexing"], "ij")
            if "indexing" in kw and not ij and not is_const(kw["indexing"], "xy"):
                raise Und("meshgrid")
            k = cval(ix)
            return self.vec(base.args[1][k], self.ix(k if ij else 1 - k, perm))
        if base.op == "call" and base.args[0].endswith(".minstd"):
            raise Und("part of minstd")
        if ix.op == "tuple" and len(ix.args) == 2:
            new = [is_const(x, None) for x in ix.args]
            if new[0] != new[1]:
                other = ix.args[new.index(False)]
                if is_const(other) and cval(other) is Ellipsis or other.op == "slice" and all(is_const(x, None) for x in other.args):
                    return self.vec(base, self.ix(new.index(False), perm))
        if self.one(base):
            return self.vec(base, self.real(self.px(ix, perm)), perm)
        raise Und("indexing")

    def one(self, t):
        """a vector"""
        o = t.op
        if o in ("listv",):
            return True
        n = npname(t)
        if n in ("arange", "linspace"):
            return True
        if o == "getitem" and t.args[1].op == "slice" or o == "view" and len(t.args[1]) == 1 and not t.args[2]:
            return self.one(t.args[0])
        if o in ("add", "sub", "mul", "div", "pow", "neg") or n in SAME or n in UF:
            xs = t.args if o != "call" else t.args[1]
            return any(self.one(x) for x in xs if isinstance(x, T))
        return False

    def vec(self, t, k, perm=""):
        """element k of a vector or list of arrays"""
        o, a = t.op, t.args
        nf = self.nf
        n = npname(t)
        if o == "listv" and len(a) == 1 and a[0].op == "each":
            src, body = a[0].args[:2]
            return Eval(self.m, self.env, {**self.sub, **loopmap(src, k, self)}).px(body, perm)
        if o == "listv":
            v = k.value()
            if v is not None and v.denominator == 1 and 0 <= v < len(a):
                return self.px(a[int(v)], perm)
            raise Und("element of a list")
        if o == "getitem":
            lo, _, step = a[1].args
            if not is_const(step, None, 1):
                raise Und("section of a vector")
            return self.vec(a[0], k if is_const(lo, None) else k + self.real(self.px(lo)), perm)
        if n == "arange":
            kw = dict(a[2])
            pos = list(a[1])
            lo, step = ZERO, UNIT
            if len(pos) > 1:
                lo = self.real(self.px(pos[0]))
            if len(pos) > 2:
                step = self.real(self.px(pos[2]))
            if set(kw) - {"dtype"} or not pos:
                raise Und("arange")
            return lo + nf.mul(step, k)
        if n == "linspace" and len(a[1]) == 3 and not set(dict(a[2])) - {"dtype", "endpoint"}:
            lo, hi, cnt = [self.real(self.px(x)) for x in a[1]]
            end = dict(a[2]).get("endpoint", const(True))
            if not is_const(end, True, False):
                raise Und("linspace")
            n, d = hi - lo, cnt - UNIT if cval(end) else cnt
            c = self.ratio(n, d)
            return lo + nf.mul(nf.div(n, d) if c is None else c, k)
        if o in ("add", "sub", "mul", "div", "pow"):
            return self.arith(o, *[self.vec(x, k) if self.one(x) else self.px(x) for x in a])
        if o == "neg":
            return -self.vec(a[0], k)
        if n in SAME and a[1]:
            return self.vec(a[1][0], k)
        if n in UF and len(a[1]) == 2 and not a[2]:
            return self.arith(UF[n], *[self.vec(x, k) if self.one(x) else self.px(x) for x in a[1]])
        raise Und("vector")

    def callv(self, t, perm):
        f, pos, kws = t.args[:3]
        kw = dict(kws)
        nf = self.nf
        if f.endswith(".minstd") and len(pos) == 3 and not kw:
            return nf.at("minstd", self.whole(pos[0]), nf.rk(self.real(self.px(pos[1]))), nf.rk(self.real(self.px(pos[2]))))
        n = npname(t)
        if n is None:
            raise Und(f)
        kw = {k: v for k, v in kw.items() if not (k == "out" or k == "where" or k == "dtype")}
        if n in UF and len(pos) == 2 and not kw:
            return self.arith(UF[n], self.px(pos[0], perm), self.px(pos[1], perm))
        if f.startswith(("numpy.fft.", "scipy.fft.", "scipy.fftpack.")) and len(pos) == 1 and not kw:
            if n in ("fftn", "fft2"):
                return nf.at("fft", self.whole(pos[0]), perm)
            if n in ("ifftn", "ifft2"):
                return nf.at("ifft", self.whole(pos[0]), perm)
            if n in ("fftshift", "ifftshift"):
                inv = {"shift": "ishift", "ishift": "shift"}
                s = {"fftshift": "shift", "ifftshift": "ishift"}[n]
                parts = [x for x in perm.split(",") if x]
                # value of shift(x) at a permuted pixel: undo the shift
                parts = parts[:-1] if parts and parts[-1] == inv[s] else parts + [s]
                return self.px(pos[0], ",".join(parts))
            raise Und(f)
        if kw and n not in ("full", "zeros", "ones", "convolve", "correlate", "nan_to_num", "clip"):
            raise Und(f)
        if n in SAME and pos:
            return self.px(pos[0], perm)
        if n in ("abs", "absolute", "fabs"):
            return self.absolute(self.px(pos[0], perm))
        if n == "hypot" and len(pos) == 2:
            return self.hypot(*[self.real(self.px(x, perm)) for x in pos])
        if n == "angle" and len(pos) == 1:
            v = self.px(pos[0], perm)
            if isinstance(v, Cx):
                return self.angle(v.im, v.re)
            raise Und("angle of a real number")
        if n in ("arctan2", "atan2") and len(pos) == 2:
            return self.angle(*[self.real(self.px(x, perm)) for x in pos])
        if n in ("real",):
            return self.realpart(self.px(pos[0], perm))
        if n == "sqrt":
            return nf.sqrt(self.real(self.px(pos[0], perm)))
        if n == "square":
            return self.arith("mul", self.px(pos[0], perm), self.px(pos[0], perm))
        if n in ("negative",):
            return self.arith("sub", ZERO, self.px(pos[0], perm))
        if n in ("floor", "ceil", "int") and len(pos) == 1:
            return self.fun(n if n != "int" else "floor", self.real(self.px(pos[0], perm)))
        if n in ("tan",):
            return self.fun(n, self.real(self.px(pos[0], perm)))
        if n in ("radians", "deg2rad"):
            return nf.mul(self.real(self.px(pos[0], perm)), nf.div(nf.at("pi"), C(180)))
        if n in ("cos", "sin", "exp", "log", "log10", "log2"):
            return self.fun(n, self.real(self.px(pos[0], perm)))
        if n in ("zeros", "zeros_like"):
            return ZERO
        if n in ("ones", "ones_like"):
            return UNIT
        if n in ("full", "full_like"):
            return self.px(pos[1] if len(pos) > 1 else kw["fill_value"], perm)
        if n in ("maximum", "minimum") and len(pos) == 2:
            x, y = [self.real(self.px(p, perm)) for p in pos]
            return x if self.pos(x - y) == (n == "maximum") else y
        if n == "where" and len(pos) == 3:
            return self.px(pos[1] if self.truth(pos[0], perm) else pos[2], perm)
        if n in AND and len(pos) == 2:
            return self.truth(pos[0], perm) and self.truth(pos[1], perm)
        if n in OR and len(pos) == 2:
            return self.truth(pos[0], perm) or self.truth(pos[1], perm)
        if n in NOT:
            return not self.truth(pos[0], perm)
        if n in NPCMP and len(pos) == 2:
            return self.compare(NPCMP[n], *[self.px(x, perm) for x in pos])
        if n in ("convolve", "correlate") and f.startswith("scipy.ndimage") and len(pos) >= 2:
            w = self.weights(pos[1])
            mode = kw.get("mode", pos[3] if len(pos) > 3 else const("reflect"))
            if set(kw) - {"mode"} or len(pos) > 2 and not is_const(pos[2], None) or len(pos) > 4:
                raise Und(f)
            return nf.at("conv", n, self.whole(pos[0]), w, mode)
        raise Und(f)

    def weights(self, t):
        """(extents, value) of a window of equal weights"""
        size = None
        for x in subterms(t):
            if npname(x) in ("ones", "full") and x.args[1]:
                s = x.args[1][0]
                if size is not None and size != s:
                    raise Und("window")
                size = s
        if size is None:
            raise Und("window")
        ext = size.args if size.op == "tuple" else None
        if ext is None:
            raise Und("window")
        return tuple(self.nf.rk(self.real(self.px(x))) for x in ext), self.nf.rk(self.real(self.px(t)))


class Part:
    """the body of a store with its loop indices chosen"""

    def __init__(self, ev, body, mp):
        self.ev, self.body, self.mp = ev, body, mp

    def px_at(self, perm):
        ev = self.ev
        sub = dict(ev.sub)
        for i, v in self.mp.items():
            sub[i] = ev.real(ev.px(v))
        return Eval(ev.m, ev.env, sub).px(self.body, perm)


def strip_items(t, c):
    """getitem(c, anything) -> c"""
    from ..terms import rewrite
    return rewrite(t, lambda x: c if x.op == "getitem" and x.args[0] is c else x)


def loopmap(src, k, ev):
    """values of the loop variable of a loop over src in its k-th pass"""
    out = {}
    inner = src
    if src.op == "enumv":
        inner = src.args[0]
        out[mk("idx", src)] = k
    out[mk("idx", inner)] = k
    try:
        out[mk("elem", inner)] = ev.vec(inner, k)
    except Und:
        pass
    return out


def num(v):
    """the simplest fraction close to the number (constants are folded in binary arithmetic)"""
    if isinstance(v, float):
        q = Fraction(v).limit_denominator(1 << 20)
        if abs(float(q) - v) <= 1e-14 * abs(v):
            return C(q)
    return C(v)


# ---------------------------------------------------------------- the published model
class Ref:
    """values of the published model at one pixel"""

    def __init__(self, opts):
        self.o = opts

    def lum(self, src):
        o = self.o

        def f(ev, perm=""):
            return o["b"] + ev.nf.mul(o["k"], ev.power(ev.nf.at("img", src, perm), ev.nf.div(o["gamma"], C(3))))
        return f

    def csf(self, ev, perm):
        nf, o = ev.nf, self.o
        m, n = nf.at("dim", 0), nf.at("dim", 1)
        c = nf.div(nf.mul(C(2), o["cpd"](ev)), n)
        x = nf.mul(ev.ix(1, perm) - nf.div(n, C(2)) + HALF, c)
        y = nf.mul(ev.ix(0, perm) - nf.div(m, C(2)) + HALF, c)
        s = nf.mul(C(Fraction(3, 20)), ev.fun("cos", nf.mul(C(4), ev.angle(y, x)))) + C(Fraction(17, 20))
        rf = nf.div(ev.hypot(x, y), s)
        if ev.pos(o["f_peak"] - rf):
            return C(Fraction(9809, 10000))
        lr = nf.mul(o["lambda_csf"], rf)
        return nf.mul(nf.mul(C(Fraction(13, 5)), C(Fraction(12, 625)) + lr), ev.fun("exp", -ev.power(lr, C(Fraction(11, 10)))))

    def seen(self, src):
        """the image as filtered by the contrast sensitivity function"""
        def filtered(ev):
            return ev.nf.mul(self.csf(ev, "ishift"), ev.nf.at("fft", ev.m.array(self.lum(src), ("lum", src)), ""))

        def f(ev):
            return ev.nf.at("real", ev.nf.rk(ev.nf.at("ifft", ev.m.array(filtered, ("seen", src)), "")))
        return f

    def visible(self, ev):
        nf, o = ev.nf, self.o
        org, dst = self.seen(R), self.seen(M)
        B, S = nf.rk(o["B"]), nf.rk(o["S"])
        mu = nf.at("blk", "mean", nf.rk(ZERO), ev.m.array(org, "org"), B)
        sd = nf.at("blk", "std", nf.rk(UNIT), ev.m.array(lambda e2: dst(e2) - org(e2), "err"), B)
        low = nf.at("minstd", ev.m.array(org, "org"), B, S)
        le = ev.fun("log", nf.div(sd, mu) if ev.pos(mu - HALF) else ZERO)
        lo = ev.fun("log", nf.div(low, mu))
        five = C(5)
        if ev.pos(lo + five):
            v = le - lo if ev.pos(le - lo) else ZERO
        else:
            v = le + five if ev.pos(le + five) else ZERO
        return nf.div(v, o["ms"])

    def error(self, ev):
        nf, o = ev.nf, self.o
        d = nf.at("img", R, "") - nf.at("img", M, "")
        b = nf.rk(o["B"])
        w = (b, b), nf.rk(nf.div(UNIT, nf.pw(o["B"], 2)))
        return nf.at("conv", "convolve", ev.m.array(lambda e2: nf.pw(d, 2), "mse"), w, const("reflect"))

    def detection(self, ev):
        return ev.nf.mul(self.visible(ev), self.error(ev))


def cases(tier):
    """(label, options of score, settings of the model)"""
    base = {"b": ZERO, "k": num(0.02874), "gamma": num(2.2), "lambda_csf": num(0.114), "f_peak": num(7.8909), "cpd": lambda ev: C(32), "ms": UNIT, "B": C(16), "S": C(4)}
    yield "default options", {}, base
    fs = {k: sym(k, "float") for k in ("lambda_csf", "f_peak", "b", "k", "gamma", "ms_scale", "disp_res", "view_dis")}
    yield "csf_function given", {"csf_function": {"lambda_csf": fs["lambda_csf"], "f_peak": fs["f_peak"]}}, {**base, "lambda_csf": fs["lambda_csf"], "f_peak": fs["f_peak"]}
    yield "luminance_function given", {"luminance_function": {"b": fs["b"], "k": fs["k"], "gamma": fs["gamma"]}}, {**base, "b": fs["b"], "k": fs["k"], "gamma": fs["gamma"]}
    yield "ms_scale given", {"ms_scale": fs["ms_scale"]}, {**base, "ms": fs["ms_scale"]}

    def cpd(ev):
        nf = ev.nf
        t = ev.fun("tan", nf.div(nf.at("pi"), C(180)))
        return nf.div(nf.mul(nf.mul(ev.px(fs["disp_res"]), ev.px(fs["view_dis"])), t), C(2))
    yield "display_function given", {"account_monitor": TRUE, "display_function": {"disp_res": fs["disp_res"], "view_dis": fs["view_dis"]}}, {**base, "cpd": cpd}
    for b, ov in ((12, 0.5), (10, 0.75), (8, 0)) if tier == "quick" else ((12, 0.5), (10, 0.75), (8, 0), (16, 0.3), (7, 0.9), (32, 0.75), (20, 0.25)):
        yield f"blocks of {b} with overlap {ov}", {"block_size": const(b), "block_overlap": const(ov)}, {**base, "B": C(b), "S": C(b - int(ov * b))}


def crops(val, mark):
    """[(array, crop widths)] of the sections of maps computed with the native function `mark`"""
    out = []
    for t in subterms(val):
        if t.op == "getitem" and t.args[1].op == "tuple" and len(t.args[1].args) == 2 and all(isinstance(s, T) and s.op == "slice" for s in t.args[1].args):
            if any(x.op in ("elem", "idx") for s in t.args[1].args for x in subterms(s)):
                continue
            if any(x.op == "call" and x.args[0].endswith(mark) for x in subterms(t.args[0])):
                out.append(t)
    return [t for t in out if not any(t is not u and t in set(subterms(u)) for u in out)]


def parities(p):
    """{(image, axis): even?} as far as the path has asked"""
    out = {}
    for k, v in p.st.conds.items():
        while k.op == "not":
            k, v = k.args[0], not v
        if k.op in ("eq", "ne"):
            x, y = k.args if is_const(k.args[1], 0, 1) else k.args[::-1]
            if not is_const(y, 0, 1):
                continue
            v = v == (k.op == "eq")             # x == y
            v = v == (cval(y) == 0)             # x == 0
            k = x
        else:
            v = not v
        if k.op == "mod" and k.args[0].op == "dim" and is_const(k.args[1], 2):
            srcs = loaded_terms(k.args[0]) or [k.args[0].args[0]]
            if len(srcs) == 1:
                out[next(iter(srcs)), k.args[0].args[1]] = v
    return out


GABOR = {"min_wavelength": C(3), "wavelength_scaling": C(3), "bandwidth_param": C(Fraction(11, 20)), "d_theta_on_sigma": C(Fraction(3, 2))}


def gabor(src, s, o, n_or, even, par=None, pixel=None, absolute=True):
    """response of the log-Gabor filter of scale s and orientation o"""
    g = par or GABOR
    pixel = pixel or (lambda e2: e2.nf.at("img", src, ""))

    def freq(ev, axis, perm):
        nf = ev.nf
        n, k = nf.at("dim", axis), ev.ix(axis, perm)
        step = UNIT if even[axis] else nf.div(n, n - UNIT)
        return nf.div(nf.mul(k, step) - nf.div(n, C(2)), nf.div(n, C(2)))

    def filt(ev, perm):
        nf = ev.nf
        here = all([ev.zero(ev.ix(a, perm) - ev.fun("floor", nf.div(nf.at("dim", a), C(2)))) for a in (0, 1)])
        x, y = freq(ev, 1, perm), freq(ev, 0, perm)
        r = ev.hypot(x, y)
        if ev.zero(r):
            r = UNIT
        f0 = nf.div(C(2), nf.mul(g["min_wavelength"], nf.pw(g["wavelength_scaling"], s)))
        radial = ZERO if here else ev.fun("exp", nf.div(nf.pw(ev.fun("log", r) - ev.fun("log", f0), 2), -nf.mul(C(2), nf.pw(ev.fun("log", g["bandwidth_param"]), 2))))
        th = ev.angle(-y, x)
        al = nf.mul(nf.at("pi"), C(Fraction(o, n_or)))
        d = nf.abs(ev.angle(ev.fun("sin", th - al), ev.fun("cos", th - al)))
        sg = nf.div(nf.mul(nf.at("pi"), C(Fraction(1, n_or))), g["d_theta_on_sigma"])
        return nf.mul(radial, ev.fun("exp", nf.div(-nf.pw(d, 2), nf.mul(C(2), nf.pw(sg, 2)))))

    def spectrum(ev):
        nf = ev.nf
        if all([ev.zero(ev.ix(a, "")) for a in (0, 1)]):
            return ZERO
        return nf.mul(nf.at("fft", ev.m.array(pixel, ("img", src)), ""), filt(ev, "shift"))

    def f(ev):
        return (ev.nf.abs if absolute else (lambda x: x))(ev.nf.at("ifft", ev.m.array(spectrum, ("gabor", src, s, o, n_or, tuple(even))), ""))
    return f


def number(m, t):
    return Eval(m, {}).px(t)


def frame(m, t, width):
    """is the section [w:-w, w:-w]?"""
    for s in t.args[1].args:
        lo, hi = s.args[0], s.args[1]
        if is_const(lo, None) or is_const(hi, None) or len(s.args) > 2 and not is_const(s.args[2], None, 1):
            return False
        l, h = number(m, lo), number(m, hi)
        if not (m.nf.same(l, width) and (m.nf.same(h, -width) or any(m.nf.same(h, m.nf.at("dim", a) - width) for a in (0, 1)))):
            return False
    return True


@register("C28", "MAD's vision model is the published one", VN + "; values at a generic pixel in rational normal form")
def c28(rep, tier):
    e = engine()
    rep.rule("detection", "the map whose norm is the detection part is, at every pixel, visibility (luminance, contrast sensitivity, masking) times the local mean squared error")
    rep.rule("appearance", "every block statistic of the appearance part is taken from the absolute response of the log-Gabor filter of its scale and orientation")
    rep.rule("filters", "gabor_convolve puts the response of the log-Gabor filter of scale s and orientation o with the given parameters at [s, o]")
    rep.rule("frame", "both maps are cropped by the block size on each side")
    rep.rule("blocks", "block size and stride = block size - int(overlap * block size) reach every block operation")
    cls = metric(e, "MAD")
    fi = score_fi(e, cls)
    loc = fi_loc(e, fi)
    rep.functions.add(fi.label)
    for dtype in ("float64", "uint8") if tier == "quick" else ("float32", "float64", "uint8", "uint16", "int16"):
        for label, opts, o in cases(tier):
            if dtype != "float64" and tier == "quick" and not label.startswith(("default", "lumin")):
                continue
            rep.ob("cases", what=f"MAD {dtype} {label}")
            one_case(rep, e, cls, loc, tier, f"{dtype}, {label}", dtype, opts, {**o, "default": label.startswith("default") and (dtype == "float64" or tier != "quick")})
    filters(rep, e, tier)


def filters(rep, e, tier):
    """gabor_convolve with every parameter free"""
    fi = e.p.func("viqa.utils.misc", "gabor_convolve")
    rep.functions.add(fi.label)
    names = list(GABOR)
    for ns, no, free in ((2, 3, names), (3, 2, [])) if tier == "quick" else ((2, 3, names), (3, 2, []), (5, 4, names), (1, 6, names), (4, 1, names)):
        e.cfg = scenario("2d", "float64")
        kws = [("scales_num", const(ns)), ("orientations_num", const(no))] + [(k, sym(k, "float")) for k in free]
        seen = set()
        for p in call(e, func(e, "viqa.utils.misc", "gabor_convolve"), [I], kws):
            if p.kind != "ret":
                continue
            v = e.deref(p.st, p.val) if hasattr(e, "deref") else p.val
            v = strip_ids(v)
            par = parities(p)
            even = tuple(par.get((I, a)) for a in (0, 1))
            if (v, even) in seen:
                continue
            seen.add((v, even))
            if None in even or v.op != "store":
                rep.ob("undecided", what=f"gabor_convolve: {v.op} {even}")
                continue
            m = Model(e)
            given = {**GABOR, **{k: m.nf.at("sym", *sym(k, "float").args) for k in free}}
            for s in range(ns):
                for o in range(no):
                    rep.ob("filters", what=f"gabor_convolve {ns}x{no}, scale {s}, orientation {o}")
                    t = mk("view", v, (), ((0, const(s)), (1, const(o))))
                    try:
                        d = m.differ(lambda ev: ev.px(t), gabor("image", s, o, no, even, given, lambda ev: ev.px(I), False))
                    except (Und, Unknown) as u:
                        rep.ob("undecided", what=f"gabor_convolve: {u}")
                        continue
                    if d is not None:
                        rep.bad("filters", "gabor_convolve", fi_loc(e, fi), f"gabor_convolve with {ns} scales and {no} orientations: element [{s}, {o}] is not the response of the log-Gabor filter of that scale "
                                f"and orientation ({'even' if even[0] else 'odd'} rows, {'even' if even[1] else 'odd'} columns)")
                        break


def paths(e, cls, opts, dtype):
    e.cfg = scenario("2d", dtype)
    out = []
    for p in construct(e, cls, [], [("data_range", DR)]):
        if p.kind == "ret":
            kws = [(k, e.new_dict(p.st, {const(n): v for n, v in x.items()}) if isinstance(x, dict) else x) for k, x in opts.items()]
            out += method(e, p.st, p.val, "score", [R, M], kws)
    return out


def one_case(rep, e, cls, loc, tier, label, dtype, opts, o):
    seen, got = set(), False
    for p in paths(e, cls, opts, dtype):
        if p.kind != "ret":
            continue
        v = strip_ids(p.val)
        if v in seen or not {R, M} <= set(loaded_terms(v)):
            continue
        seen.add(v)
        m = Model(e)
        ref = dict(o)
        for k, x in ref.items():
            if isinstance(x, T):
                ref[k] = m.nf.at("sym", *x.args)
        ref = Ref(ref)
        det = crops(v, ".minstd")
        if len(det) != 1:
            rep.ob("undecided", what=f"MAD, {label}: detection map not recognised")
            continue
        got = True
        rep.ob("detection", what=f"MAD, {label}")
        rep.ob("frame", what=f"MAD, {label}")
        if not frame(m, det[0], o["B"]):
            rep.bad("frame", "detection", loc, f"MAD, {label}: the detection map is not cropped by the block size on every side")
        par = parities(p)
        if any(par.get((R, a), x) != x for (src, a), x in par.items()):
            continue                            # images of one shape only
        try:
            d = m.differ(lambda ev: ev.px(det[0].args[0]), ref.detection)
            if d is not None:
                rep.bad("detection", "detection map", loc, f"MAD, {label}: the detection map is not visibility * local mean squared error of the published model (case {sorted(d[0].items())})")
        except (Und, Unknown) as u:
            rep.ob("undecided", what=f"MAD, {label}: detection map: {u}")
        appearance(rep, m, p, v, loc, label, ref.o)
    if not got:
        rep.ob("undecided", what=f"MAD, {label}: no detection map")


def appearance(rep, m, p, v, loc, label, o):
    app = crops(v, ".getstatistics")
    if len(app) != 1:
        rep.ob("undecided", what=f"MAD, {label}: appearance map not recognised")
        return
    rep.ob("frame", what=f"MAD, {label}, appearance")
    if not frame(m, app[0], o["B"]):
        rep.bad("frame", "appearance", loc, f"MAD, {label}: the appearance map is not cropped by the block size on every side")
    if o["default"]:
        par = parities(p)
        even = [par.get((R, a), par.get((M, a))) for a in (0, 1)]
        if None in even:
            rep.ob("undecided", what=f"MAD, {label}: grid of the filters")
            return
    met = set()
    for t in {t for t in subterms(app[0].args[0]) if t.op == "call" and t.args[0].endswith(".getstatistics")}:
        pos = t.args[1]
        if len(pos) != 3:
            rep.ob("undecided", what=f"MAD, {label}: block statistics")
            continue
        rep.ob("blocks", what=f"MAD, {label}, getstatistics")
        if not all(m.nf.same(number(m, x), y) for x, y in zip(pos[1:], (o["B"], o["S"]))):
            rep.bad("blocks", "getstatistics", loc, f"MAD, {label}: the block statistics of the appearance part do not use the block size and stride = block size - int(overlap * block size)")
        if not o["default"]:
            continue
        views = [x for x in subterms(pos[0]) if x.op == "view" and len(x.args[2]) == 2]
        srcs = [src for src in (R, M) if src in loaded_terms(pos[0])]
        sel = [dict(x.args[2]) for x in views]
        if len(views) != 1 or len(srcs) != 1 or set(sel[0]) != {0, 1} or not all(is_const(x) and isinstance(cval(x), int) for x in sel[0].values()):
            rep.ob("undecided", what=f"MAD, {label}: filter response not recognised")
            continue
        s, k = cval(sel[0][0]), cval(sel[0][1])
        rep.ob("appearance", what=f"MAD, {label}, scale {s}, orientation {k}")
        met.add((srcs[0], s, k))
        try:
            d = m.differ(lambda ev: ev.px(pos[0]), gabor(srcs[0], s, k, 4, even))
            if d is not None:
                rep.bad("appearance", "filter", loc, f"MAD, {label}: the response used for scale {s}, orientation {k} ({'even' if even[0] else 'odd'} rows, {'even' if even[1] else 'odd'} columns) "
                        "is not the absolute response of the log-Gabor filter of that scale and orientation")
                return
        except (Und, Unknown) as u:
            rep.ob("undecided", what=f"MAD, {label}: filter response: {u}")
