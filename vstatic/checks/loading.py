"""Loading, cropping, normalizing, image statistics."""
from ..linear import lin, order_facts, plus
from .export import *
from ..harness import _ELEMENTWISE

L = "viqa.utils.loading"
NORM = L + ".normalize_data"
ROI3 = roi_of("Q")
LOHI = [r.args for r in ROI3.args]
AX = "xyz"


def crop_spec(e, t, img):
    """-> {axis: slices} of a cut-out of img, or None when t is not one"""
    if t is img:
        return {}
    core, spec, fixed = peel(e, t)
    if core is not img or spec is None:
        return None
    n = e.ndim(img)
    if fixed or len(spec) != n:
        return "dims"
    r = {}
    for k, s in enumerate(spec):
        if s[0] != k or s[1]:
            return "order"
        if s[2]:
            r[k] = s[2]
    return r


@register("C31", "Cropping returns exactly the requested region", VN)
def c31(rep, tier):
    e = engine()
    rep.rule("region", "for ranges inside the image the result is img[x0:x1, y0:y1(, z0:z1)] with x, y, z on axes 0, 1, 2 and the channels of an RGB image kept, and no error is raised")
    rep.rule("outside", "a range longer than its axis raises ValueError; so does a volume without a z range")
    fn = func(e, L, "crop_image")
    fi = e.p.func(L, "crop_image")
    loc = fi_loc(e, fi)
    rep.functions.add(f"{L}.crop_image")
    for kind in ("2d", "3d", "rgb"):
        n = 3 if kind == "3d" else 2
        lo = [sym(f"lo{k}", "int") for k in range(n)]
        # inside: 0 <= x0 < x1 <= extent, written as x1 = x0 + size, extent = x1 + rest
        sub = {}
        for k in range(n):
            a, b = LOHI[k]
            size = {sym(f"size{k}", "int"): 1, None: 1}
            sub[a] = {lo[k]: 1}
            sub[b] = plus(sub[a], size)
            sub[mk("dim", I, k)] = plus(sub[b], {sym(f"rest{k}", "int"): 1})
        if kind == "rgb":
            sub[mk("dim", I, 2)] = {None: 3}
        for z in ((ROI3.args[2], NONE) if kind != "3d" else (ROI3.args[2],)):
            e.cfg = scenario(kind, "uint16", load_opaque=False)
            fact = order_facts(e, sub)
            e.cfg = scenario(kind, "uint16", load_opaque=False, facts=fact)
            what = f"{kind} image" + (" (z range given)" if n == 2 and z is not NONE else "")
            for p in call(e, fn, [I, ROI3.args[0], ROI3.args[1], z]):
                rep.ob("region", 1, what)
                if p.kind == "exc":
                    rep.bad("region", f"{kind}: {e.exc_name(p.val)}", loc, f"crop_image raises {e.exc_name(p.val)} for ranges inside a {what}: "
                            + "; ".join(f"{short(c, 90)} is {v}" for c, v in p.st.conds.items()))
                    continue
                v = e.freeze(p.val, p.st)
                s = crop_spec(e, v, I)
                if s is None:
                    if v.op in ("const",) or I not in subterms(v):
                        rep.bad("region", f"{kind}: other value", loc, f"crop_image returns {short(v)} instead of a region of the image")
                    continue
                if s in ("dims", "order"):
                    rep.bad("region", f"{kind}: {s}", loc, f"crop_image of a {what} drops, reverses or permutes axes: {short(v)}")
                    continue
                eqs = whole_axes(fact, sub, p.st.conds, n)
                for k in range(e.ndim(I)):
                    sl = s.get(k)
                    want = LOHI[k] + (NONE,) if k < n else None
                    if k >= n:
                        if sl:
                            rep.bad("region", f"{kind}: axis {k}", loc, f"crop_image of a {what} cuts axis {k} with {showsl(sl)}")
                    elif sl is None:
                        if k not in eqs:
                            rep.bad("region", f"{kind}: axis {k} uncut", loc, f"crop_image of a {what} returns axis {k} ({AX[k]}) uncut although the requested range need not "
                                    f"cover it; conditions of the path: " + "; ".join(f"{short(c, 120)} is {v}" for c, v in p.st.conds.items()))
                    elif not same_slice(sl, want, sub, mk("dim", I, k)):
                        rep.bad("region", f"{kind}: axis {k} range", loc, f"crop_image of a {what} cuts axis {k} with {showsl(sl)} instead of {AX[k]}[0]:{AX[k]}[1]")
        # outside: one axis too long
        for bad in range(n):
            for case in (("size",) if tier == "quick" else ("size",)):
                sb = dict(sub)
                a, b = LOHI[bad]
                d = mk("dim", I, bad)
                sb[a] = {lo[bad]: 1}
                sb[d] = {sym(f"ext{bad}", "int"): 1, None: 1}
                sb[b] = plus(plus(sb[a], sb[d]), {sym(f"over{bad}", "int"): 1, None: 1})
                e.cfg = scenario(kind, "uint16", load_opaque=False, facts=order_facts(e, sb))
                for p in call(e, fn, [I, *ROI3.args]):
                    rep.ob("outside", 1, f"{kind} image, {AX[bad]} range longer than the axis")
                    if p.kind == "ret" or not e.exc_is(p.val, "ValueError"):
                        rep.bad("outside", f"{kind}: {AX[bad]}", loc, f"crop_image of a {kind} image with a {AX[bad]} range longer than the axis "
                                + (f"returns {short(e.freeze(p.val, p.st), 80)}" if p.kind == "ret" else f"raises {e.exc_name(p.val)}") + " instead of raising ValueError")
    e.cfg = scenario("3d", "uint16", load_opaque=False)
    for p in call(e, fn, [I, ROI3.args[0], ROI3.args[1], NONE]):
        rep.ob("outside", 1, "volume without z range")
        if p.kind == "ret" or not e.exc_is(p.val, "ValueError"):
            rep.bad("outside", "3d without z", loc, "crop_image of a volume without z range does not raise ValueError")
    rep.floor("region", 4)
    rep.floor("outside", 6)


def showsl(sl):
    return " then ".join("[" + ":".join(short(x, 60) if isinstance(x, T) else str(x) for x in s) + "]" for s in sl)


def same_slice(sl, want, sub, dim):
    if len(sl) != 1 or len(sl[0]) != 3:
        return False
    a, b, c = sl[0]
    if not is_const(c, None, 1):
        return False
    zero = const(0)
    x = lin(zero if is_const(a, None) else a, sub)
    y = lin(dim if is_const(b, None) else b, sub)
    return x == lin(want[0], sub) and y == lin(want[1], sub)


def whole_axes(fact, sub, conds, n):
    """axes for which the path conditions say that the requested range is the whole axis"""
    zero = set()
    for _ in range(3):
        for c, v in conds.items():
            for x, y, o in equalities(fact, c, v):
                a, b = lin(x, sub), lin(y, sub)
                if a is None or b is None:
                    continue
                d = plus(a, b, -1)
                d = {k: q for k, q in d.items() if k not in zero}
                if o == "le":     # x >= y known as x - y >= 0
                    d = {k: -q for k, q in d.items()}
                if o == "eq" and d and None not in d and (all(q > 0 for q in d.values()) or all(q < 0 for q in d.values())):
                    zero |= set(d)
                if o == "le" and d and None not in d and all(q < 0 for q in d.values()):
                    zero |= set(d)
    names = {z.args[0] for z in zero if z is not None and z.op == "sym"}
    return {k for k in range(n) if f"lo{k}" in names and f"rest{k}" in names}


def equalities(fact, c, v):
    """(x, y, op) pairs that hold when condition c has value v; op 'le' means y - x >= 0"""
    out = []
    if c.op == "call" and c.args[0] in ("numpy.all", "builtins.all") and v and c.args[1]:
        return equalities(fact, c.args[1][0], v)
    if c.op == "call" and c.args[0] in ("numpy.any", "builtins.any") and not v and c.args[1]:
        return equalities(fact, c.args[1][0], v)
    if c.op == "mcall" and c.args[1] == ("all" if v else "any"):
        return equalities(fact, c.args[0], v)
    if c.op == "call" and c.args[0] == "numpy.array_equal" and v:
        return equalities(fact, mk("eq", *c.args[1]), v)
    if c.op == "and" and v:
        return [q for a in c.args for q in equalities(fact, a, v)]
    if c.op in ("eq", "ne") and (c.op == "eq") == v:
        p = fact.pairs(c)
        return [(a, b, "eq") for a, b in zip(*p)] if p else [(c.args[0], c.args[1], "eq")]
    if c.op in ("lt", "le", "gt", "ge"):
        a, b = c.args if c.op in ("lt", "le") else c.args[::-1]
        p = fact.pairs(c)
        ps = list(zip(*p)) if p else [(a, b)]
        if p and c.op in ("gt", "ge"):
            ps = [(y, x) for x, y in ps]
        strict = c.op in ("lt", "gt")
        for x, y in ps:
            if v and not strict:
                out.append((x, y, "le"))
            elif not v and strict:
                out.append((y, x, "le"))
    return out


# ---------------------------------------------------------------- normalization
LO, HI = mk("minof", I), mk("maxof", I)
_RED = {"min": LO, "amin": LO, "nanmin": LO, "max": HI, "amax": HI, "nanmax": HI}
FLOATS = ("float64", "float32", "float16")


class Undecided(Exception):
    pass


class Affine:
    """abstract evaluation of the normalization formula at one pixel value, with exact floating-point identities only
    (x - x = 0, 0 / x = 0, x / x = 1, x * 1 = x, x + 0 = x, arithmetic on constants) and exact result types"""

    def __init__(self, e, dtype, pixel, given=None):
        self.e, self.dt, self.px, self.given = e, dtype, pixel, given
        self.wrap = []
        self.unfolded = []

    def ev(self, t):
        """-> (abstract value, dtype name, isarray)"""
        if t is I:
            return self.px, self.dt, True
        if is_const(t):
            v = cval(t)
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                raise Undecided
            return v, "pyint" if isinstance(v, int) else "pyfloat", False
        if self.given and t in self.given:
            return t, "pyint", False
        if t.op == "call" and t.args[0].startswith("numpy."):
            s = t.args[0].split(".")[-1]
            a = t.args[1]
            if s in _RED and a and not any(k != "axis" or not is_const(v, None) for k, v in t.args[2]) and len(a) == 1:
                v, d, _ = self.ev(a[0])
                if v is self.px or v in (LO, HI):
                    return _RED[s], d, False
                raise Undecided
            if s == "astype" and len(a) > 1:
                v, d, arr = self.ev(a[0])
                nd = exact(self.e, a[1])
                if nd is None:
                    raise Undecided
                return v, nd, arr
            if s in ("float64", "float32", "asarray", "array", "asanyarray", "ascontiguousarray", "copy") and a:
                v, d, arr = self.ev(a[0])
                nd = s if s in FLOATS else d
                k = a[1] if len(a) > 1 else dict(t.args[2]).get("dtype")
                if k is not None:
                    nd = exact(self.e, k)
                    if nd is None:
                        raise Undecided
                return v, nd, arr
            two = {"subtract": "sub", "add": "add", "multiply": "mul", "divide": "div", "true_divide": "div"}
            if s in two and len(a) == 2 and not t.args[2]:
                return self.ev(mk(two[s], *a))
            if s == "interp" and len(a) == 3 and not t.args[2]:
                xs, ys = items2(a[1]), items2(a[2])
                if xs and ys and len(xs) == len(ys) == 2:
                    v = self.ev(a[0])[0]
                    for x, y in zip(xs, ys):
                        if self.ev(x)[0] is v:
                            return self.ev(y)[0], "float64", True
                raise Undecided
            if s == "clip" and len(a) == 3:
                v, d, arr = self.ev(a[0])
                l, h = self.ev(a[1])[0], self.ev(a[2])[0]
                if all(isinstance(x, (int, float)) for x in (v, l, h)):
                    return min(max(v, l), h), d, arr
                return v, d, arr
            raise Undecided
        if t.op == "call" and t.args[0] in ("builtins.float", "builtins.int") and len(t.args[1]) == 1:
            v, d, arr = self.ev(t.args[1][0])
            return v, "pyfloat" if t.args[0].endswith("float") else "pyint", False
        if t.op in ("add", "sub", "mul", "div"):
            (a, da, xa), (b, db, xb) = self.ev(t.args[0]), self.ev(t.args[1])
            d = self.result(t.op, da, xa, db, xb)
            if d.startswith(("int", "uint")) and t.op != "div":
                ok = False
                if t.op == "sub" and d.startswith("uint") and not self.given:
                    ok = {a, b} <= {LO, HI, self.px} and (b is LO or a is b or a is HI)
                if t.op in ("add", "sub") and isinstance(b, (int, float)) and b == 0 or t.op == "add" and isinstance(a, (int, float)) and a == 0:
                    ok = True
                if not ok and not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and not (xa or xb)):
                    self.wrap.append((t, d))
            return self.arith(t.op, a, b), d, xa or xb
        raise Undecided

    @staticmethod
    def result(op, da, xa, db, xb):
        fl = [x for x in (da, db) if x in FLOATS]
        if fl:
            arrs = [d for d, x in ((da, xa), (db, xb)) if x and d in FLOATS]
            return (arrs or fl)[0]
        if op == "div" or "pyfloat" in (da, db):
            return "float64"
        ints = [x for x in (da, db) if x not in ("pyint", "pyfloat")]
        return ints[0] if ints else "pyint"

    def arith(self, op, a, b):
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num):
            if op == "div":
                return a / b if b else mk("nan")
            return a + b if op == "add" else a - b if op == "sub" else a * b
        if op == "sub" and a is b:
            return 0
        if op == "div" and a is b:
            return 1
        if op in ("sub", "add") and isinstance(b, num) and b == 0:
            return a
        if op == "add" and isinstance(a, num) and a == 0:
            return b
        if op == "div" and isinstance(a, num) and a == 0:
            return 0
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, num) and x == 0:
                    return 0
                if isinstance(x, num) and x == 1:
                    return y
        if op == "div" and isinstance(b, num) and b == 1:
            return a
        return mk("f" + op, *(x if isinstance(x, T) else const(x) for x in (a, b)))


def items2(t):
    from ..linear import items
    return items(t)


def exact(e, dt):
    r = e.exact_dtype(dt)
    if r is None and dt.op == "ext" and dt.args[0] in ("builtins.float",):
        r = "float64"
    return r


RANGES = {255: "uint8", 65535: "uint16", 1: "float32"}


def f32(v):
    return v


@register("C32", "Normalization maps the darkest and brightest pixel to the range ends", VN)
def c32(rep, tier):
    e = engine()
    rep.rule("ends", "normalize_data is an affine map of the pixel value that takes the minimum (or the given lower input bound) exactly to the lower and the maximum (given upper bound) exactly to the upper end of the output range")
    rep.rule("type", "the result has the pixel type of the output range: (0, 255) uint8, (0, 65535) uint16, (0, 1) float32; an image is returned as it is exactly when its pixel type already spans the requested range")
    rep.rule("nowrap", "no intermediate value of the formula is computed in the integer type of the image where it could wrap around")
    rep.rule("errors", "another output range, another kind of pixel type, or a missing input range with automatic_data_range=False raises ValueError")
    fn = func(e, L, "normalize_data")
    fi = e.p.func(L, "normalize_data")
    loc = fi_loc(e, fi)
    rep.functions.add(NORM)
    A, B = sym("IN_LO", "int"), sym("IN_HI", "int")
    for dt in ("uint8", "uint16", "uint32", "int8", "int16", "int32", "float32", "float64"):
        for kind in ("2d", "3d", "rgb"):
            for hi, want in RANGES.items():
                for given in (False, True):
                    e.cfg = scenario(kind, dt, load_opaque=False)
                    kws = [("data_range_input", tup(A, B)), ("automatic_data_range", FALSE)] if given else []
                    what = f"{dt} {kind} image to (0, {hi})" + (", input range given" if given else "")
                    same = dt == want and dt.startswith("u")
                    for p in call(e, fn, [I, tup(const(0), const(hi))], kws):
                        rep.ob("type", 1, what)
                        if p.kind == "exc":
                            rep.bad("type", f"{dt}->{hi}: {e.exc_name(p.val)}", loc, f"normalizing a {what} raises {e.exc_name(p.val)}")
                            continue
                        v = e.freeze(p.val, p.st)
                        if v is I:
                            if not same:
                                rep.bad("type", f"{dt}->{hi} unchanged", loc, f"normalizing a {what} returns the image unchanged, although its pixel type does not span that range")
                            continue
                        if same:
                            rep.bad("type", f"{dt}->{hi} rescaled", loc, f"an image whose pixel type already spans the requested range ({what}) is rescaled: {short(v)}")
                            continue
                        core = v
                        nd = None
                        if core.op == "call" and core.args[0] == "numpy.astype" and len(core.args[1]) > 1:
                            nd = exact(e, core.args[1][1])
                        if nd is not None and nd != want:
                            rep.bad("type", f"{dt}->{hi} dtype", loc, f"normalizing a {what} gives pixels of type {nd} instead of {want}")
                        for end, px, to in (("minimum", LO, 0), ("maximum", HI, hi)) if not given else (("lower bound", A, 0), ("upper bound", B, hi)):
                            rep.ob("ends", 1, what)
                            af = Affine(e, dt, px, {A, B} if given else None)
                            try:
                                r, rd, _ = af.ev(core)
                            except Undecided:
                                continue
                            rep.ob("nowrap", 1, what)
                            if nd is None and rd in ("float64", "uint8", "uint16", "float32") and rd != want:
                                rep.bad("type", f"{dt}->{hi} dtype", loc, f"normalizing a {what} gives pixels of type {rd} instead of {want}")
                            for w, d in af.wrap[:1]:
                                rep.bad("nowrap", f"{w.op} in {d}", loc, f"normalizing a {what} computes {short(w, 120)} in {d}, which wraps around")
                            if isinstance(r, (int, float)):
                                if r != to:
                                    rep.bad("ends", f"{dt}->{hi} {end}", loc, f"normalizing a {what} maps the {end} to {r} instead of {to}: {short(v)}")
                            elif r.op in ("fadd", "fsub", "fmul", "fdiv", "nan") or r in (LO, HI, A, B):
                                rep.bad("ends", f"{dt}->{hi} {end}", loc, f"normalizing a {what} does not map the {end} exactly to {to}; at that pixel the formula {short(v)} is {short(r, 120)}")
    for dt in ("uint8", "float32"):
        for rng in ((0, 100), (0, 256), (-1, 1)):
            e.cfg = scenario("2d", dt, load_opaque=False)
            for p in call(e, fn, [I, tup(*(const(x) for x in rng))]):
                rep.ob("errors", 1, f"{dt} to {rng}")
                if p.kind == "ret" or not e.exc_is(p.val, "ValueError"):
                    rep.bad("errors", f"{rng}", loc, f"normalizing to the unsupported range {rng} does not raise ValueError")
        for p in call(e, fn, [I, tup(const(0), const(65535))], [("automatic_data_range", FALSE)]):
            rep.ob("errors", 1, "automatic_data_range=False without input range")
            if p.kind == "ret" or not e.exc_is(p.val, "ValueError"):
                rep.bad("errors", "no input range", loc, "automatic_data_range=False without data_range_input does not raise ValueError")
    e.cfg = scenario("2d", "bool", load_opaque=False)
    for p in call(e, fn, [I, tup(const(0), const(255))]):
        rep.ob("errors", 1, "bool image")
        if p.kind == "ret" or not e.exc_is(p.val, "ValueError"):
            rep.bad("errors", "bool", loc, "normalizing a boolean image does not raise ValueError")
    rep.floor("type", 90)
    rep.floor("ends", 100)
    rep.floor("errors", 6)


# ---------------------------------------------------------------- load_data
DRNG = sym("DR", "int")


@register("C30", "load_data normalizes and crops exactly as asked", VN)
def c30(rep, tier):
    e = engine()
    rep.rule("steps", "for an array, tensor or path the result is the given (read) image, normalized to (0, data_range) exactly when normalize is set, then cropped to roi exactly when one is given; nothing else happens to the pixels")
    rep.rule("errors", "normalize without data_range, an image that is not 2D or 3D, or an unsupported input type raises ValueError")
    fn = func(e, L, "load_data")
    fi = e.p.func(L, "load_data")
    loc = fi_loc(e, fi)
    rep.functions.add(LOAD)
    e.p.func(L, "normalize_data"), e.p.func(L, "crop_image")
    path = const("/data/scan.png")
    for kind in ("2d", "3d", "rgb"):
        for src in ("array", "path", "tensor"):
            for norm in (None, False, True):
                for dr in (None, DRNG):
                    for roi in (None, ROI3):
                        kws = [] if norm is None else [("normalize", const(norm))]
                        if dr is not None:
                            kws.append(("data_range", dr))
                        if roi is not None:
                            kws.append(("roi", roi))
                        rank = img_rank(kind)

                        def facts(k):
                            if k is DRNG:
                                return True
                            if k.op in ("lt", "eq", "le") and DRNG in k.args:
                                a, b = k.args
                                o = b if a is DRNG else a
                                if is_const(o) and cval(o) in (0, None):
                                    return {"lt": a is not DRNG, "le": a is not DRNG, "eq": False}[k.op]
                            return None
                        img = {"array": I, "path": path, "tensor": sym("tens", "tensor")}[src]

                        def raw(t):
                            if t is I:
                                return True
                            if src == "path":
                                return any(x.op == "call" and x.args[0].endswith("imread") for x in subterms(t)) and onlyread(t)
                            if src == "tensor":
                                while t.op in ("mcall", "call") and t is not img:
                                    if t.op == "mcall":
                                        if t.args[1] not in ("cpu", "numpy", "detach", "clone", "contiguous"):
                                            return False
                                        t = t.args[0]
                                    else:
                                        if t.args[0] not in _ELEMENTWISE or not t.args[1] or t.args[0] == "numpy.astype":
                                            return False
                                        t = t.args[1][0]
                                return t is img
                            return False
                        sc = scenario(kind, "uint16", load_opaque=False, opaque={NORM, CROP}, facts=facts)
                        base = sc.ndim_fn

                        def nd(t, base=base, raw=raw, rank=rank):
                            r = base(t)
                            if r is None and t.op in ("call", "mcall", "sym") and src != "array" and raw(t):
                                return rank
                            if r is None and t.op == "opaque" and t.args[0] in (NORM, CROP):
                                return rank
                            return r
                        sc.ndim_fn = nd
                        ib = sc.isinst_fn

                        def isin(x, sh, st, ib=ib, raw=raw, src=src):
                            if x.op == "sym" and x.args[1] == "tensor":
                                return sh == "Tensor"
                            if x.op == "opaque" and x.args[0] in (NORM, CROP):
                                return True if sh in ("ndarray", "object") else None if sh == "ImageArray" else False
                            if src == "tensor" and x.op in ("mcall", "call") and raw(x):
                                return sh in ("ndarray", "object")
                            return ib(x, sh, st)
                        sc.isinst_fn = isin
                        e.cfg = sc
                        what = f"{src} ({kind}), normalize={norm}, data_range={'given' if dr is not None else None}, roi={'given' if roi is not None else None}"
                        for p in call(e, fn, [img], kws):
                            if norm and dr is None:
                                rep.ob("errors", 1, what)
                                if p.kind == "ret" or not e.exc_is(p.val, "ValueError"):
                                    rep.bad("errors", f"{src}: normalize without data_range", loc, f"load_data({what}) does not raise ValueError")
                                continue
                            rep.ob("steps", 1, what)
                            if p.kind == "exc":
                                rep.bad("steps", f"{src} {kind}: {e.exc_name(p.val)}", loc, f"load_data({what}) raises {e.exc_name(p.val)}")
                                continue
                            v = e.freeze(p.val, p.st)
                            t = strip_wrap(v)
                            problem = None
                            if roi is not None:
                                if t.op == "opaque" and t.args[0] == CROP:
                                    d = dict(t.args[1])
                                    if tuple(d.get(a) for a in AX) != ROI3.args:
                                        problem = f"crops with x={short(d.get('x', NONE), 40)}, y={short(d.get('y', NONE), 40)}, z={short(d.get('z', NONE), 40)} instead of the given region"
                                    t = strip_wrap(d["img"])
                                else:
                                    problem = "does not crop the result to roi" + (" last" if any(x.op == "opaque" and x.args[0] == CROP for x in subterms(v)) else "")
                            if problem is None and norm:
                                if t.op == "opaque" and t.args[0] == NORM:
                                    d = dict(t.args[1])
                                    if not (d["data_range_output"].op in ("tuple", "listv") and d["data_range_output"].args == (const(0), DRNG)):
                                        problem = f"normalizes to {short(d['data_range_output'], 60)} instead of (0, data_range)"
                                    elif not is_const(d.get("automatic_data_range", TRUE), True):
                                        problem = "does not normalize with the range of the image"
                                    t = strip_wrap(d["img"])
                                else:
                                    problem = "does not normalize the image"
                            if problem is None:
                                ops = [x.args[0] for x in subterms(t) if x.op == "opaque" and x.args[0] in (NORM, CROP)]
                                if NORM in ops:
                                    problem = "normalizes the image although normalize is not set" if not norm else "normalizes twice"
                                elif CROP in ops:
                                    problem = "crops the image although no roi is given" if roi is None else "crops before normalizing"
                                elif not raw(t):
                                    problem = f"changes the pixels: {short(t)}"
                            if problem:
                                rep.bad("steps", f"{src} {kind}: {problem[:40]}", loc, f"load_data({what}) {problem}; result {short(v, 160)}")
    # errors
    for n in (1, 4):
        for src in ("array", "path"):
            e.cfg = scenario("2d", "uint16", load_opaque=False, opaque={NORM, CROP})
            e.cfg.ndim_fn = lambda t, n=n: n if t is I or (t.op == "call" and (t.args[0].endswith("imread") or t.args[0].startswith("numpy.") and t.args[1]
                                                           and t.args[1][0].op == "call" and t.args[1][0].args[0].endswith("imread"))) else None
            for kws in ([], [("roi", ROI3)]):
                for p in call(e, fn, [I if src == "array" else path], kws):
                    rep.ob("errors", 1, f"{n}-dimensional {src}")
                    if p.kind == "ret" or not e.exc_is(p.val, "ValueError"):
                        rep.bad("errors", f"{src}: {n}D", loc, f"load_data of a {n}-dimensional {src} does not raise ValueError")
    for v, name in ((const(5), "number"), (NONE, "None"), (const(1.5), "float")):
        e.cfg = scenario("2d", "uint16", load_opaque=False, opaque={NORM, CROP})
        for p in call(e, fn, [v]):
            rep.ob("errors", 1, name)
            if p.kind == "ret" or not e.exc_is(p.val, "ValueError"):
                rep.bad("errors", f"input {name}", loc, f"load_data of a {name} does not raise ValueError")
    rep.floor("steps", 70)
    rep.floor("errors", 20)


def onlyread(t):
    """the array an image reader returned, through conversions to an array only"""
    while t.op == "call" and t.args[0] in ("numpy.asarray", "numpy.array", "numpy.asanyarray", "numpy.copy") and len(t.args[1]) == 1 and not t.args[2]:
        t = t.args[1][0]
    return t.op == "call" and t.args[0].endswith("imread")


def strip_wrap(t):
    while t.op == "call" and t.args[0] in ("numpy.asarray", "numpy.array", "numpy.asanyarray", "numpy.copy") and len(t.args[1]) == 1 and not t.args[2] \
            and t.args[1][0].op in ("opaque", "view", "sym"):
        t = t.args[1][0]
    return t


# ---------------------------------------------------------------- files
TOKENS = {"8ubit": "uint8", "8bit": "uint8", "16ubit": "uint16", "16bit": "uint16", "32ubit": "uint32", "32bit": "uint32",
          "16fbit": "float16", "32fbit": "float32", "64fbit": "float64"}
MET = {"MET_UCHAR": "uint8", "MET_USHORT": "uint16", "MET_UINT": "uint32", "MET_FLOAT": "float32", "MET_DOUBLE": "float64"}


class FileRead:
    """how a loaded array was obtained from a data file"""

    def __init__(self):
        self.dtype = self.file = self.extra = self.reshape = None


def data_source(e, t, st):
    """array as read from a file: (dtype term, file term, [restrictions]) or None"""
    if t.op == "call" and t.args[0] in ("numpy.fromfile", "numpy.frombuffer", "numpy.memmap"):
        kw = dict(t.args[2])
        names = {"numpy.fromfile": ("file", "dtype", "count", "sep", "offset"), "numpy.frombuffer": ("buffer", "dtype", "count", "offset"),
                 "numpy.memmap": ("filename", "dtype", "mode", "offset", "shape", "order")}[t.args[0]]
        for n, v in zip(names, t.args[1]):
            kw.setdefault(n, v)
        f = kw.get(names[0])
        if t.args[0] == "numpy.frombuffer":
            if f is None or not (f.op == "mcall" and f.args[1] == "read"):
                return None
            if f.args[2]:
                return kw.get("dtype"), f.args[0], ["read(n)"]
            f = f.args[0]
        res = [k for k in ("count", "offset") if k in kw and not is_const(kw[k], -1 if k == "count" else 0)]
        return kw.get("dtype"), f, res
    return None


def file_path(t, st):
    if t is not None and t.op == "ref" and st.h(t).kind == "file":
        return st.h(t).attrs["path"]
    return t


def geometry(e, p):
    """loaded value -> (source, extents in file order from slow to fast, axis permutation) or text describing the deviation, or None"""
    v = e.freeze(p.val, p.st)
    t = v
    while t.op == "call" and t.args[0] in ("numpy.asarray", "numpy.copy", "numpy.ascontiguousarray", "numpy.array") and len(t.args[1]) == 1 and not t.args[2]:
        t = t.args[1][0]
    core, spec, fixed = peel2(e, t)
    if core.op == "call" and core.args[0] == "numpy.reshape":
        kw = dict(core.args[2])
        shp = core.args[1][1] if len(core.args[1]) > 1 else kw.get("newshape", kw.get("shape"))
        order = cval(kw["order"]) if "order" in kw and is_const(kw["order"]) else ("C" if "order" not in kw else None)
        src = core.args[1][0]
        while src.op == "call" and src.args[0] in ("numpy.astype", "numpy.copy") and src.args[1]:
            if src.args[0] == "numpy.astype":
                return "conv", src, None
            src = src.args[1][0]
        ds = data_source(e, src, p.st)
        if ds is None:
            if data_source(e, peel_any(src), p.st) is not None:
                return "part", src, None
            return None
        if shp is None or shp.op not in ("tuple", "listv") or order not in ("C", "F"):
            return None
        dims = list(shp.args)
        perm = [s[0] for s in spec]
        if fixed or len(perm) != len(dims) or any(s[2] for s in spec):
            return "cut", t, None
        if any(s[1] for s in spec):
            return "flip", t, None
        if order == "F":
            dims, perm = dims[::-1], [len(dims) - 1 - a for a in perm]
        return ds, dims, perm
    return None


def peel_any(t):
    while t.op in ("view", "getitem"):
        t = t.args[0]
    return t


def peel2(e, t):
    """like peel, without looking through type conversions"""
    if t.op != "view":
        n = e.ndim(t)
        return t, [(i, False, ()) for i in range(n or 0)], {}
    base = t.args[0]
    core, spec, fixed = peel(e, mk("view", base, t.args[1], t.args[2]))
    while base.op == "view":
        base = base.args[0]
    return (base, spec, fixed) if core is base else (base, spec, fixed)


def dims_hook(hdr=False):
    """the three extents parsed from a header value or a file name are three unknown numbers"""
    def f(t):
        if t.op in ("call", "mcall"):
            if t.op == "mcall" and t.args[1] in ("split", "rsplit"):
                if any(is_const(x, "DimSize") for x in subterms(t.args[0])):
                    return [mk("getitem", t, const(k)) for k in range(3)]
        return None
    return f


@register("C13", "Files are read in the format and pixel type they declare", VN)
def c13(rep, tier):
    e = engine()
    rep.rule("dispatch", "the extension selects the reader: .mhd and .raw binary volumes, .nii and .nii.gz NIfTI, .png .jpg .jpeg .bmp .tiff images; the path that is opened is the one given; any other extension raises ValueError before anything is read")
    rep.rule("raw-type", "the pixel type of a .raw file is the one its name declares (8/16/32bit and 8/16/32ubit unsigned, 16/32/64fbit float); a name without extents, without bit depth or with another bit depth raises ValueError")
    rep.rule("mhd-type", "the pixel type of a .mhd file is the one of its ElementType; another ElementType raises ValueError; the data file is ElementDataFile in the directory of the header; no header line is skipped")
    fn = func(e, L, "load_data")
    fi = e.p.func(L, "load_data")
    loc = fi_loc(e, fi)
    rep.functions |= {LOAD, L + "._load_data_from_disk", L + ".load_mhd", L + ".load_raw", L + ".load_nifti"}

    def readers(p):
        r = []
        for ev in p.st.events:
            if ev.kind == "ext" and ev.a[0].split(".")[-1] in ("imread", "fromfile", "load", "memmap", "open") and ev.a[0].split(".")[0] in ("skimage", "nibabel", "numpy", "imageio"):
                r.append((ev.a[0], ev.a[1][0] if ev.a[1] else dict(ev.a[2]).get("file")))
        return r
    for ext in (".png", ".jpg", ".jpeg", ".bmp", ".tiff", ".nii", ".nii.gz"):
        for stem in ("img", "volume.v2", "a_2x3x4_8bit"):
            f = f"/data/in/{stem}{ext}"
            e.cfg = scenario("2d", "uint8", load_opaque=False)
            ok = 0
            for p in call(e, fn, [const(f)]):
                if p.kind == "exc":
                    continue
                ok += 1
                rep.ob("dispatch", 1, f"{stem}{ext}")
                rd = readers(p)
                want = "nibabel" if ".nii" in ext else "skimage"
                if not rd or not any(n.startswith(want) or want == "skimage" and n.startswith("imageio") for n, _ in rd):
                    rep.bad("dispatch", ext, loc, f"{stem}{ext} is not read by {want}: {[n for n, _ in rd]}")
                elif not any(a is not None and is_const(a, f) for _, a in rd):
                    if all(a is not None and is_const(a) for _, a in rd):
                        rep.bad("dispatch", f"{ext} path", loc, f"loading {f} reads {[short(a, 60) for _, a in rd]}")
                v = e.freeze(p.val, p.st)
                core = v
                while core.op == "call" and core.args[0] in ("numpy.asarray", "numpy.array", "numpy.asanyarray", "numpy.copy") and len(core.args[1]) == 1 and not core.args[2]:
                    core = core.args[1][0]
                if want == "skimage" and core.op != "call":
                    rep.bad("dispatch", f"{ext} pixels", loc, f"the pixels read from {stem}{ext} are changed: {short(v)}")
                if want == "nibabel" and not (core.op == "mcall" and core.args[1] in ("get_fdata",) or core.op in ("attr", "call")):
                    rep.bad("dispatch", f"{ext} pixels", loc, f"the voxels read from {stem}{ext} are changed: {short(v)}")
            if not ok:
                rep.bad("dispatch", f"{ext} rejected", loc, f"{stem}{ext} cannot be loaded")
    for ext in (".tif2", ".gz", ".dcm", ".txt", ".npy", "", ".raw.bak", ".mhdx"):
        f = f"/data/in/img{ext}"
        e.cfg = scenario("2d", "uint8", load_opaque=False)
        for p in call(e, fn, [const(f)]):
            rep.ob("dispatch", 1, f"img{ext}")
            if p.kind == "ret" or not e.exc_is(p.val, "ValueError"):
                rep.bad("dispatch", f"unsupported {ext or 'no extension'}", loc, f"loading img{ext} " + ("succeeds" if p.kind == "ret" else f"raises {e.exc_name(p.val)}") + " instead of raising ValueError")
            if readers(p) or any(ev.kind == "open" for ev in p.st.events):
                rep.bad("dispatch", f"unsupported {ext or 'no extension'} read", loc, f"img{ext} is opened although its format is not supported")
    # RAW names
    for stem, tok in [(s.format(t), t) for t in TOKENS for s in ("scan_2x3x5_{}", "{}_2x3x5", "v2_scan_{}_2x3x5")]:
        f = f"/data/in/{stem}.raw"
        e.cfg = scenario("3d", "uint8", load_opaque=False)
        ok = 0
        for p in call(e, fn, [const(f)]):
            if p.kind == "exc":
                if not e.exc_is(p.val, "ValueError"):
                    rep.bad("raw-type", f"{tok}: {e.exc_name(p.val)}", loc, f"loading {stem}.raw raises {e.exc_name(p.val)}")
                continue
            ok += 1
            rep.ob("raw-type", 1, f"{stem}.raw")
            v = e.freeze(p.val, p.st)
            srcs = [x for x in subterms(v) if data_source(e, x, p.st)]
            for x in srcs[:1]:
                dt, fl, _ = data_source(e, x, p.st)
                got = exact(e, dt) if dt is not None else "float64"
                if got is not None and got != TOKENS[tok]:
                    rep.bad("raw-type", f"{tok} as {got}", loc, f"{stem}.raw is read as {got} instead of {TOKENS[tok]}")
                fp = file_path(fl, p.st)
                if fp is not None and is_const(fp) and cval(fp) != f:
                    rep.bad("raw-type", "path", loc, f"loading {f} reads {cval(fp)}")
                if any(y.op == "call" and y.args[0] == "numpy.astype" for y in subterms(v)):
                    rep.bad("raw-type", "converted", loc, f"the voxels of {stem}.raw are converted to another type: {short(v)}")
        if not ok:
            rep.bad("raw-type", f"{tok} rejected", loc, f"{stem}.raw cannot be loaded")
    for stem, why in (("scan", "no extents, no bit depth"), ("scan_2x3x5", "no bit depth"), ("scan_16bit", "no extents"), ("scan_2x3_16bit", "two extents"),
                      ("scan_2x3x5_12bit", "12 bit"), ("scan_2x3x5_8fbit", "8 bit float"), ("scan_2x3x5_64ubit", "64 bit integer"), ("scan_2x3x5_24bit", "24 bit")):
        e.cfg = scenario("3d", "uint8", load_opaque=False)
        for p in call(e, fn, [const(f"/data/in/{stem}.raw")]):
            rep.ob("raw-type", 1, f"{stem}.raw")
            if p.kind == "ret" or not e.exc_is(p.val, "ValueError"):
                rep.bad("raw-type", f"accepts {why}", loc, f"loading {stem}.raw ({why}) " + ("succeeds" if p.kind == "ret" else f"raises {e.exc_name(p.val)}") + " instead of raising ValueError")
    # MHD headers
    e.cfg = scenario("3d", "uint8", load_opaque=False, iter_fn=dims_hook())
    seen = set()
    for p in call(e, fn, [const("/data/in/scan.mhd")]):
        tags = {cval(a): v for c, v in p.st.conds.items() if c.op == "eq" for a, b in (c.args, c.args[::-1]) if is_const(a) and isinstance(cval(a), str)
                and any(is_const(x, "ElementType") for x in subterms(b))}
        pos = [k for k, v in tags.items() if v]
        if not tags:
            continue
        for x in {x for c in p.st.conds for x in subterms(c)}:
            if x.op == "getitem" and x.args[1].op == "slice" and x.args[0].op == "mcall" and x.args[0].args[1] in ("split", "splitlines", "readlines") \
                    and is_const(x.args[1].args[1]) and isinstance(cval(x.args[1].args[1]), int) and any(is_const(q, "read", "readlines") or q == "read" for y in subterms(x) if y.op == "mcall" for q in y.args):
                rep.bad("mhd-type", "header lines", loc, f"header lines are skipped: {short(x)} loses the last line of a header that does not end with a line break")
        if p.kind == "exc":
            if not pos:
                rep.ob("mhd-type", 1, "unknown ElementType")
                if not e.exc_is(p.val, "ValueError"):
                    rep.bad("mhd-type", f"unknown: {e.exc_name(p.val)}", loc, f"an unknown ElementType raises {e.exc_name(p.val)} instead of ValueError")
            continue
        rep.ob("mhd-type", 1, pos[0] if pos else "other")
        v = e.freeze(p.val, p.st)
        srcs = [x for x in subterms(v) if data_source(e, x, p.st)]
        if not srcs:
            continue
        dt, fl, _ = data_source(e, srcs[0], p.st)
        got = exact(e, dt) if dt is not None else "float64"
        if not pos:
            rep.bad("mhd-type", "unknown accepted", loc, f"a header with an ElementType other than {', '.join(sorted(tags))} is read as {got} instead of raising ValueError")
            continue
        seen.add(pos[0])
        if pos[0] in MET and got is not None and got != MET[pos[0]]:
            rep.bad("mhd-type", f"{pos[0]} as {got}", loc, f"ElementType {pos[0]} is read as {got} instead of {MET[pos[0]]}")
        fp = file_path(fl, p.st)
        parts_ = join_parts(fp) if fp is not None else None
        if parts_ is not None:
            if not (is_const(parts_[0], "/data/in") and any(is_const(x, "ElementDataFile") for x in subterms(parts_[-1])) and len(parts_) == 2):
                rep.bad("mhd-type", "data file", loc, f"the data file of /data/in/scan.mhd is looked up at {short(fp)} instead of ElementDataFile next to the header")
        if any(y.op == "call" and y.args[0] == "numpy.astype" and any(x in subterms(y) for x in srcs) and y in subterms(v) for y in subterms(v)):
            rep.bad("mhd-type", "converted", loc, f"the voxels are converted to another type: {short(v)}")
    if seen:
        for k in sorted(set(MET) - seen):
            rep.bad("mhd-type", f"{k} rejected", loc, f"ElementType {k} cannot be loaded")
    rep.floor("dispatch", 25)
    rep.floor("raw-type", 28)


def join_parts(t):
    if t.op == "call" and t.args[0] == "os.path.join":
        return list(t.args[1])
    if t.op == "div":
        return [t.args[0], t.args[1]]
    return None


@register("C14", "Volumes are loaded with every voxel at its place", VN)
def c14(rep, tier):
    e = engine()
    rep.rule("axes", "the volume read from a RAW or MHD data file has shape (X, Y, Z) as declared and its voxel (x, y, z) is element x + X*y + X*Y*z of the file, neither mirrored nor cut")
    rep.rule("size", "the whole data file is used: a file with more or fewer elements than X*Y*Z raises ValueError")
    fn = func(e, L, "load_data")
    fi = e.p.func(L, "load_data")
    loc = fi_loc(e, fi)
    rep.functions |= {LOAD, L + ".load_mhd", L + ".load_raw", L + "._load_binary"}
    cases = [("RAW", f"/data/in/scan_{t}_{d}.raw", d) for d in ("2x3x5", "11x7x13", "1024x5x300", "1x4x6") for t in ("8bit", "16ubit", "32fbit", "64fbit")]
    cases += [("RAW", "/data/in/scan_17x19x23_16bit.raw", "17x19x23"), ("MHD", "/data/in/scan.mhd", None)]
    for fmt, f, d in cases:
        e.cfg = scenario("3d", "uint8", load_opaque=False, iter_fn=dims_hook())
        for p in call(e, fn, [const(f)]):
            if p.kind == "exc":
                continue
            if any(v and c.op == "eq" and any(is_const(a) and isinstance(cval(a), str) and cval(a) in MET for a in c.args) for c, v in p.st.conds.items()) is False and fmt == "MHD":
                pass
            g = geometry(e, p)
            if g is None:
                continue
            rep.ob("axes", 1, f)
            rep.ob("size", 1, f)
            src, dims, perm = g
            if isinstance(src, str):
                msg = {"part": "only a part of the data file is used", "cut": "the volume is cut or an axis is dropped", "flip": "an axis is mirrored", "conv": "the voxels are converted"}[src]
                rep.bad("size" if src == "part" else "axes", f"{fmt} {src}", loc, f"loading {f}: {msg}: {short(dims)}")
                continue
            if src[2]:
                rep.bad("size", f"{fmt} {src[2]}", loc, f"loading {f} reads only a part of the data file ({', '.join(src[2])})")
            if fmt == "RAW":
                want = [const(int(x)) for x in d.split("x")]
            else:
                want = None
                ids = [dim_index(x) for x in dims]
                if any(i is None for i in ids):
                    if any(is_const(x, -1) for x in dims):
                        rep.bad("size", f"{fmt} -1", loc, f"loading {f} infers an extent from the file size: shape {short(tup(*dims))}")
                    continue
            # extent of the loaded axis k and the stride of that axis in the file
            n = len(dims)
            if want is not None:
                if any(is_const(x, -1) for x in dims):
                    rep.bad("size", f"{fmt} -1", loc, f"loading {f} infers an extent from the file size: shape {short(tup(*dims))}")
                    continue
                if dims != want[::-1] or perm != [2, 1, 0]:
                    rep.bad("axes", fmt, loc, f"loading {f}: the data are interpreted with extents {short(tup(*dims))} (slowest first) and axes ordered {perm}; voxel (x, y, z) is not element x + X*y + X*Y*z")
            elif ids != [2, 1, 0] or perm != [2, 1, 0]:
                rep.bad("axes", fmt, loc, f"loading {f}: the data are interpreted with extents DimSize{ids} (slowest first) and axes ordered {perm}; voxel (x, y, z) is not element x + X*y + X*Y*z")
    rep.floor("axes", 12)


def dim_index(t):
    """which entry of DimSize an extent is"""
    while t.op == "call" and t.args[0] in ("builtins.int",) and len(t.args[1]) == 1:
        t = t.args[1][0]
    if t.op == "getitem" and is_const(t.args[1]) and any(is_const(x, "DimSize") for x in subterms(t.args[0])):
        return cval(t.args[1])
    return None


# ---------------------------------------------------------------- statistics of an image
STATS = {"mean_value": ("mean", "average", "nanmean"), "median": ("median", "nanmedian"), "variance": ("var", "nanvar"), "standarddev": ("std", "nanstd"),
         "skewness": ("skew",), "kurtosis": ("kurtosis",), "minimum": ("min", "amin", "nanmin"), "maximum": ("max", "amax", "nanmax")}
DESCRIBED = {"mean": "mean_value", "median": "median", "variance": "variance", "standarddev": "standarddev", "skewness": "skewness", "kurtosis": "kurtosis",
             "minimum": "minimum", "maximum": "maximum"}
_KNOWN = {x for v in STATS.values() for x in v} | {"sum", "ptp", "sem", "variation", "percentile", "quantile", "moment"}


def flat(t):
    """-> (array, raveled)"""
    r = False
    while True:
        if t.op == "call" and t.args[0] in ("numpy.ravel", "numpy.flatten") and len(t.args[1]) == 1:
            t, r = t.args[1][0], True
        elif t.op == "call" and t.args[0] == "numpy.reshape" and len(t.args[1]) == 2 and is_const(t.args[1][1], -1):
            t, r = t.args[1][0], True
        elif t.op == "call" and t.args[0] in ("numpy.asarray", "numpy.array", "numpy.copy", "numpy.asanyarray", "numpy.view") and t.args[1]:
            t = t.args[1][0]
        elif t.op == "call" and t.args[0] == "numpy.astype" and len(t.args[1]) == 2 and t.args[1][1].op == "ext" and "float" in t.args[1][1].args[0]:
            t = t.args[1][0]
        else:
            return t, r


def statistic(t):
    """term -> (function name, whole image?) or None"""
    while t.op == "call" and t.args[0] in ("builtins.float", "numpy.float64") and len(t.args[1]) == 1:
        t = t.args[1][0]
    if t.op == "call" and t.args[0] == "numpy.sqrt" and statistic(t.args[1][0]) in (("var", True),):
        return "std", True
    if t.op == "pow" and is_const(t.args[1], 0.5) and statistic(t.args[0]) in (("var", True),):
        return "std", True
    if t.op in ("pow", "mul") and statistic(t.args[0]) == ("std", True) and (is_const(t.args[1], 2) or t.args[1] is t.args[0]):
        return "var", True
    if t.op != "call" or not t.args[0].startswith(("numpy.", "scipy.stats.")):
        return None
    s = t.args[0].split(".")[-1]
    if s not in _KNOWN or not t.args[1]:
        return None
    x, rav = flat(t.args[1][0])
    kw = dict(t.args[2])
    if len(t.args[1]) > 1:
        kw.setdefault("axis", t.args[1][1])
    scipy = t.args[0].startswith("scipy.")
    axis = kw.get("axis", const(0) if scipy else NONE)
    whole = x is I and (is_const(axis, None) or rav and is_const(axis, 0, -1)) and is_const(kw.get("ddof", const(0)), 0) \
        and is_const(kw.get("bias", TRUE), True) and is_const(kw.get("fisher", TRUE), True)
    if "where" in kw:
        whole = False
    if x is not I and x.op not in ("view", "getitem") and x is not I:
        return None
    return s, whole


@register("C23", "Image statistics describe the whole image under their own names", VN)
def c23(rep, tier):
    e = engine()
    rep.rule("values", "calculate_statistics stores in each attribute its own statistic over all pixels of the image (population variance and deviation, Fisher kurtosis)")
    rep.rule("describe", "describe returns and writes every statistic under its own name")
    rep.rule("carry", "an array derived from an image carries over each statistic under its own name, never another one")
    ci = "ImageArray"
    fc = e.p.func(L, ci + ".calculate_statistics")
    rep.functions |= {f"{L}.{ci}.calculate_statistics", f"{L}.{ci}.describe"}
    for kind in ("2d", "3d", "rgb"):
        for dt in ("uint8", "float32", "int16"):
            e.cfg = scenario(kind, dt, load_opaque=False)
            for p in call(e, func(e, L, ci + ".calculate_statistics"), [I]):
                if p.kind == "exc":
                    rep.ob("values", 1)
                    rep.bad("values", e.exc_name(p.val), fi_loc(e, fc), f"calculate_statistics of a {dt} {kind} image raises {e.exc_name(p.val)}")
                    continue
                last = {}
                for ev in p.st.events:
                    if ev.kind == "setattr" and ev.a[0] is I and len(ev.a) == 3:
                        last[ev.a[1]] = (e.freeze(ev.a[2], p.st), ev)
                    if ev.kind == "setattr" and len(ev.a) > 3:
                        rep.bad("values", f"{ev.a[1]} on temporary", ev.loc, f"the statistic {ev.a[1]} is stored on a temporary view of the image and lost")
                    if ev.kind == "setattr" and ev.a[0] is not I:
                        rep.bad("values", f"{ev.a[1]} elsewhere", ev.loc, f"the statistic {ev.a[1]} is stored on {short(ev.a[0], 60)}, not on the image")
                for a, fs in STATS.items():
                    rep.ob("values", 1, f"{a} of a {dt} {kind} image")
                    if a not in last:
                        if len(last) >= 3:
                            rep.bad("values", f"{a} missing", fi_loc(e, fc), f"calculate_statistics does not store {a}")
                        continue
                    v, ev = last[a]
                    r = statistic(v)
                    if r is None:
                        if is_const(v):
                            rep.bad("values", a, ev.loc, f"{a} is stored as {short(v)}")
                        continue
                    if r[0] not in fs or not r[1]:
                        rep.bad("values", a, ev.loc, f"{a} is {short(v)}, which is not the {fs[0]} of all pixels")
                if "histogram" in last:
                    v, ev = last["histogram"]
                    rep.ob("values", 1, f"histogram of a {dt} {kind} image")
                    if v.op == "call" and v.args[0] == "numpy.histogram" and v.args[1]:
                        x, _ = flat(v.args[1][0])
                        kw = dict(v.args[2])
                        if x.op in ("view", "getitem") or not is_const(kw.get("range", NONE), None) or not is_const(kw.get("weights", NONE), None) or len(v.args[1]) > 2:
                            rep.bad("values", "histogram", ev.loc, f"the histogram {short(v)} does not count every pixel")
                        b = v.args[1][1] if len(v.args[1]) > 1 else kw.get("bins")
                        if b is not None and is_const(b) and isinstance(cval(b), int) and cval(b) < 1:
                            rep.bad("values", "histogram bins", ev.loc, f"the histogram has {cval(b)} bins")
    # describe
    fd = e.p.func(L, ci + ".describe")
    for kws in ([], [("path", FP), ("filename", const("stats.csv"))], [("path", FP), ("filename", const("stats"))], [("path", FP)], [("filename", const("s.csv"))]):
        e.cfg = scenario("3d", "uint8", load_opaque=False, facts=lambda k: True if k is FP else None)
        for p in call(e, func(e, L, ci + ".describe"), [I], kws):
            if p.kind == "exc":
                rep.ob("describe", 1)
                rep.bad("describe", e.exc_name(p.val), fi_loc(e, fd), f"describe({', '.join(k for k, _ in kws)}) raises {e.exc_name(p.val)}")
                continue
            v = e.freeze(p.val, p.st)
            both = len(kws) == 2
            ds = [v] if v.op == "dictv" else []
            for d in ds:
                m = {cval(a.args[0]): a.args[1] for a in d.args if is_const(a.args[0])}
                for k, a in DESCRIBED.items():
                    rep.ob("describe", 1, k)
                    if k not in m:
                        rep.bad("describe", f"{k} missing", fi_loc(e, fd), f"describe does not return {k}")
                    elif m[k].op == "attr" and m[k].args[0] is I and m[k].args[1] != a:
                        rep.bad("describe", k, fi_loc(e, fd), f"describe returns {m[k].args[1]} under the name {k}")
                    elif is_const(m[k]):
                        rep.bad("describe", k, fi_loc(e, fd), f"describe returns {short(m[k])} under the name {k}")
            files = csv_rows(e, p, 0)
            rep.ob("describe", 1, "file " + ", ".join(k for k, _ in kws))
            if both != bool(files) and (not both or any(ev.kind == "open" for ev in p.st.events) is False):
                rep.bad("describe", "file", fi_loc(e, fd), "describe " + ("writes no file although path and filename are given" if both else "writes a file although path or filename is missing"))
            for path, rows in files:
                want = [(FP, "stats.csv")]
                pp = join_parts(path)
                if pp is not None and not (pp[0] is FP and is_const(pp[-1], "stats.csv")):
                    rep.bad("describe", "path", fi_loc(e, fd), f"describe(path, {short(dict(kws)['filename'])}) writes to {short(path)}")
                lit = [r for _, r in rows]
                if len(lit) == 2 and all(r is not None for r in lit):
                    h, b = lit
                    for k, c in zip(h, b):
                        if is_const(k) and cval(k) in DESCRIBED:
                            c = plain(c)
                            if c.op == "attr" and c.args[1] != DESCRIBED[cval(k)]:
                                rep.bad("describe", f"csv {cval(k)}", fi_loc(e, fd), f"describe writes {c.args[1]} in the column {cval(k)}")
                    if len(h) != len(b):
                        rep.bad("describe", "csv columns", fi_loc(e, fd), f"describe writes {len(h)} headings and {len(b)} values")
    # __array_finalize__
    if (L, ci + ".__array_finalize__") in e.p.funcs:
        O = sym("obj", "array")
        ff = e.p.func(L, ci + ".__array_finalize__")
        e.cfg = scenario("3d", "uint8", load_opaque=False, imgs=(I, O))
        for p in call(e, func(e, L, ci + ".__array_finalize__"), [I, O]):
            for ev in p.st.events:
                if ev.kind == "setattr" and ev.a[0] is I:
                    v = e.freeze(ev.a[2], p.st)
                    rep.ob("carry", 1, ev.a[1])
                    names = [x.args[1] for x in subterms(v) if x.op == "attr" and x.args[0] is O and isinstance(x.args[1], str)]
                    names += [cval(x.args[1][1]) for x in subterms(v) if x.op == "call" and x.args[0] == "builtins.getattr" and len(x.args[1]) > 1 and is_const(x.args[1][1])]
                    if names and ev.a[1] not in names and any(n in STATS for n in names):
                        rep.bad("carry", ev.a[1], ev.loc, f"a derived array gets the {names[0]} of its source as {ev.a[1]}")
    rep.floor("values", 50)
    rep.floor("describe", 20)
