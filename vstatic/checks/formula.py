"""What the metrics computed by viqa itself return, as functions of the two images: formula, symmetry, identity."""
from ..algebra import NF, C, describe
from ..harness import *
from ..poly import ONE, Rat, Unknown, patom, pconst
from ..registry import register
from .metrics import DR, VN, fi_loc, score_fi

AN = VN + "; rational normal forms of the result terms"
W = sym("win_size", "int")


class X:
    """builds reference terms with Python operators"""
    def __init__(self, t):
        self.t = t if isinstance(t, T) else const(t)


def _op(o, flip=False):
    def f(self, y):
        y = y if isinstance(y, X) else X(y)
        return X(mk(o, y.t, self.t) if flip else mk(o, self.t, y.t))
    return f


for _n, _o in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div"), ("pow", "pow"), ("floordiv", "floordiv")):
    setattr(X, f"__{_n}__", _op(_o))
    setattr(X, f"__r{_n}__", _op(_o, True))


def fcall(name, *pos, **kw):
    return X(mk("call", name, tuple(X(p).t if not isinstance(p, X) else p.t for p in pos),
                tuple((k, v.t if isinstance(v, X) else v if isinstance(v, T) else const(v)) for k, v in kw.items())))


def sqrt(x):
    return fcall("numpy.sqrt", x)


def metric(e, name):
    for c in fr_metrics(e):
        if c.args[1] == name:
            return c
    raise AnalysisBroken(f"metric {name} not found")


def scores(e, cls, a, b, opts, kind, dtype, facts=None):
    """[Path] of score(a, b, **opts) on constructed metrics"""
    e.cfg = scenario(kind, dtype, facts=facts)
    out = []
    for p in construct(e, cls, [], [("data_range", DR)]):
        if p.kind == "ret":
            out += method(e, p.st, p.val, "score", [a, b], list(opts.items()))
    return out


def impossible(p):
    """the path assumes that an array differs from itself"""
    for k, v in p.st.conds.items():
        if k.op == "call" and k.args[0] in ("numpy.array_equal", "numpy.array_equiv") and len(set(k.args[1])) == 1 and not v:
            return True
    return False


def equal_images(p):
    return any(k.op == "call" and k.args[0] in ("numpy.array_equal", "numpy.array_equiv") and v for k, v in p.st.conds.items())


def nform(e, raw=False):
    nf = NF(e, raw=raw)
    hw = nf.at("sym", "#half", "int")
    nf.leaf[W] = C(2) * hw + C(1)
    nf.leaf[DR] = nf.at("sym", "#D", "int")
    return nf


# ---------------------------------------------------------------- SSIM and UQI
SS = {"K1": sym("K1", "float"), "K2": sym("K2", "float"), "sigma": sym("sigma", "float"), "mode": sym("mode", "str"), "cval": sym("cval", "float"),
      "alpha": sym("alpha", "int"), "beta": sym("beta", "int"), "gamma": sym("gamma", "int")}


def ssim_cases():
    """(label, options)"""
    yield "default options", {}
    for g in (True, False):
        for w in (None, W):
            o = dict(SS, gaussian_weights=const(g))
            if w is not None:
                o["win_size"] = w
            yield f"{'Gaussian' if g else 'uniform'} weights, {'given' if w is not None else 'default'} window, all options given", o


def ssim_ref(r, m, opts, rank):
    d = {"K1": const(0.01), "K2": const(0.03), "sigma": const(1.5), "mode": const("reflect"), "cval": const(0), "alpha": const(1), "beta": const(1), "gamma": const(1),
         "gaussian_weights": const(True), "win_size": None}
    d.update(opts)
    gauss = cval(d["gaussian_weights"])
    x, y = X(r), X(m)
    win = d["win_size"]
    norm = None
    if win is None:
        if gauss:
            win = (2 * fcall("builtins.int", 3.5 * X(d["sigma"]) + 0.5) + 1).t
            norm = X(1)
        else:
            win = const(7)
    win = X(win)
    if norm is None:
        n = win ** rank
        norm = n / (n - 1)

    def f(z):
        if gauss:
            return fcall("scipy.ndimage.gaussian_filter", z, sigma=d["sigma"], truncate=3.5, mode=d["mode"], cval=d["cval"])
        return fcall("scipy.ndimage.uniform_filter", z, size=win, mode=d["mode"], cval=d["cval"])
    ux, uy = f(x), f(y)
    vx, vy, vxy = norm * (f(x * x) - ux * ux), norm * (f(y * y) - uy * uy), norm * (f(x * y) - ux * uy)
    c1, c2 = (X(d["K1"]) * DR) ** 2, (X(d["K2"]) * DR) ** 2
    c3 = c2 / 2

    def num(z):
        return fcall("numpy.nan_to_num", z, nan=1.0)
    lum = num((2 * ux * uy + c1) / (ux ** 2 + uy ** 2 + c1))
    con = num((2 * sqrt(vx) * sqrt(vy) + c2) / (vx + vy + c2))
    stru = num((vxy + c3) / (sqrt(vx) * sqrt(vy) + c3))
    s = lum ** X(d["alpha"]) * con ** X(d["beta"]) * stru ** X(d["gamma"])
    return fcall("numpy.mean", fcall("skimage.util.crop", s, (win - 1) // 2)).t


def uqi_cases():
    yield "default window", {}
    yield "given window, border mode and value", {"win_size": W, "mode": SS["mode"], "cval": SS["cval"]}


UQ = {"K1": const(0), "K2": const(0), "gaussian_weights": FALSE}


# ---------------------------------------------------------------- GSM
def gsm_cases():
    yield "default options", {}
    yield "all options given", {"c": sym("c", "float"), "p": sym("p", "float")}


def gsm_ref(nf, val, r, m, opts):
    """Rat of the published formula, over the kernels the result uses for both images"""
    ks = {r: set(), m: set()}
    gs = {r: set(), m: set()}
    for t in subterms(val):
        if t.op == "call" and t.args[0] in ("scipy.ndimage.correlate", "scipy.ndimage.convolve"):
            d = dict(zip(("input", "weights"), t.args[1]))
            d.update(dict(t.args[2]))
            for img in (r, m):
                if nf.rat(d["input"]).same(nf.rat(img)):
                    ks[img].add(nf.key(d["weights"]))
                    gs[img].add(nf.key(t))
    if ks[r] != ks[m] or len(ks[r]) < 4:
        raise Unknown(f"{len(ks[r])} gradient kernels are applied to the reference and {len(ks[m])} to the modified image, not the same ones")
    x = sym("#x", "array")
    fn = ("fn", nf.key(mk("call", "numpy.mean", (mk("call", "numpy.abs", (x,), ()),), ())))
    g = {i: nf.at("argmax", frozenset(gs[i]), fn) for i in (r, m)}
    gk = {i: ("R", nf.rk(g[i])) for i in (r, m)}
    top = nf.at("max", frozenset(("R", nf.rk(nf.at("amax", nf.rk(g[i])))) for i in (r, m)))
    c, p = nf.rat(opts.get("c", const(200))), nf.rat(opts.get("p", const(0.1)))
    k = nf.div(c, top)
    q = nf.div(nf.abs(g[r] - g[m]), nf.at("argmax", frozenset(gk.values()), fn))
    one = C(1)
    s = nf.div(C(2) * (one - q) + k, one + nf.pw(one - q, 2) + k)
    lum = one - nf.pw(nf.div(nf.rat(r) - nf.rat(m), nf.rat(DR)), 2)
    w = nf.mul(p, s)
    return nf.at("nanmean", nf.rk(nf.mul(one - w, s) + nf.mul(w, lum)))


# ---------------------------------------------------------------- MAD
def mad_cases(tier):
    """(label, options, beta_1, beta_2, weights)"""
    b1, b2 = sym("beta_1", "float"), sym("beta_2", "float")
    ws = [const(x) for x in (0.5, 0.75, 1, 5, 6)]
    yield "default options", {}, X(0.467), X(0.13), ws, 4
    yield "beta_1 and beta_2 given", {"beta_1": b1, "beta_2": b2}, X(b1), X(b2), ws, 4
    t1, t2 = X(2.55), X(3.35)
    yield "thresh_1 and thresh_2 given", {"thresh_1": t1.t, "thresh_2": t2.t}, fcall("numpy.exp", X(-2.55) / t2), 1 / (fcall("numpy.log", X(10)) * t2), ws, 4
    w = [sym(f"weight {i}", "float") for i in range(3)]
    yield "weights of three scales given", {"scales_num": const(3), "orientations_num": const(2), "weights": tup(*w)}, X(0.467), X(0.13), w, 2


def oneshape(r, m):
    """the images have equal shapes, one of them stands for both"""
    d = {mk("shape", m): mk("shape", r)}
    d.update({mk("dim", m, i): mk("dim", r, i) for i in range(3)})
    return d


def consistent(p, d):
    """do the path's assumptions agree when both images have the same shape?"""
    seen = {}
    for k, v in p.st.conds.items():
        if seen.setdefault(subst(k, d), v) != v:
            return False
    return True


def mad_parts(nf, v):
    """(detection, appearance, exponent) of detection**a * appearance**(1 - a)"""
    r = nf.rat(v)
    if set(r.d) == {ONE} and len(r.n) == 1:
        (mono, c), = r.n.items()
        ps = [a for a, k in mono if a.k[0] == "pow" and k == 1]
        if len(ps) == 2 and len(mono) == 2 and c == r.d[ONE]:
            return [(nf.rats[a.k[1]], nf.rats[a.k[2]]) for a in ps]
    return None


def mad_check(rep, e, tier):
    cls = metric(e, "MAD")
    loc = fi_loc(e, score_fi(e, cls))

    def bad(label, msg):
        rep.bad("formula", "MAD.score", loc, f"MAD, {label}: {msg}")
    for dtype in ("float32", "uint8") if tier == "quick" else ("float32", "float64", "uint8", "uint16", "int16"):
        for label, opts, b1, b2, ws, orient in mad_cases(tier):
            label = f"{dtype}, {label}"
            seen = set()
            for p in scores(e, cls, R, M, opts, "2d", dtype):
                if p.kind != "ret":
                    continue
                p.val = strip_ids(p.val)
                lt = loaded_terms(p.val)
                if set(lt) == {R, M} and not consistent(p, oneshape(lt[R], lt[M])) or p.val in seen:
                    continue
                seen.add(p.val)
                rep.ob("formula", what=f"MAD, {label}")
                nf = nform(e, raw=True)
                nf.st = p.st
                lt = loaded_terms(p.val)
                if set(lt) != {R, M}:
                    bad(label, "the result does not depend on both images")
                    continue
                r, m = lt[R], lt[M]
                p.val = subst(p.val, oneshape(r, m))
                try:
                    parts = mad_parts(nf, p.val)
                    if parts is None:
                        bad(label, "the result is not detection**alpha * appearance**(1 - alpha)")
                        continue
                    one = C(1)
                    for (d, x), (a, y) in (parts, parts[::-1]):
                        if nf.same(x, nf.div(one, one + nf.mul(nf.rat(b1.t), nf.power(d, nf.rat(b2.t))))):
                            break
                    else:
                        bad(label, "neither exponent is 1 / (1 + beta_1 * detection**beta_2)")
                        continue
                    if not nf.same(x + y, one):
                        bad(label, "the exponents of detection and appearance do not add up to 1")
                        continue
                    check_appearance(rep, nf, a, p.val, r, m, ws, orient, label, bad)
                    check_detection(rep, nf, d, p.val, r, m, label, bad)
                except Unknown as u:
                    bad(label, f"the result is not the published formula ({u})")
            if not seen:
                raise AnalysisBroken(f"MAD never returns for {label}")


def check_appearance(rep, nf, a, val, r, m, ws, orient, label, bad):
    """root mean square of the weighted differences of the block statistics of the filter responses"""
    stats = [t for t in subterms(val) if t.op == "call" and t.args[0].endswith(".getstatistics")]
    base = {}
    for t in stats:
        for v in subterms(t):
            if v.op == "view" and len(v.args[2]) == 2 and loaded_terms(v.args[0]):
                base.setdefault(frozenset(loaded_terms(v.args[0])), set()).add((v.args[0], v.args[1], t))
    rs = base.get(frozenset([R]), set())
    if len({(b, s) for b, s, t in rs}) != 1:
        rep.ob("undecided", what=f"MAD, {label}: appearance stage not recognised")
        return
    b, spec, t = next(iter(rs))
    swap = {r: m}
    back = oneshape(r, m)

    def st(img, s, o, k):
        v = mk("view", b, spec, ((0, const(s)), (1, const(o))))
        old = [x for x in subterms(t) if x.op == "view" and x.args[0] is b][0]
        q = subst(t, {old: v})
        if img is m:
            q = subst(subst(q, swap), back)
        return X(mk("getitem", q, const(k)))
    tot = None
    wsum = X(ws[0])
    for w in ws[1:]:
        wsum = wsum + X(w)
    for s, w in enumerate(ws):
        for o in range(orient):
            d = [fcall("numpy.abs", st(r, s, o, k) - st(m, s, o, k)) for k in range(3)]
            x = X(w) / wsum * (d[0] + 2 * d[1] + d[2])
            tot = x if tot is None else tot + x
    ref = nf.rat(tot.t)
    rep.ob("appearance", what=f"MAD, {label}")
    # appearance**2 * size must be the sum of squares of the cropped map
    sq = nf.pw(a, 2)
    for at in list(sq.atoms()):
        if at.k[0] == "sum" and len(sq.n) == 1:
            inner = nf.rats[at.k[1]]
            (mono, c), = inner.n.items() if len(inner.n) == 1 else ((None, None),)
            if mono is not None and len(mono) == 1 and mono[0][1] == 2 and c == 1 and inner.d == pconst(1):
                z = mono[0][0]
                if z.k[0] == "crop" and nf.same(nf.rats[z.k[1]], ref):
                    (dm, dc), = sq.d.items() if len(sq.d) == 1 else ((None, None),)
                    (nm, nc), = sq.n.items()
                    if dm is not None and len(dm) == 1 and dm[0][0].k[0] == "size" and dm[0][1] == 1 and nc == dc and len(nm) == 1 and nm[0][1] == 1:
                        return
    bad(label, "the appearance part is not the root mean square of weight * (|std difference| + 2 |skewness difference| + |kurtosis difference|) of the two images' filter responses, "
               "weights normalised to 1")


def check_detection(rep, nf, d, val, r, m, label, bad):
    """200 times the root mean square of visibility * local mean squared error"""
    rep.ob("detection", what=f"MAD, {label}")
    sq = nf.pw(d, 2)
    diff = nf.pw(nf.rat(r) - nf.rat(m), 2)
    err = None
    for at in list(sq.atoms()):
        if at.k[0] == "sum" and len(sq.n) == 1:
            inner = nf.rats[at.k[1]]
            if len(inner.n) == 1 and inner.d == pconst(1):
                (mono, c), = inner.n.items()
                if len(mono) == 1 and mono[0][1] == 2 and c == 1 and mono[0][0].k[0] == "crop":
                    z = nf.rats[mono[0][0].k[1]]
                    (nm, nc), = sq.n.items()
                    (dm, dc), = sq.d.items() if len(sq.d) == 1 else ((None, None),)
                    if dm is None or len(dm) != 1 or dm[0][0].k[0] != "size" or dm[0][1] != 1 or len(nm) != 1 or nm[0][1] != 1 or nc / dc != 40000:
                        break
                    for m2 in z.n:
                        for f, k in m2:
                            if f.k[0] == "filter" and f.k[1] in ("convolve", "correlate", "uniform_filter") and k == 1 and nf.same(nf.rats[f.k[2]], diff):
                                err = f
    if err is None:
        bad(label, "the detection part is not 200 times the root mean square of (visibility * local mean of the squared difference of the images)")


# ---------------------------------------------------------------- the check
def source(e, v, cls):
    return fi_loc(e, score_fi(e, cls))


def lterm(e, cls, which, kind, dtype):
    """term of the loaded image"""


def loaded_terms(v):
    d = {}
    for t in subterms(v):
        if loaded(t):
            d[loaded_src(t)] = t
    return d


def compare(rep, rule, e, nf, p, ref, label, cls, what):
    rep.ob(rule, what=label)
    nf.st = p.st
    try:
        a, b = nf.rat(p.val), nf.rat(ref)
    except Unknown as x:
        a = b = None
        msg = str(x)
    if a is None or not a.same(b):
        rep.bad(rule, f"{cls.args[1]}.score", fi_loc(e, score_fi(e, cls)), f"{label}: the result is not {what}" +
                (f"; it is {describe(nf, a)[:300]}" if a is not None else f" ({msg})"))


def ssim_like(rep, e, name, cases, fixed, what, tier):
    cls = metric(e, name)
    for kind in ("2d", "3d"):
        for dtype in ("float32", "uint8") if tier == "quick" else ("float32", "float64", "uint8", "uint16", "int16"):
            for label, opts in cases():
                nf = nform(e)
                n = 0
                for p in scores(e, cls, R, M, opts, kind, dtype):
                    if p.kind != "ret":
                        continue
                    lt = loaded_terms(p.val)
                    if set(lt) != {R, M}:
                        rep.ob("formula")
                        rep.bad("formula", f"{name}.score", fi_loc(e, score_fi(e, cls)), f"{name}, {kind} {dtype}, {label}: the result does not depend on both images")
                        continue
                    n += 1
                    compare(rep, "formula", e, nf, p, ssim_ref(lt[R], lt[M], dict(opts, **fixed), img_rank(kind)), f"{name}, {kind} {dtype}, {label}", cls, what)
                if not n:
                    raise AnalysisBroken(f"{name} never returns for {kind} {dtype}, {label}")


def gsm_check(rep, e, tier):
    cls = metric(e, "GSM")
    for kind, extra in (("2d", {}), ("3d", {"dim": const(0), "experimental": TRUE}), ("3d", {"dim": const(1), "im_slice": const(3)})):
        for dtype in ("float32", "uint8") if tier == "quick" else ("float32", "float64", "uint8", "uint16", "int16"):
            for label, opts in gsm_cases():
                label = f"GSM, {kind} {dtype}, {label}" + "".join(f", {k}={show(v)}" for k, v in extra.items())
                seen = set()
                for p in scores(e, cls, R, M, dict(opts, **extra), kind, dtype):
                    if p.kind != "ret" or p.val in seen:
                        continue
                    seen.add(p.val)
                    nf = nform(e)
                    nf.st = p.st
                    rep.ob("formula", what=label)
                    try:
                        lt = loaded_terms(p.val)
                        if set(lt) != {R, M}:
                            raise Unknown("it does not depend on both images")
                        r, m = lt[R], lt[M]
                        if "im_slice" in extra:
                            r, m = plane(p.val, r), plane(p.val, m)
                        got, ref = nf.rat(p.val), gsm_ref(nf, p.val, r, m, opts)
                        if not nf.same(got, ref):
                            raise Unknown(f"it is {describe(nf, got)[:300]}")
                    except Unknown as x:
                        rep.bad("formula", "GSM.score", fi_loc(e, score_fi(e, cls)), f"{label}: the result is not the mean of the gradient similarity formula ({x})")
                if not seen:
                    raise AnalysisBroken(f"{label} never returns")


def plane(val, img):
    vs = {t for t in subterms(val) if t.op == "view" and t.args[0] is img}
    if len(vs) != 1:
        raise Unknown(f"{len(vs)} different planes of one image enter the result")
    return vs.pop()


def simple_check(rep, e, tier):
    for name, ref in (("RMSE", lambda r, m: sqrt(mse(r, m))), ("PSNR", lambda r, m: 10 * fcall("numpy.log10", X(DR) ** 2 / mse(r, m)))):
        cls = metric(e, name)
        for kind in ("2d", "3d"):
            for dtype in ("float32", "uint8", "uint16"):
                n = 0
                for p in scores(e, cls, R, M, {}, kind, dtype):
                    if p.kind != "ret":
                        continue
                    n += 1
                    label = f"{name}, {kind} {dtype}"
                    if name == "PSNR" and equal_images(p):
                        rep.ob("formula", what=label + ", equal images")
                        if not infinite(p.val):
                            rep.bad("formula", f"{name}.score", fi_loc(e, score_fi(e, cls)), f"{label}: equal images do not give infinity")
                        continue
                    lt = loaded_terms(p.val)
                    if set(lt) != {R, M}:
                        rep.ob("formula", what=label)
                        rep.bad("formula", f"{name}.score", fi_loc(e, score_fi(e, cls)), f"{label}: the result does not depend on both images")
                        continue
                    compare(rep, "formula", e, nform(e), p, ref(lt[R], lt[M]).t, label, cls,
                            "the root of the mean squared difference" if name == "RMSE" else "10 log10(data_range^2 / mean squared difference)")
                if not n:
                    raise AnalysisBroken(f"{name} never returns for {kind} {dtype}")


def mse(r, m):
    d = (X(r) - X(m)) ** 2
    return fcall("numpy.mean", d)


def infinite(v):
    return v.op == "ext" and v.args[0] in ("numpy.inf", "math.inf", "numpy.Inf") or is_const(v) and cval(v) == float("inf")


@register("C33", "SSIM, UQI, GSM, RMSE, PSNR and MAD follow their published formula", AN)
def c33(rep, tier):
    rep.rule("formula", "on every returning path the normal form of the score equals that of the published formula over the two loaded images, for symbolic option values")
    e = engine()
    ssim_like(rep, e, "SSIM", ssim_cases, {}, "mean(luminance^alpha * contrast^beta * structure^gamma) with the local statistics of the chosen window", tier)
    ssim_like(rep, e, "UQI", uqi_cases, UQ, "the universal quality index over a uniform window", tier)
    simple_check(rep, e, tier)
    gsm_check(rep, e, tier)
    mad_check(rep, e, tier)
    rep.floor("formula", 40)


# ---------------------------------------------------------------- symmetry
def sym_cases(tier):
    """(metric, kind, label, options)"""
    for kind in ("2d", "3d"):
        for label, o in ssim_cases():
            yield "SSIM", kind, label, o
        for label, o in uqi_cases():
            yield "UQI", kind, label, o
        for name in ("RMSE", "PSNR"):
            yield name, kind, "default options", {}


def clash(nf, a, b, d):
    """do the assumptions of two paths contradict each other?"""
    ka = {nf.key(subst(k, d)): v for k, v in a.st.conds.items()}
    return any(ka.get(nf.key(subst(k, d)), v) != v for k, v in b.st.conds.items())


@register("C24", "Swapping the two images does not change SSIM, UQI, RMSE and PSNR", AN)
def c24(rep, tier):
    rep.rule("symmetric", "for any two compatible paths of score(a, b) and score(b, a) the normal forms of the results are equal")
    e = engine()
    for name, kind, label, opts in sym_cases(tier):
        cls = metric(e, name)
        loc = fi_loc(e, score_fi(e, cls))
        for dtype in ("float32", "uint8") if tier == "quick" else ("float32", "float64", "uint8", "uint16", "int16"):
            what = f"{name}, {kind} {dtype}, {label}"
            p1 = scores(e, cls, R, M, opts, kind, dtype)
            p2 = scores(e, cls, M, R, opts, kind, dtype)
            if not any(p.kind == "ret" for p in p1) or not any(p.kind == "ret" for p in p2):
                raise AnalysisBroken(f"{what}: never returns")
            lt = {}
            for p in p1 + p2:
                if p.kind == "ret":
                    lt.update(loaded_terms(p.val))
            d = oneshape(lt[R], lt[M]) if R in lt and M in lt else {}
            nf = nform(e)
            for a in p1:
                if a.kind != "ret":
                    continue
                for b in p2:
                    if b.kind != "ret" or clash(nf, a, b, d):
                        continue
                    rep.ob("symmetric", what=what)
                    nf.st = a.st
                    try:
                        x = nf.rat(a.val)
                        nf.st = b.st
                        y = nf.rat(b.val)
                        ok, msg = nf.same(x, y), ""
                    except Unknown as u:
                        ok, msg = a.val is b.val, f" ({u})"
                    if not ok:
                        rep.bad("symmetric", f"{name}.score", loc, f"{what}: exchanging the images changes the result" + msg)
    rep.floor("symmetric", 20)


# ---------------------------------------------------------------- identity
def id_cases(tier):
    """(metric, kind, label, options, expected)"""
    for kind in ("2d", "3d"):
        for label, o in ssim_cases():
            yield "SSIM", kind, label, o, 1
        for label, o in uqi_cases():
            yield "UQI", kind, label, o, 1
        yield "RMSE", kind, "default options", {}, 0
        yield "PSNR", kind, "default options", {}, "infinity"
    for label, o in gsm_cases():
        yield "GSM", "2d", label, o, 1
        for d in range(3):
            yield "GSM", "3d", f"{label}, one slice along dim {d}", dict(o, dim=const(d), im_slice=const(1)), 1
        yield "GSM", "3d", label + ", experimental", dict(o, dim=const(0), experimental=TRUE), 1
    yield "MAD", "2d", "default options", {}, 0
    for d in range(3):
        yield "MAD", "3d", f"one slice along dim {d}", dict(dim=const(d), im_slice=const(1)), 0


@register("C29", "An image compared with itself gets the perfect score", AN)
def c29(rep, tier):
    rep.rule("perfect", "with both images the same value the normal form of the result is the perfect score: SSIM, UQI and GSM 1, RMSE and MAD 0, PSNR infinity")
    e = engine()
    for name, kind, label, opts, want in id_cases(tier):
        cls = metric(e, name)
        loc = fi_loc(e, score_fi(e, cls))
        for dtype in ("float32", "uint8") if tier == "quick" else ("float32", "float64", "uint8", "uint16", "int16"):
            what = f"{name}, {kind} {dtype}, {label}"
            n, seen = 0, set()
            for p in scores(e, cls, R, R, opts, kind, dtype):
                if p.kind != "ret" or impossible(p):
                    continue
                n += 1
                p.val = strip_ids(p.val) if name == "MAD" else p.val
                if p.val in seen:
                    continue
                seen.add(p.val)
                rep.ob("perfect", what=what)
                nf = nform(e, raw=name == "MAD")
                nf.st = p.st
                msg = ""
                try:
                    ok = infinite(p.val) if want == "infinity" else nf.rat(p.val).value() == want
                    if not ok and want != "infinity":
                        msg = f" but {describe(nf, nf.rat(p.val))[:200]}"
                except Unknown as u:
                    ok, msg = False, f" ({u})"
                if not ok:
                    rep.bad("perfect", f"{name}.score", loc, f"{what}: an image compared with itself does not get {want}{msg}")
            if not n:
                raise AnalysisBroken(f"{what}: never returns")
    rep.floor("perfect", 40)
