"""Documented helpers: fusing scores, filtering with the mean of absolute products."""
from ..harness import *
from ..linear import lin, plus
from ..project import AnalysisBroken
from ..registry import register
from ..terms import rewrite
from .formula import AN, nform
from .metrics import DR, VN, fi_loc
from .purity import K


# ---------------------------------------------------------------- fusion
def vec(t):
    """scalars of a literal vector, or None"""
    if t.op in ("listv", "tuple"):
        return None if any(isinstance(x, T) and x.op in ("each", "starof") for x in t.args) else list(t.args)
    if t.op in ("call", "alloc") and t.args[0] in ("numpy.array", "numpy.asarray", "builtins.list", "builtins.tuple", "numpy.asanyarray") and t.args[1]:
        return vec(t.args[1][0])
    if t.op in ("mul", "add", "sub"):
        a, b = (vec(x) for x in t.args)
        if a is None and b is None:
            return None
        a = a if a is not None else [t.args[0]] * len(b)
        b = b if b is not None else [t.args[1]] * len(a)
        return [mk(t.op, x, y) for x, y in zip(a, b)] if len(a) == len(b) else None
    return None


def chain(xs, start=None):
    r = const(0) if start is None else start
    for x in xs:
        r = x if is_const(r, 0) else mk("add", r, x)
    return r


def expand(t):
    def f(x):
        if x.op in ("call", "alloc") and x.args[1]:
            n, a = x.args[0], x.args[1]
            if n in ("builtins.sum", "numpy.sum", "math.fsum", "numpy.nansum"):
                v = vec(a[0])
                if v is not None and (len(a) == 1 or n == "builtins.sum"):
                    return chain(v, a[1] if len(a) > 1 else None)
            if n in ("numpy.dot", "numpy.inner", "numpy.vdot", "math.sumprod") and len(a) == 2:
                v, w = vec(a[0]), vec(a[1])
                if v is not None and w is not None and len(v) == len(w):
                    return chain([mk("mul", p, q) for p, q in zip(v, w)])
            if n in ("builtins.float", "numpy.float64") and len(a) == 1:
                return a[0]
        if x.op == "matmul":
            v, w = vec(x.args[0]), vec(x.args[1])
            if v is not None and w is not None and len(v) == len(w):
                return chain([mk("mul", p, q) for p, q in zip(v, w)])
        return x
    return rewrite(t, f)


def scored(e, n):
    """a state holding n scored metrics -> (state, references, scores)"""
    cls = [c for c in fr_metrics(e) if c.args[1] == "PSNR"][0]
    st, refs, ss = e.start(), [], []
    for i in range(n):
        ps = [p for p in construct(e, cls, kws=[("data_range", DR)], st=st) if p.kind == "ret"]
        if not ps:
            raise AnalysisBroken("PSNR cannot be constructed")
        st = ps[0].st
        refs.append(ps[0].val)
        ss.append(sym(f"score{i}", "float"))
        st.hw(ps[0].val).attrs["score_val"] = ss[-1]
    return st, refs, ss


@register("C36", "Fused scores are the weighted sum of the metrics' scores", AN)
def c36(rep, tier):
    rep.rule("sum", "the result for n scored metrics and n weights is score_1*weight_1 + … + score_n*weight_n, for all scores and weights")
    rep.rule("lengths", "different numbers of metrics and weights raise ValueError")
    rep.rule("kept", "neither the lists nor the scores of the metrics are changed")
    e = engine()
    f = func(e, "viqa.fusion", "fuse_metrics_linear_combination")
    loc = fi_loc(e, e.p.func("viqa.fusion", "fuse_metrics_linear_combination"))
    e.cfg = scenario("2d", "float64")
    top = 4 if tier == "quick" else 7
    for seq in ("listv", "tuple"):
        for n in range(top + 1):
            st, refs, ss = scored(e, n)
            for m in range(top + 1):
                ws = [sym(f"weight{i}", "float") for i in range(m)]
                lab = f"{n} metrics, {m} weights ({'list' if seq == 'listv' else seq})"
                ps = call(e, f, [T(seq, tuple(refs)), T(seq, tuple(ws))], st=st)
                for p in ps:
                    rep.ob("kept", 1, lab)
                    for r, s in zip(refs, ss):
                        if p.st.h(r).attrs.get("score_val") is not s:
                            rep.bad("kept", "score_val", loc, f"{lab}: the score of a metric is changed")
                    if n != m:
                        rep.ob("lengths", 1, lab)
                        if p.kind == "ret":
                            rep.bad("lengths", "lengths", loc, f"{lab}: a result is returned instead of ValueError")
                        elif e.exc_name(p.val) != "ValueError":
                            rep.bad("lengths", "exception", loc, f"{lab}: raises {e.exc_name(p.val)} instead of ValueError")
                        continue
                    rep.ob("sum", 1, lab)
                    if p.kind != "ret":
                        rep.bad("sum", "raises", loc, f"{lab}: raises {e.exc_name(p.val)}")
                        continue
                    v = expand(p.val)
                    if any(x.op in ("call", "alloc", "comp", "each") and any(isinstance(a, T) and vec(a) is not None for a in (x.args[1] if x.op in ("call", "alloc") else ())) or x.op in
                           ("comp", "each", "loopout", "last", "phi") for x in subterms(v)):
                        rep.ob("undecided", 1, lab)
                        continue
                    nf = nform(e)
                    nf.st = p.st
                    try:
                        ok = nf.same(nf.rat(v), nf.rat(chain([mk("mul", s, w) for s, w in zip(ss, ws)])))
                    except Exception as x:
                        if type(x).__name__ != "Unknown":
                            raise
                        rep.ob("undecided", 1, lab)
                        continue
                    if not ok:
                        rep.bad("sum", "value", loc, f"{lab}: the result is {short(v, 120)}, not the sum of score times weight")


# ---------------------------------------------------------------- correlate_convolve_abs
H = sym("#half", "int")
_MODES = {"constant": "constant", "reflect": "reflect", "nearest": "edge", "mirror": "symmetric", "wrap": "wrap"}


def kdim(t):
    """extents of the kernel -> 2*half+1, floor divisions of them resolved, extents of the image -> one symbol per axis"""
    def lf(x):
        return lin(x, {sym("#s", "int"): {H: 2, None: 1}})

    def back(d):
        r = None
        for k, c in d.items():
            y = const(c) if k is None else k if c == 1 else mk("mul", const(c), k)
            r = y if r is None else mk("add", r, y)
        return r if r is not None else const(0)

    def f(x):
        if x.op == "dim":
            b = x.args[0]
            while isinstance(b, T) and b.op in ("call", "view") and (b.op == "view" or b.args[0] in ("numpy.flip", "numpy.asarray", "numpy.array", "numpy.rot90")):
                b = b.args[1][0] if b.op == "call" else b.args[0]
            if b is K:
                return sym("#s", "int")
            return x
        if x.op == "floordiv" and is_const(x.args[1], 2) or x.op == "call" and x.args[0] == "builtins.int" and len(x.args[1]) == 1 and x.args[1][0].op == "div" and is_const(x.args[1][0].args[1], 2):
            a = x.args[0] if x.op == "floordiv" else x.args[1][0].args[0]
            d = lf(a)
            if d is not None and all(c % 2 == 0 for k, c in d.items() if k is not None):
                return back({k: c // 2 for k, c in d.items() if c // 2})
        return x
    d = lf(rewrite(t, f))
    return d


def says(d):
    return "?" if d is None else (" + ".join(str(c) if k is None else f"{c}*{k}" for k, c in d.items()) or "0")


@register("C37", "correlate_convolve_abs filters the neighbourhood of each pixel", AN)
def c37(rep, tier):
    rep.rule("window", "the value at pixel p is computed over the pixels p - h … p + h along every axis, for kernels of extent 2h+1")
    rep.rule("value", "the value is the mean of |kernel * window|, the kernel being flipped along all axes exactly for mode 'convolve'")
    rep.rule("border", "the image is continued by the mode of numpy.pad that belongs to border_mode (constant: with the given value); other modes raise ValueError")
    e = engine()
    f = func(e, "viqa.utils.misc", "correlate_convolve_abs")
    loc = fi_loc(e, e.p.func("viqa.utils.misc", "correlate_convolve_abs"))
    val = sym("value", "float")
    for kind in ("2d", "3d"):
        nd = 2 if kind == "2d" else 3
        for mode in ("correlate", "convolve"):
            for bm in list(_MODES) + ["valid", "zero"]:
                for dt in ("float64", "uint8") if tier == "quick" else ("float64", "float32", "uint8", "uint16", "int16"):
                    lab = f"{kind} {dt}, {mode}, border_mode={bm}"
                    e.cfg = scenario(kind, dt)
                    e.cfg.ndims[K] = nd
                    ps = call(e, f, [I, K], [("mode", const(mode)), ("border_mode", const(bm)), ("value", val)])
                    rep.ob("border", 1, lab)
                    if bm not in _MODES:
                        if any(p.kind == "ret" for p in ps):
                            rep.bad("border", bm, loc, f"{lab}: the unknown mode is accepted")
                        continue
                    rets = [p for p in ps if p.kind == "ret"]
                    if not rets:
                        rep.bad("border", bm, loc, f"{lab}: always raises")
                    for p in rets:
                        evs = [ev for ev in p.st.events if ev.kind == "setitem" and len(ev.loops) >= nd]
                        if not evs:
                            rep.ob("undecided", 1, lab)
                        for ev in evs:
                            one(rep, e, ev, lab, nd, mode, bm, val)


def strip(t, *names):
    """argument of the outermost call when it is one of names"""
    if t.op in ("call", "alloc") and t.args[0] in names and t.args[1] and not [k for k, _ in t.args[2] if k not in ("dtype",)]:
        return t.args[1][0]
    return None


def one(rep, e, ev, lab, nd, mode, bm, val):
    loc = ev.loc
    v = strip(ev.a[2], "numpy.mean")
    v = strip(v, "builtins.abs", "numpy.abs", "numpy.absolute") if v is not None else None
    if v is None or v.op != "mul":
        bad = ev.a[2].op in ("call", "alloc") and ev.a[2].args[0] in ("numpy.sum", "numpy.max", "numpy.median", "numpy.mean", "builtins.abs", "numpy.abs")
        rep.ob("value" if bad else "undecided", 1, lab)
        if bad:
            rep.bad("value", "shape", loc, f"{lab}: the value is {short(ev.a[2], 60)}, not mean(|kernel * window|)")
        return
    w = next((x for x in v.args if x.op == "getitem"), None)
    k = next((x for x in v.args if x is not w), None)
    if w is None or k is None:
        rep.ob("undecided", 1, lab)
        return
    rep.ob("value", 1, lab)
    flip = False
    if k.op == "call" and k.args[0] == "numpy.flip" and k.args[1]:
        if len(k.args[1]) > 1 or dict(k.args[2]).get("axis", NONE) is not NONE:
            rep.bad("value", "flip", loc, f"{lab}: the kernel is flipped along some axes only")
        flip, k = True, k.args[1][0]
    elif k.op == "view" and k.args[0] is K:
        fl = [s[1] for s in k.args[1]]
        if any(fl) and not all(fl):
            rep.bad("value", "flip", loc, f"{lab}: the kernel is flipped along some axes only")
        flip, k = all(fl), K
    if k is not K:
        rep.ob("undecided", 1, lab)
    elif flip != (mode == "convolve"):
        rep.bad("value", "flip", loc, f"{lab}: the kernel is {'' if flip else 'not '}flipped")
    pad, ix = w.args
    if pad.op not in ("call", "alloc") or pad.args[0] != "numpy.pad" or pad.args[1][0] is not I or ix.op != "tuple" or len(ix.args) != nd:
        rep.ob("undecided", 1, lab)
        return
    kw = dict(pad.args[2])
    pm = pad.args[1][2] if len(pad.args[1]) > 2 else kw.get("mode", const("constant"))
    rep.ob("border", 1, lab)
    if not is_const(pm, _MODES[bm]):
        rep.bad("border", bm, loc, f"{lab}: the image is padded with mode {short(pm)}, not {_MODES[bm]!r}")
    if bm == "constant" and kw.get("constant_values") is not val:
        rep.bad("border", "value", loc, f"{lab}: the border is filled with {short(kw['constant_values']) if 'constant_values' in kw else '0'}, not with the given value")
    width = kdim(pad.args[1][1] if len(pad.args[1]) > 1 else kw.get("pad_width"))
    at = ev.a[1].args if ev.a[1].op == "tuple" else ()
    if width is None or len(at) != nd:
        rep.ob("undecided", 1, lab)
        return
    rep.ob("window", nd, lab)
    for a in range(nd):
        s = ix.args[a]
        p = at[a]
        if s.op != "slice" or not is_const(s.args[2], None, 1):
            rep.ob("undecided", 1, lab)
            continue
        lo, hi, pp = kdim(s.args[0]), kdim(s.args[1]), kdim(p)
        if None in (lo, hi, pp):
            rep.ob("undecided", 1, lab)
            continue
        first = plus(plus(lo, width, -1), pp, -1)
        last = plus(plus(plus(hi, width, -1), pp, -1), {None: -1})
        if first != {H: -1} or last != {H: 1}:
            rep.bad("window", f"axis {a}", loc, f"{lab}: the value at p is computed over p + {says(first)} … p + {says(last)} along axis {a} for kernels of extent 2*#half+1")
        if p.op == "elem" and p.args[0].op == "call" and p.args[0].args[0] == "builtins.range":
            r = p.args[0].args[1]
            ok = len(r) == 1 and r[0] is e.dim(I, a) or len(r) == 2 and is_const(r[0], 0) and r[1] is e.dim(I, a)
            if not ok and all(q.op in ("const", "dim") for q in r):
                rep.bad("window", f"range {a}", loc, f"{lab}: pixels along axis {a} run over range({', '.join(short(q) for q in r)})")
