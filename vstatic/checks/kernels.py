"""Gradient kernels respond to the direction in their name; GSM uses the kernels of its family."""
import re

from ..consteval import NoConst, fold
from ..harness import *
from ..project import AnalysisBroken
from ..registry import register
from .formula import AN, metric, scores
from .metrics import fi_loc, score_fi

_NAME = re.compile(r"^([a-z]+)_kernel(_2d)?_([xyz]+?)(\d*)$")


def moments(a):
    """first moment along every axis, relative to the centre (doubled, exact)"""
    return [sum(v * (2 * i[k] - (a.shape[k] - 1)) for i, v in a.data.items()) for k in range(a.ndim)]


def kernel_names(e):
    env = e.base.envs.get(("mod", "viqa.kernels"))
    if env is None:
        raise AnalysisBroken("anchor vanished: viqa.kernels")
    return [(n, _NAME.match(n)) for n in sorted(env) if _NAME.match(n)]


def kernel_value(e, name):
    """the constant the public kernel function returns, or None when it cannot be folded"""
    e.cfg = scenario("2d", "float64")
    f = e.base.envs[("mod", "viqa.kernels")][name]
    vals = []
    for p in call(e, f, []):
        if p.kind != "ret":
            return None
        try:
            vals.append(fold(p.val))
        except NoConst:
            return None
    if not vals or any(not v.same(vals[0]) for v in vals):
        return None
    return vals[0]


def fn_loc(e, name):
    fi = e.p.funcs.get(("viqa.kernels", name))
    return fi_loc(e, fi) if fi else (e.p.modules["viqa.kernels"].rel, 1, name)


@register("C34", "Gradient kernels respond to the direction in their name", AN)
def c34(rep, tier):
    rep.rule("derivative", "a kernel's entries sum to zero and change sign under reflection at its centre")
    rep.rule("direction", "the first moments of a kernel vanish along every axis not in its name and are equally large along the axes in its name "
             "(3D: x, y, z = axes 0, 1, 2; 2D: x = axis 1, y = axis 0)")
    rep.rule("family", "the kernels of a family and dimensionality weigh equally, respond equally strongly within their class and are distinct up to sign")
    rep.rule("used", "GSM filters 2D images and slices with every 2D and volumes with every 3D kernel of its family and with no other")
    e = engine()
    fam = {}
    for n, m in kernel_names(e):
        a = kernel_value(e, n)
        loc = fn_loc(e, n)
        if a is None:
            rep.ob("undecided", what=n)
            continue
        two = m.group(2) is not None
        rep.ob("derivative", what=n)
        if a.ndim != (2 if two else 3) or len(set(a.shape)) != 1 or a.shape[0] % 2 != 1:
            rep.bad("derivative", n, loc, f"{n} has shape {a.shape}, not that of a centred {'2D' if two else '3D'} kernel")
            continue
        fl = a.flip(set(range(a.ndim)))
        if sum(a.data.values()) != 0:
            rep.bad("derivative", n, loc, f"the entries of {n} sum to {sum(a.data.values())}: a constant image has a gradient")
        if any(fl.data[i] != -a.data[i] for i in a.idx()):
            i = next(i for i in a.idx() if fl.data[i] != -a.data[i])
            rep.bad("derivative", n, loc, f"{n} does not change sign under reflection: {a.data[i]} at {i}, {fl.data[i]} opposite")
        axes = {("yx" if two else "xyz").index(c) for c in m.group(3)}
        mo = moments(a)
        if len(axes) < 3:
            rep.ob("direction", what=n)
            off = [k for k in range(a.ndim) if k not in axes and mo[k] != 0]
            on = {abs(mo[k]) for k in axes}
            if off:
                rep.bad("direction", n, loc, f"{n} responds to a ramp along axis {off[0]}, which is not in its name (moments {mo})")
            elif len(on) > 1 or 0 in on:
                rep.bad("direction", n, loc, f"{n} does not respond equally to the axes in its name (moments {mo})")
        fam.setdefault((m.group(1), two), []).append((n, a, len(axes), mo))
    for (f, two), ks in sorted(fam.items()):
        for j, (n, a, c, mo) in enumerate(ks):
            for n2, b, c2, mo2 in ks[:j]:
                rep.ob("family", what=f"{n} / {n2}")
                wa, wb = (sum(abs(v) for v in q.data.values()) for q in (a, b))
                if wa != wb:
                    rep.bad("family", f"{n}/{n2}", fn_loc(e, n), f"{n} weighs {wa}, {n2} weighs {wb}")
                if c == c2 and c < 3 and max(map(abs, mo)) != max(map(abs, mo2)):
                    rep.bad("family", f"{n}/{n2}", fn_loc(e, n), f"{n} responds with {max(map(abs, mo))}, {n2} with {max(map(abs, mo2))} to the same ramp")
                if a.same(b) or a.same(b.map(lambda v: -v)):
                    rep.bad("family", f"{n}/{n2}", fn_loc(e, n), f"{n} and {n2} are the same kernel")
    used(rep, e, fam)
    rep.floor("derivative", 8)


def used(rep, e, fam):
    cls = metric(e, "GSM")
    fi = score_fi(e, cls)
    loc = fi_loc(e, fi)
    for kind, opts, label in (("2d", {}, "2D images"), ("3d", dict(dim=const(0), im_slice=const(1)), "a slice of a volume"),
                              ("3d", dict(dim=const(2), experimental=TRUE), "volumes (experimental)")):
        two = "volumes" not in label
        own = [a for _, a, _, _ in fam.get(("gsm", two), [])]
        got, unknown = {}, False
        for p in scores(e, cls, R, M, opts, kind, "float64"):
            if p.kind != "ret":
                continue
            for t in subterms(p.val):
                if t.op in ("call", "alloc") and t.args[0] in ("scipy.ndimage.correlate", "scipy.ndimage.convolve"):
                    w = t.args[1][1] if len(t.args[1]) > 1 else dict(t.args[2]).get("weights")
                    try:
                        got[w] = fold(w)
                    except NoConst:
                        unknown = True
        if not got or unknown or not own:
            rep.ob("undecided", what=f"GSM, {label}")
            continue
        ks = list(got.values())
        rep.ob("used", what=f"GSM, {label}: {len(ks)} kernels")
        for a in ks:
            if not any(a.same(b) or a.same(b.map(lambda v: -v)) or a.same(b.flip(set(range(b.ndim)))) for b in own):
                rep.bad("used", f"GSM.score {label}", loc, f"GSM filters {label} with a kernel that is none of the {'2D' if two else '3D'} GSM kernels (shape {a.shape})")
        for n, b, _, _ in fam[("gsm", two)]:
            if not any(a.same(b) or a.same(b.map(lambda v: -v)) for a in ks):
                rep.bad("used", f"GSM.score {label} {n}", loc, f"GSM does not filter {label} with {n}")
