"""Shared scenario set-up for the checks: which entry points exist, under which partition of the
configuration space they are analysed, and helpers to read results."""
import ast

from .engine import Config, Engine, Fr, HObj
from .project import AnalysisBroken
from .terms import FALSE, NONE, TRUE, T, const, cval, is_const, mk, show, strip_ids, subst, subterms, sym, tup

NODE = ast.parse("x", mode="eval").body
NODE.lineno = 0
R, M = sym("img_r", "array"), sym("img_m", "array")
I = sym("img", "array")

LOAD = "viqa.utils.loading.load_data"
# result-defining computations of the metrics (public functions of the package / of its libraries)
KERNEL_FUNCS = {
    "viqa.fr_metrics.ssim.structural_similarity": ("img_r", "img_m"),
    "viqa.fr_metrics.gsm.gradient_similarity": ("img_r", "img_m"),
    "viqa.fr_metrics.mad.most_apparent_distortion": ("img_r", "img_m"),
    "viqa.nr_metrics.cnr.contrast_to_noise_ratio": ("img",),
    "viqa.nr_metrics.snr.signal_to_noise_ratio": ("img",),
}
# positional parameter names of the external kernels
EXT_KERNELS = {
    "piq.fsim": ("x", "y", "reduction", "data_range", "chromatic", "scales", "orientations", "min_length", "mult", "sigma_f",
                 "delta_theta", "k"),
    "piq.vsi": ("x", "y", "reduction", "data_range", "c1", "c2", "c3", "alpha", "beta", "omega_0", "sigma_f", "sigma_d", "sigma_c"),
    "piq.multi_scale_ssim": ("x", "y", "kernel_size", "kernel_sigma", "data_range", "reduction", "scale_weights", "k1", "k2"),
    "piq.vif_p": ("x", "y", "sigma_n_sq", "data_range", "reduction"),
    "skimage.metrics.mean_squared_error": ("image0", "image1"),
    "skimage.metrics.peak_signal_noise_ratio": ("image_true", "image_test"),
}


def loaded(t):
    return t.op == "opaque" and t.args[0] == LOAD


def loaded_src(t):
    return dict(t.args[1])["img"]


_engine = None


def engine():
    global _engine
    if _engine is None:
        _engine = Engine()
    _engine.cfg = Config()
    _engine.excs = [[]]
    return _engine


class Path:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val):
        self.kind, self.st, self.val = kind, st, val

    def events(self, *kinds):
        return [e for e in self.st.events if e.kind in kinds]

    def conds(self):
        return self.st.conds


def run(e, thunk):
    """thunk() -> [(state, value)]; collects exceptional outcomes too."""
    e.excs = [[]]
    rs = thunk()
    ps = [Path("ret", s, v) for s, v in rs]
    ps += [Path("exc", s, x) for s, x in e.excs[0]]
    e.excs = [[]]
    return ps


def top_frame(mod="viqa"):
    return Fr(None, mod, ("mod", mod), (), None, None, 0, (), ())


def call(e, f, pos, kws=(), rest=None, st=None):
    st = st.fork() if st else e.start()
    return run(e, lambda: e.call(f, list(pos), list(kws), rest, None, top_frame(), st, NODE))


def func(e, mod, qual):
    e.p.func(mod, qual)
    return mk("func", mod, qual)


def construct(e, cls, pos=(), kws=(), rest=None, st=None):
    """-> list of Path whose val is the reference of the new object (kind ret)."""
    st = st.fork() if st else e.start()
    return run(e, lambda: e.instantiate(cls, list(pos), list(kws), rest, top_frame(), st, NODE))


def method(e, st, ref, name, pos=(), kws=(), rest=None):
    e.excs = [[]]
    st = st.fork()
    b = e.getattr(ref, name, top_frame(), st, NODE)
    if not b:
        raise AnalysisBroken(f"no method {name}")
    return run(e, lambda: e.call(b[0][1], list(pos), list(kws), rest, None, top_frame(), b[0][0], NODE))


def subclasses(e, base_mod, base_name):
    base = mk("class", base_mod, base_name)
    out = []
    for (m, c), ci in sorted(e.p.classes.items()):
        k = mk("class", m, c)
        if k is not base and base in e.mro(k):
            out.append(k)
    return out


def fr_metrics(e):
    r = subclasses(e, "viqa._metrics", "FullReferenceMetricsInterface")
    if len(r) < 10:
        raise AnalysisBroken(f"expected at least 10 full-reference metrics, found {len(r)}")
    return r


def nr_metrics(e):
    r = subclasses(e, "viqa._metrics", "NoReferenceMetricsInterface")
    if len(r) < 3:
        raise AnalysisBroken(f"expected at least 3 no-reference metrics, found {len(r)}")
    return r


def method_info(e, cls, name):
    for c in e.mro(cls):
        if c.op == "class" and c.args in e.p.classes and name in e.p.classes[c.args].methods:
            return e.p.classes[c.args].methods[name]
    raise AnalysisBroken(f"anchor vanished: {cls.args[1]}.{name}")


def params(fi):
    a = fi.node.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]


def has_kwargs(fi):
    return fi.node.args.kwarg is not None


def img_rank(kind):
    return {"2d": 2, "3d": 3, "rgb": 3}[kind]


def scenario(kind="2d", dtype="uint8", kwabsent=True, opaque=(), sinks=(), facts=None, maxpaths=4000, load_opaque=True, imgs=(R, M, I),
             nonempty=True, iter_fn=None):
    """Configuration: images of one kind ('2d', '3d' with every extent > 3, 'rgb') and one dtype."""
    rank = img_rank(kind)

    def is_img(t):
        return t in imgs or loaded(t)

    def ndim_fn(t):
        return rank if is_img(t) else None

    def dtype_fn(t):
        return dtype if is_img(t) else None

    def isinst_fn(x, short, st):
        if loaded(x):
            if short in ("ndarray", "ImageArray", "object"):
                return True
            return False
        return None

    def is_extent(t):
        """extent of an axis of an input image (possibly seen through shape-preserving operations)"""
        return t.op == "dim" and (is_img(t.args[0]))

    def fct(key):
        if facts is not None:
            v = facts(key)
            if v is not None:
                return v
        if key.op == "eq":
            for a, b in (key.args, key.args[::-1]):
                if is_const(b) and is_extent(a):
                    if kind == "rgb" and a.args[1] == 2:
                        return cval(b) == 3
                    if isinstance(cval(b), int) and cval(b) <= 3:
                        return False
        if key.op == "lt":
            a, b = key.args
            if is_const(a) and is_extent(b) and isinstance(cval(a), int):
                if kind == "rgb" and b.args[1] == 2:
                    return cval(a) < 3
                if cval(a) <= 3:
                    return True
            if is_const(b) and is_extent(a) and isinstance(cval(b), int):
                if kind == "rgb" and a.args[1] == 2:
                    return 3 < cval(b)
                if cval(b) <= 4:
                    return False
        return None
    op = set(opaque)
    if load_opaque:
        op.add(LOAD)
    return Config(facts=fct, opaque=op, sinks=set(sinks), kwabsent=kwabsent, maxpaths=maxpaths, ndim_fn=ndim_fn, dtype_fn=dtype_fn,
                  isinst_fn=isinst_fn, nonempty=nonempty, iter_fn=iter_fn)


# ---------------------------------------------------------------- reading array terms
_ELEMENTWISE = {"numpy.astype", "numpy.asarray", "numpy.array", "numpy.copy", "numpy.ascontiguousarray", "numpy.asanyarray",
                "numpy.asfortranarray", "numpy.require", "numpy.float32", "numpy.float64", "numpy.nan_to_num",
                "torch.tensor", "torch.as_tensor", "torch.from_numpy"}


def peel(e, t):
    """-> (core, spec, fixed): the array a value is a re-ordered / indexed / type-converted copy of."""
    ops = []
    while True:
        if t.op == "view":
            ops.append(("view", t.args[1], t.args[2]))
            t = t.args[0]
        elif t.op == "call" and t.args[0] in _ELEMENTWISE and t.args[1]:
            ops.append(("ew", t.args[0]))
            t = t.args[1][0]
        elif t.op == "mcall" and t.args[1] in ("float", "double", "to", "contiguous", "half", "clone"):
            ops.append(("ew", t.args[1]))
            t = t.args[0]
        else:
            break
    n = e.ndim(t)
    if n is None:
        return t, None, None
    spec = [(i, False, ()) for i in range(n)]
    fixed = {}
    for o in reversed(ops):
        if o[0] != "view":
            continue
        ns = []
        for s in o[1]:
            if s[0] == "new":
                ns.append(s)
                continue
            q = spec[s[0]]
            if q[0] == "new":
                ns.append(q)
            elif q[2] and s[1]:
                ns.append((q[0], q[1], q[2] + (("flip",),) + s[2]))
            else:
                ns.append((q[0], q[1] != s[1], q[2] + s[2]))
        for ax, ix in o[2]:
            q = spec[ax]
            if q[0] == "new":
                continue
            fixed[q[0]] = ix if not (q[1] or q[2]) else mk("reidx", ix, q[1], q[2])
        spec = ns
    return t, spec, fixed


def bind_kernel(ev):
    """Event of a kernel invocation -> (label, {param: value}) or None."""
    if ev.kind == "sink":
        return ev.a[0], dict(ev.a[1])
    if ev.kind == "ext":
        names = EXT_KERNELS.get(kern_name(ev.a[0]))
        if names is None:
            return None
        d = dict(zip(names, ev.a[1]))
        for k, v in ev.a[2]:
            d[k] = v
        return kern_name(ev.a[0]), d
    return None


def kern_name(n):
    parts = n.split(".")
    if parts[0] == "piq":
        return "piq." + parts[-1]
    if parts[0] == "skimage" and "metrics" in parts:
        return "skimage.metrics." + parts[-1]
    return n


def where(loc):
    return f"{loc[0]}:{loc[1]} in {loc[2]}"


def short(t, n=200):
    s = show(t)
    return s if len(s) <= n else s[:n] + "…"
