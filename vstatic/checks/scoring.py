"""What score() records, which image plays which role, what is loaded, what is rejected."""
from .metrics import *

QCALC = "qmeasurecalc.qmeasure"
CHROM = ("FSIM", "PSNR", "RMSE", "VSI", "MSSSIM", "VIFp")
SC, BC, RAD = sym("signal_center"), sym("background_center"), sym("radius", "int")


def is_kernel(ev):
    if bind_kernel(ev) is not None:
        return True
    return ev.kind in ("ext", "mcall") and any(isinstance(a, str) and a.endswith("qmeasure") for a in ev.a[:2])


def fr_cases(e, dtypes=("uint8",), **kw):
    """(class, label, configure(), build arguments, positional, keywords) for every full-reference metric and image kind"""
    for cls in fr_metrics(e):
        fi = score_fi(e, cls)
        name = cls.args[1]
        for dt in dtypes:
            cases = [("2d", False, [])]
            if takes_dim(fi):
                for d in (0, 1, 2):
                    cases.append(("3d", False, [("dim", const(d)), ("im_slice", S)]))
                    cases.append(("3d", False, [("dim", const(d))]))
            else:
                cases.append(("3d", False, []))
            cases.append(("rgb", False, []))
            if name in CHROM:
                cases.append(("rgb", True, []))
            if name == "SSIM":
                cases.append(("rgb", True, [("color_weights", sym("color_weights", "array"))]))
            for kind, chrom, kws in cases:
                lab = f"{name} {kind}{' chromatic' if chrom else ''} {dt} " + ",".join(f"{k}={short(v, 20)}" for k, v in kws)
                yield cls, name, lab, kind, dt, chrom, kws


def nr_cases(e, dtypes=("uint8",)):
    for cls in nr_metrics(e):
        name = cls.args[1]
        for dt in dtypes:
            for kind in ("2d", "3d", "rgb"):
                if name == "CNR":
                    kws = [("signal_center", SC), ("background_center", BC), ("radius", RAD)]
                elif name == "SNR":
                    kws = [("signal_center", SC), ("radius", RAD)]
                else:
                    kws = []
                yield cls, name, f"{name} {kind} {dt}", kind, dt, kws


def fr_paths(e, cls, kind, dt, chrom, kws, sinks=KERNEL_FUNCS, opaque=(), facts=None, load_opaque=True, cfg=None, pos=None, ctor=()):
    e.cfg = cfg or scenario(kind, dt, sinks=sinks, opaque=opaque, facts=facts, load_opaque=load_opaque)
    out = []
    for st, ref in build(e, cls, chromatic=chrom, **dict(ctor)):
        base = len(st.events)
        for p in method(e, st, ref, "score", pos or [R, M], kws):
            out.append((p, ref, base))
    return out


def nr_paths(e, cls, kind, dt, kws, sinks=KERNEL_FUNCS, opaque=(), facts=None, load_opaque=True, cfg=None, ctor=()):
    e.cfg = cfg or scenario(kind, dt, sinks=sinks, opaque=opaque, facts=facts, load_opaque=load_opaque)
    out = []
    for st, ref in build(e, cls, **dict(ctor)):
        base = len(st.events)
        for p in method(e, st, ref, "score", [I], kws):
            out.append((p, ref, base))
    return out


def strip_num(t):
    while t.op == "call" and t.args[0] in ("builtins.float", "numpy.float64", "numpy.float32", "numpy.asarray", "numpy.array") and t.args[1]:
        t = t.args[1][0]
    if t.op == "mcall" and t.args[1] in ("item", "numpy", "cpu", "detach", "double", "float"):
        return strip_num(t.args[0])
    return t


@register("C02", "A metric records exactly the score it returns", VN)
def c02(rep, tier):
    e = engine()
    rep.rule("recorded", "on every path on which score() returns, the recorded score is the returned value (up to conversion to a float)")
    rep.rule("kept", "on every path on which score() raises the recorded score is not touched, and nothing that can fail follows the recording")
    rep.rule("number", "the recorded score is a number computed by the metric (or a tuple of them for colour), never a container of bookkeeping data")
    rep.floor("recorded", 60)
    rep.floor("kept", 60)
    dts = ("uint8", "float32") if tier == "quick" else ("uint8", "uint16", "int16", "float32", "float64")

    def check(cls, name, lab, res):
        fi = score_fi(e, cls)
        rep.functions.add(fi.label)
        loc = fi_loc(e, fi)
        for p, ref, base in res:
            evs = p.st.events[base:]
            sets = [(i, ev) for i, ev in enumerate(evs) if ev.kind == "setattr" and ev.a[0] is ref and ev.a[1] in ("score_val", "*")]
            if p.kind == "exc":
                rep.ob("kept", 1, f"{lab} raising")
                if sets:
                    rep.bad("kept", f"{name}: recorded before failing", sets[0][1].loc,
                            f"{name}.score assigns score_val although it then raises {e.exc_name(p.val)}")
                continue
            rep.ob("recorded", 1, lab)
            cur = p.st.h(ref).attrs.get("score_val")
            if cur is None or not sets:
                rep.bad("recorded", f"{name}: not recorded", loc, f"{name}.score returns without recording the score ({lab})")
                continue
            a, b = strip_num(e.freeze(cur, p.st)), strip_num(e.freeze(p.val, p.st))
            if a is not b:
                rep.bad("recorded", f"{name}: recorded value differs", sets[-1][1].loc,
                        f"{name}.score returns {short(b, 120)} but records {short(a, 120)} ({lab})")
            rep.ob("kept", 1, lab)
            first = sets[0][0]
            for ev in evs[first + 1:]:
                if is_kernel(ev) or (ev.kind == "opaque" and ev.a[0] == LOAD):
                    rep.bad("kept", f"{name}: recorded before computed", sets[0][1].loc,
                            f"{name}.score assigns score_val before the computation at {where(ev.loc)} that can still fail")
                    break
    for cls, name, lab, kind, dt, chrom, kws in fr_cases(e, dts):
        check(cls, name, lab, fr_paths(e, cls, kind, dt, chrom, kws))
    for cls, name, lab, kind, dt, kws in nr_cases(e, dts):
        check(cls, name, lab, nr_paths(e, cls, kind, dt, kws))
    # number: kernels of the repository return numbers
    for fn, (mod, qual, pos, kws, kinds) in NUMERIC_KERNELS.items():
        f = func(e, mod, qual)
        for kind in kinds:
            e.cfg = scenario(kind, "uint8", opaque=HELPERS)
            for p in call(e, f, [{"R": R, "M": M, "I": I}[x] for x in pos], kws):
                if p.kind != "ret":
                    continue
                rep.ob("number", 1, f"{qual} {kind}")
                v = p.val
                parts = v.args if v.op == "tuple" else (v,)
                for q in parts:
                    if q.op in ("tuple", "dict", "list", "str") or (q.op == "ref" and p.st.h(q).kind in ("dict", "list", "set", "obj")):
                        fi = e.p.func(mod, qual)
                        rep.bad("number", f"{qual}: returns a container", fi_loc(e, fi),
                                f"{qual} returns {short(e.freeze(v, p.st), 150)} for {kind} images: the score is not a number")


HELPERS = {"viqa.utils.misc._to_cubic", "viqa.utils.misc._to_spherical", "viqa.utils.misc._get_binary", "viqa.utils.misc.find_largest_region",
           "viqa.utils.misc._rgb_to_yuv", "viqa.utils.misc._to_grayscale", "viqa.utils.misc.gabor_convolve"}
NUMERIC_KERNELS = {
    "ssim": ("viqa.fr_metrics.ssim", "structural_similarity", "RM", [("data_range", DR)], ("2d", "3d")),
    "gsm": ("viqa.fr_metrics.gsm", "gradient_similarity", "RM", [("data_range", DR)], ("2d", "3d")),
    "mad": ("viqa.fr_metrics.mad", "most_apparent_distortion", "RM", [("data_range", DR)], ("2d",)),
    "cnr": ("viqa.nr_metrics.cnr", "contrast_to_noise_ratio", "I", [("background_center", BC), ("signal_center", SC), ("radius", RAD)], ("2d", "3d")),
    "snr": ("viqa.nr_metrics.snr", "signal_to_noise_ratio", "I", [("signal_center", SC), ("radius", RAD)], ("2d", "3d", "rgb")),
}


def canon_dims(t):
    """extents are the same for both images once they are compared"""
    return subst(t, {x: mk("extent", x.args[1]) for x in subterms(t) if x.op == "dim" and loaded(x.args[0])}
                 | {x: mk("extents") for x in subterms(t) if x.op == "shape" and loaded(x.args[0])})


def deps(t):
    return core_images(canon_dims(t))


@register("C03", "Reference and modified image keep their roles", VN)
def c03(rep, tier):
    e = engine()
    rep.rule("pair", "every comparison receives one operand computed from the first image only and one from the second only")
    rep.rule("role", "comparisons that are not symmetric receive the first image as reference and the second as the modified one")
    rep.rule("mask", "MAD derives its visibility threshold (minimum local deviation) from the reference image only")
    rep.floor("pair", 60)
    rep.floor("role", 8)
    rep.floor("mask", 1)
    rep.assume("piq.vif_p(x, y): y is the reference; fsim, vsi, multi_scale_ssim, PSNR, MSE and SSIM are symmetric in their operands")
    names = {R: "reference", M: "modified"}
    for cls, name, lab, kind, dt, chrom, kws in fr_cases(e, ("uint8", "float32") if tier == "quick" else ("uint8", "uint16", "float32", "float64")):
        for p, ref, base in fr_paths(e, cls, kind, dt, chrom, kws):
            if p.kind != "ret":
                continue
            for ev, k, args in kernels_of(p):
                ro = roles(k, args)
                if set(ro) != {"r", "m"} or None in ro.values():
                    rep.bad("pair", f"{name}: operand missing", ev.loc, f"{k} is called without two images")
                    continue
                dr, dm = deps(ro["r"]), deps(ro["m"])
                rep.ob("pair", 1, f"{lab} {k}")
                if len(dr) != 1 or len(dm) != 1 or dr == dm:
                    rep.bad("pair", f"{name}: operands of {k.split('.')[-1]}", ev.loc,
                            f"{lab}: the operands of {k} are computed from {sorted(names.get(x, '?') for x in dr)} and "
                            f"{sorted(names.get(x, '?') for x in dm)} instead of one image each")
                    continue
                if k in ASYMMETRIC:
                    rep.ob("role", 1, f"{lab} {k}")
                    if dr != {R} or dm != {M}:
                        rep.bad("role", f"{name}: roles in {k.split('.')[-1]}", ev.loc,
                                f"{lab}: {k} receives the modified image as reference and vice versa")
    f = func(e, "viqa.fr_metrics.mad", "most_apparent_distortion")
    e.cfg = scenario("2d", "uint8", opaque=HELPERS)
    n = 0
    for p in call(e, f, [R, M], [("data_range", DR)]):
        for ev in p.events("ext", "mcall", "opaque"):
            nm = [a for a in ev.a[:2] if isinstance(a, str) and a.split(".")[-1] == "minstd"]
            if not nm:
                continue
            n += 1
            rep.ob("mask", 1, "minstd in MAD")
            arg = ev.a[1][0] if ev.kind == "ext" else ev.a[2][0]
            if deps(arg) != {R}:
                rep.bad("mask", "MAD: minstd operand", ev.loc,
                        f"the masking threshold of MAD is computed from {sorted(names.get(x, '?') for x in deps(arg))} instead of the reference image")
    if n == 0:
        raise AnalysisBroken("MAD no longer calls statisticscalc.minstd")


NORM, ROI = sym("NORMALIZE"), sym("ROI")
CFG_LOAD = (("data_range", DR), ("normalize", NORM), ("roi", ROI))


def load_fact(key):
    """configured parameters: normalize set, data_range given"""
    return None


@register("C04", "Compared data are the loaded images, treated alike", VN)
def c04(rep, tier):
    e = engine()
    rep.rule("config", "every image handed to a computation is the result of the loading step run with the configured data_range, normalize and roi")
    rep.rule("content", "between loading and comparison an image is only sliced, re-ordered, type-converted or turned grayscale - never modified")
    rep.rule("alike", "both images of a comparison undergo the same preprocessing")
    rep.floor("config", 100)
    rep.floor("alike", 50)

    def check_value(name, lab, v, ev, k):
        ld = [t for t in subterms(v) if loaded(t)]
        if not ld:
            rep.bad("config", f"{name}: not loaded", ev.loc, f"{lab}: {k} receives {short(v, 120)}, which did not go through the loading step")
            return
        core, spec, fixed = peel(e, v)
        rep.ob("content", 1, lab)
        if not loaded(core):
            gray = any(t.op == "call" and t.args[0].endswith("rgb2gray") for t in subterms(core)) or core.op == "opaque"
            if not gray:
                rep.bad("content", f"{name}: image altered before {k.split('.')[-1]}", ev.loc,
                        f"{lab}: {k} receives {short(core, 160)} instead of the loaded image")
        for t in ld:
            rep.ob("config", 1, lab)
            a = dict(t.args[1])
            for pn, want in CFG_LOAD:
                got = a.get(pn)
                if got is not want:
                    rep.bad("config", f"{name}: {pn}", ev.loc, f"{lab}: the image is loaded with {pn}={short(got) if got is not None else 'nothing'} "
                            f"instead of the configured value")
    ctor = (("normalize", NORM), ("roi", ROI))
    dts = ("uint8", "float32")
    for cls, name, lab, kind, dt, chrom, kws in fr_cases(e, dts):
        for p, ref, base in fr_paths(e, cls, kind, dt, chrom, kws, ctor=ctor):
            if p.kind != "ret":
                continue
            for ev, k, args in kernels_of(p):
                ro = roles(k, args)
                for v in ro.values():
                    if v is not None:
                        check_value(name, lab, v, ev, k)
                if ro.get("r") is not None and ro.get("m") is not None:
                    rep.ob("alike", 1, lab)
                    r, m = canon_dims(ro["r"]), canon_dims(ro["m"])
                    sw = subst(r, {R: M, M: R})
                    if sw is not m and subst(m, {R: M, M: R}) is not r:
                        rep.bad("alike", f"{name}: preprocessing of {k.split('.')[-1]} operands", ev.loc,
                                f"{lab}: the two operands of {k} are not preprocessed alike: {short(r, 120)} versus {short(m, 120)}")
    for cls, name, lab, kind, dt, kws in nr_cases(e, dts):
        for p, ref, base in nr_paths(e, cls, kind, dt, kws, ctor=ctor):
            if p.kind != "ret":
                continue
            for ev in p.st.events[base:]:
                b = bind_kernel(ev)
                if b is not None:
                    v = roles(b[0], b[1]).get("i")
                    if v is not None:
                        check_value(name, lab, v, ev, b[0])
                elif is_kernel(ev) and ev.kind == "ext":
                    check_value(name, lab, ev.a[1][0], ev, "qmeasure")


@register("C05", "Images that do not match are rejected, never compared", VN)
def c05(rep, tier):
    e = engine()
    rep.rule("shape", "images whose extents differ along any single axis: ValueError on every path, no computation")
    rep.rule("rank", "images of different dimensionality: ValueError on every path, no computation")
    rep.rule("dtype", "images of different pixel types: ValueError on every path, no computation")
    rep.rule("colour", "chromatic metric with images that are not RGB: ValueError on every path, no computation")
    for r, n in (("shape", 20), ("rank", 10), ("dtype", 10), ("colour", 8)):
        rep.floor(r, n)

    def expect(rule, cls, name, lab, cfg, chrom, kws):
        fi = score_fi(e, cls)
        rep.ob(rule, 1, lab)
        for p, ref, base in fr_paths(e, cls, None, None, chrom, kws, cfg=cfg):
            ks = [ev for ev in p.st.events[base:] if is_kernel(ev)]
            if p.kind == "ret":
                rep.bad(rule, f"{name}: accepted", ks[0].loc if ks else fi_loc(e, fi), f"{lab}: {name}.score returns a score instead of raising ValueError")
                return
            if ks:
                rep.bad(rule, f"{name}: compared", ks[0].loc, f"{lab}: the images are compared before the mismatch is rejected")
                return
            if p.val.op != "ext" and e.exc_is(p.val, "ValueError") is False:
                rep.bad(rule, f"{name}: exception type", fi_loc(e, fi), f"{lab}: raises {e.exc_name(p.val)} instead of ValueError")
    for cls in fr_metrics(e):
        fi = score_fi(e, cls)
        name = cls.args[1]
        d3 = [("dim", const(1)), ("im_slice", S)] if takes_dim(fi) else []
        rep.functions.add(fi.label)
        for kind, rank in (("2d", 2), ("3d", 3), ("rgb", 3)):
            for ax in range(rank):
                if kind == "rgb" and ax == 2:
                    continue

                def facts(key, ax=ax):
                    if key.op == "eq" and all(t.op == "dim" and loaded(t.args[0]) for t in key.args):
                        a, b = key.args
                        if a.args[1] == b.args[1] and loaded_src(a.args[0]) is not loaded_src(b.args[0]):
                            return a.args[1] != ax
                    return None
                expect("shape", cls, name, f"{name} {kind} extent of axis {ax} differs", scenario(kind, "uint8", sinks=KERNEL_FUNCS, facts=facts), False,
                       d3 if kind == "3d" else [])
        for (ra, rb) in ((2, 3), (3, 2)):
            cfg = scenario("3d", "uint8", sinks=KERNEL_FUNCS)
            base_nd = cfg.ndim_fn

            def nd(t, ra=ra, rb=rb):
                s = loaded_src(t) if loaded(t) else t
                return {R: ra, M: rb}.get(s) if (loaded(t) or t in (R, M)) else None
            cfg.ndim_fn = nd
            expect("rank", cls, name, f"{name} {ra}-D against {rb}-D", cfg, False, d3)
        for da, db in (("uint8", "uint16"), ("float32", "uint8"), ("float32", "float64"), ("int16", "uint16"), ("float64", "float32")):
            for kind in ("2d", "3d"):
                cfg = scenario(kind, "uint8", sinks=KERNEL_FUNCS)

                def dtf(t, da=da, db=db):
                    s = loaded_src(t) if loaded(t) else t
                    return {R: da, M: db}.get(s) if (loaded(t) or t in (R, M)) else None
                cfg.dtype_fn = dtf
                expect("dtype", cls, name, f"{name} {kind} {da} against {db}", cfg, False, d3 if kind == "3d" else [])
        for kind in ("2d", "3d"):
            expect("colour", cls, name, f"{name} chromatic {kind}", scenario(kind, "uint8", sinks=KERNEL_FUNCS), True, d3 if kind == "3d" else [])


@register("C07", "The configured data range is demanded and is the one used", VN)
def c07(rep, tier):
    e = engine()
    rep.rule("demanded", "constructing a range-dependent full-reference metric without data_range raises ValueError; normalize without a data range raises ValueError for every metric")
    rep.rule("passed", "every comparison with a data-range parameter receives the configured data range")
    rep.rule("used", "the value computed by SSIM/UQI, GSM and MAD (integer images) depends on the data range it was given")
    rep.floor("demanded", 20)
    rep.floor("passed", 60)
    rep.floor("used", 4)
    for cls in fr_metrics(e) + nr_metrics(e):
        name = cls.args[1]
        fi = method_info(e, cls, "__init__")
        rep.functions.add(fi.label)
        cases = [("normalize without data_range", [("data_range", NONE), ("normalize", TRUE)]), ("normalize with data_range=0", [("data_range", const(0)), ("normalize", TRUE)])]
        if cls in fr_metrics(e) and name != "RMSE":
            cases.append(("data_range=None", [("data_range", NONE)]))
        for what, kws in cases:
            e.cfg = Config(kwabsent=True)
            rep.ob("demanded", 1, f"{name} {what}")
            for p in construct(e, cls, [], kws):
                if p.kind == "ret":
                    rep.bad("demanded", f"{name}: {what}", fi_loc(e, fi), f"{name}({what}) is accepted instead of raising ValueError")
                elif e.exc_is(p.val, "ValueError") is False:
                    rep.bad("demanded", f"{name}: {what} exception", fi_loc(e, fi), f"{name}({what}) raises {e.exc_name(p.val)}")
    for cls, name, lab, kind, dt, chrom, kws in fr_cases(e, ("uint8", "float32")):
        for p, ref, base in fr_paths(e, cls, kind, dt, chrom, kws):
            if p.kind != "ret":
                continue
            for ev, k, args in kernels_of(p):
                if k.endswith("mean_squared_error"):
                    continue
                rep.ob("passed", 1, lab)
                got = args.get("data_range")
                if got is not DR:
                    rep.bad("passed", f"{name}: {k.split('.')[-1]}", ev.loc,
                            f"{lab}: {k} runs with data_range={short(got) if got is not None else 'its default'} instead of the configured data range")
    for key in ("ssim", "gsm", "mad"):
        mod, qual, pos, kws, kinds = NUMERIC_KERNELS[key]
        f = func(e, mod, qual)
        for kind in kinds:
            e.cfg = scenario(kind, "uint8", opaque=HELPERS)
            for p in call(e, f, [R, M], kws):
                if p.kind != "ret":
                    continue
                rep.ob("used", 1, f"{qual} {kind}")
                if DR not in set(subterms(e.freeze(p.val, p.st))):
                    rep.bad("used", f"{qual}: data_range", fi_loc(e, e.p.func(mod, qual)), f"the value returned by {qual} does not depend on data_range")


# documented options of the repository's own computations: name -> (symbol, needs)
CONVERT = {"tensor", "as_tensor", "from_numpy", "array", "asarray", "float", "int", "tuple", "list", "dict", "FloatTensor"}
OPTIONS = {
    "viqa.fr_metrics.ssim:structural_similarity": (("2d",), {
        "K1": "num", "K2": "num", "sigma": "num", "mode": "str", "cval": "num", "win_size": "int", "alpha": "int", "beta": "int", "gamma": "int",
        "gaussian_weights": "flag"}),
    "viqa.fr_metrics.gsm:gradient_similarity": (("2d", "3d"), {"c": "num", "p": "num"}),
    "viqa.fr_metrics.mad:most_apparent_distortion": (("2d",), {
        "block_size": "int", "block_overlap": "num", "beta_1": "num", "beta_2": "num", "orientations_num": "int", "scales_num": "int",
        "weights": "array", "ms_scale": "num", "csf_function": "map", "luminance_function": "lum", "display_function": "disp", "thresh_1": "thr",
        "thresh_2": "thr"}),
}


def flat_args(args):
    """arguments by name, with the entries of a collected **kwargs dictionary"""
    d = dict(args)
    for v in args.values():
        if isinstance(v, T) and v.op == "dictv":
            for a in v.args:
                if isinstance(a, T) and a.op == "tuple":
                    a = a.args
                if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], (T, str)):
                    d.setdefault(cval(a[0]) if isinstance(a[0], T) and is_const(a[0]) else a[0], a[1])
    return d


@register("C08", "Every option passed to score takes effect", VN)
def c08(rep, tier):
    e = engine()
    rep.rule("forwarded", "an option given to score() arrives unchanged at the computation it configures, whatever image kind is compared")
    rep.rule("effective", "every documented option of SSIM, GSM and MAD influences the returned value (it is not dropped on the way)")
    rep.rule("fixed", "UQI is SSIM without its stabilising constants (K1 = K2 = 0, uniform window, unit exponents)")
    rep.floor("forwarded", 45)
    rep.floor("effective", 20)
    rep.floor("fixed", 3)
    given = {"FSIM": ("scales", "orientations", "min_length", "mult", "sigma_f", "delta_theta", "k"),
             "VSI": ("c1", "c2", "c3", "alpha", "beta", "omega_0", "sigma_f", "sigma_d", "sigma_c"),
             "MSSSIM": ("scale_weights", "k1", "k2", "kernel_size", "kernel_sigma"), "VIFp": ("sigma_n_sq",),
             "SSIM": tuple(OPTIONS["viqa.fr_metrics.ssim:structural_similarity"][1]), "UQI": ("win_size", "mode", "cval"), "GSM": ("c", "p"),
             "MAD": tuple(OPTIONS["viqa.fr_metrics.mad:most_apparent_distortion"][1])}
    for cls, name, lab, kind, dt, chrom, kws in fr_cases(e, ("uint8",)):
        fi = score_fi(e, cls)
        opts = given.get(name)
        if not has_kwargs(fi) or opts is None:
            continue
        vals = {o: sym("OPT_" + o) for o in opts}
        for p, ref, base in fr_paths(e, cls, kind, dt, chrom, kws + sorted(vals.items())):
            if p.kind != "ret":
                continue
            for ev, k, args in kernels_of(p):
                fa = flat_args(args)
                for o in opts:
                    rep.ob("forwarded", 1, f"{lab} {o}")
                    got = fa.get(o)
                    while got is not None and got.op == "call" and str(got.args[0]).split(".")[-1] in CONVERT and got.args[1]:
                        got = got.args[1][0]
                    if got is not vals[o]:
                        rep.bad("forwarded", f"{name}: {o} for {kind}", ev.loc,
                                f"{lab}: option {o} does not reach {k} (it runs with {short(got) if got is not None else 'the default'})")
    for key, (kinds, opts) in OPTIONS.items():
        mod, qual = key.split(":")
        f = func(e, mod, qual)
        fi = e.p.func(mod, qual)
        rep.functions.add(fi.label)
        for kind in kinds:
            for o, ty in opts.items():
                for other in ([], [("gaussian_weights", FALSE)]) if qual == "structural_similarity" and o != "gaussian_weights" else ([],):
                    if o == "sigma" and other:
                        continue
                    e.cfg = scenario(kind, "uint8", opaque=HELPERS)
                    vals = {"flag": [TRUE, FALSE]}.get(ty) or [sym("OPT_" + o, "num" if ty == "thr" else ty)]
                    if ty == "disp":
                        other = [("account_monitor", TRUE)]
                    if ty == "thr":
                        other = [({"thresh_1": "thresh_2", "thresh_2": "thresh_1"}[o], const(3.5))]
                    outs = []
                    for v in vals:
                        st, given = e.start(), v
                        if ty == "lum":
                            given = e.new_dict(st, {const("k"): v, const("gamma"): v})
                        for p in call(e, f, [R, M], [("data_range", DR), (o, given)] + other, st=st):
                            if p.kind == "ret":
                                outs.append((v, e.freeze(p.val, p.st)))
                    rep.ob("effective", 1, f"{qual} {o} {kind} {short(other[0][1]) if other else ''}")
                    if not outs:
                        rep.bad("effective", f"{qual}: {o} rejected", fi_loc(e, fi), f"{qual} cannot be called with option {o} at all")
                        continue
                    if ty == "flag":
                        a = {strip_ids(t) for v, t in outs if v is TRUE}
                        b = {strip_ids(t) for v, t in outs if v is FALSE}
                        if a & b:
                            rep.bad("effective", f"{qual}: {o}", fi_loc(e, fi), f"the value returned by {qual} is the same for {o}=True and {o}=False")
                    elif o == "win_size" and not other:
                        continue            # Gaussian window: only the cropped border depends on it, decided below
                    elif not any(vals[0] in set(subterms(t)) for v, t in outs):
                        rep.bad("effective", f"{qual}: {o}", fi_loc(e, fi), f"option {o} of {qual} is accepted but the returned value never depends on it ({kind})")
    # ---- UQI
    for cls, name, lab, kind, dt, chrom, kws in fr_cases(e, ("uint8",)):
        if name != "UQI":
            continue
        for p, ref, base in fr_paths(e, cls, kind, dt, chrom, kws):
            if p.kind != "ret":
                continue
            for ev, k, args in kernels_of(p):
                rep.ob("fixed", 1, lab)
                if not k.endswith("structural_similarity"):
                    continue
                eff = flat_args(args)
                for o, want in (("K1", 0), ("K2", 0), ("gaussian_weights", False), ("alpha", 1), ("beta", 1), ("gamma", 1)):
                    got = eff.get(o)
                    if got is None or not is_const(got) or cval(got) != want:
                        rep.bad("fixed", f"UQI: {o}", ev.loc, f"UQI is computed with {o}={short(got) if got is not None else 'the SSIM default'} instead of {want}")


@register("C19", "print_score prints the recorded score or warns", VN)
def c19(rep, tier):
    e = engine()
    rep.rule("unscored", "before any score print_score issues a RuntimeWarning, prints nothing and does not raise")
    rep.rule("scored", "after a score - any value, including zero - print_score prints that recorded value rounded to the requested decimals, without warning")
    rep.rule("readonly", "print_score changes nothing on the metric")
    rep.floor("unscored", 13)
    rep.floor("scored", 13)
    SV, DEC = sym("RECORDED", "num"), sym("decimals", "int")
    for cls in fr_metrics(e) + nr_metrics(e):
        name = cls.args[1]
        fi = method_info(e, cls, "print_score")
        rep.functions.add(fi.label)
        loc = fi_loc(e, fi)
        for val in (None, SV, const(0), const(0.0)):
            for kws in ([], [("decimals", DEC)]):
                e.cfg = Config(kwabsent=True)
                for st, ref in build(e, cls):
                    st = st.fork()
                    if val is not None:
                        st.hw(ref).attrs["score_val"] = val
                    base = len(st.events)
                    before = st.h(ref).sig()
                    for p in method(e, st, ref, "print_score", [], kws):
                        evs = p.st.events[base:]
                        if p.st.h(ref).sig() != before:
                            rep.bad("readonly", f"{name}", loc, f"{name}.print_score modifies the metric")
                        rule = "unscored" if val is None else "scored"
                        rep.ob(rule, 1, f"{name} {'None' if val is None else short(val)}")
                        prints = [ev for ev in evs if ev.kind == "print"]
                        warns = [ev for ev in evs if ev.kind == "warn"]
                        if p.kind == "exc":
                            rep.bad(rule, f"{name}: raises", loc, f"{name}.print_score raises {e.exc_name(p.val)}")
                        elif val is None:
                            if not any(is_cat(w.a[1], "RuntimeWarning") for w in warns):
                                rep.bad(rule, f"{name}: no RuntimeWarning", (prints or warns or [None])[0].loc if (prints or warns) else loc,
                                        f"{name}.print_score without a score does not issue a RuntimeWarning")
                            if prints:
                                rep.bad(rule, f"{name}: prints", prints[0].loc, f"{name}.print_score without a score prints to standard output")
                        else:
                            if not prints:
                                rep.bad(rule, f"{name}: prints nothing", loc, f"{name}.print_score with a recorded score ({short(val)}) prints nothing")
                            for ev in prints:
                                txt = tup(*ev.a[0])
                                if val is SV and SV not in set(subterms(txt)):
                                    rep.bad(rule, f"{name}: value", ev.loc, f"{name}.print_score prints {short(txt, 100)}, not the recorded score")
                                if val is SV and kws and DEC not in set(subterms(txt)):
                                    rep.bad(rule, f"{name}: decimals", ev.loc, f"{name}.print_score ignores the requested number of decimals")
                                elif val is SV and kws:
                                    shown_value(rep, rule, name, ev, txt, SV, DEC)
                            if warns:
                                rep.bad(rule, f"{name}: warns", warns[0].loc, f"{name}.print_score warns although a score ({short(val)}) is recorded")


ROUNDERS = ("builtins.round", "numpy.round", "numpy.around", "numpy.round_")


def shown_value(rep, rule, name, ev, txt, sv, dec):
    """every rounding in the printed text rounds the recorded score to the requested number of decimals"""
    for x in subterms(txt):
        if x.op == "call" and x.args[0] in ROUNDERS and x.args[1]:
            kw = dict(x.args[2])
            d = x.args[1][1] if len(x.args[1]) > 1 else kw.get("decimals", kw.get("ndigits"))
            v = x.args[1][0]
        elif x.op == "mcall" and x.args[1] == "round":
            d = x.args[2][0] if x.args[2] else dict(x.args[3]).get("decimals")
            v = x.args[0]
        else:
            continue
        while v.op == "call" and v.args[0] in ("builtins.float", "numpy.float64", "numpy.asarray", "numpy.array") + ROUNDERS and v.args[1]:
            v = v.args[1][0]
        rep.ob(rule, 1, f"{name} rounding")
        if v is not sv:
            rep.bad(rule, f"{name}: value", ev.loc, f"{name}.print_score prints {short(x, 100)}, not the recorded score rounded to the requested decimals")
        elif d is not dec:
            rep.bad(rule, f"{name}: decimals", ev.loc, f"{name}.print_score rounds to {short(d, 60) if d is not None else 'no'} decimals instead of the requested number")


def is_cat(t, name):
    return isinstance(t, T) and ((t.op == "ext" and t.args[0].split(".")[-1] == name) or (t.op == "class" and t.args[1] == name))


@register("C20", "Every metric identifies its results unambiguously", VN)
def c20(rep, tier):
    e = engine()
    rep.rule("named", "a constructed metric has a textual name under which results are exported, and starts without a score")
    rep.rule("distinct", "no two metrics (and colour variants) share a name")
    rep.rule("variant", "FSIM, PSNR and RMSE of colour images carry a name of their own")
    rep.rule("kind", "full-reference metrics are typed 'full-reference', no-reference metrics 'no-reference' - the value the batch dispatch tests")
    rep.rule("parameters", "constructor settings are stored as given: data_range, normalize, roi, chromatic")
    rep.floor("named", 13)
    rep.floor("kind", 13)
    names, variants = {}, {}
    for cls, kind in [(c, "full-reference") for c in fr_metrics(e)] + [(c, "no-reference") for c in nr_metrics(e)]:
        cn = cls.args[1]
        fi = method_info(e, cls, "__init__")
        loc = fi_loc(e, fi)
        rep.functions.add(fi.label)
        for chrom in (False, True):
            e.cfg = Config(kwabsent=True)
            for st, ref in build(e, cls, chromatic=chrom, normalize=NORM, roi=ROI):
                at = st.h(ref).attrs
                rep.ob("named", 1, cn)
                nm = at.get("_name")
                if nm is None or not is_const(nm) or not isinstance(cval(nm), str) or not cval(nm):
                    rep.bad("named", f"{cn}: name", loc, f"{cn} has no name: its results are exported as {short(nm) if nm is not None else 'nothing'}")
                else:
                    names.setdefault(cval(nm), set()).add(cls)
                    variants.setdefault(cn, {})[chrom] = cval(nm)
                sv = at.get("score_val")
                if sv is None or not is_const(sv, None):
                    rep.bad("named", f"{cn}: initial score", loc, f"a new {cn} already has a score")
                rep.ob("kind", 1, cn)
                ty = at.get("type")
                if ty is None or not is_const(ty) or cval(ty) != kind:
                    rep.bad("kind", f"{cn}: type", loc, f"{cn} is typed {short(ty) if ty is not None else 'nothing'} instead of {kind}")
                pr = at.get("parameters")
                if pr is None or pr.op != "ref":
                    rep.bad("parameters", f"{cn}: parameters", loc, f"{cn} has no parameters dictionary")
                    continue
                items = st.h(pr).items
                for k, want in (("data_range", DR), ("normalize", NORM), ("roi", ROI), ("chromatic", const(chrom))):
                    rep.ob("parameters", 1, f"{cn} {k}")
                    got = items.get(const(k))
                    if got is not want:
                        rep.bad("parameters", f"{cn}: {k}", loc, f"{cn} stores {k}={short(got) if got is not None else 'nothing'} instead of the value given")
    for cls in fr_metrics(e):
        cn = cls.args[1]
        if cn in ("FSIM", "PSNR", "RMSE"):
            rep.ob("variant", 1, cn)
            v = variants.get(cn, {})
            if v.get(True) is not None and v.get(True) == v.get(False):
                rep.bad("variant", cn, fi_loc(e, method_info(e, cls, "__init__")), f"{cn} of colour images is named {v[True]!r} like {cn} of grayscale images")
    for n, cs in names.items():
        rep.ob("distinct", 1, n)
        if len(cs) > 1:
            a = sorted(c.args[1] for c in cs)
            fi = method_info(e, sorted(cs, key=lambda c: c.args[1])[0], "__init__")
            rep.bad("distinct", f"{n}", fi_loc(e, fi), f"{a} are all named {n!r}: their results overwrite each other on export")


def holds(t, x, y, rel):
    """truth of a comparison term of scores x and y related by lt/eq/gt/nan; None: not such a term"""
    if is_const(t) and isinstance(cval(t), bool):
        return cval(t)
    if t.op == "not":
        h = holds(t.args[0], x, y, rel)
        return None if h is None else not h
    if t.op in ("and", "or"):
        hs = [holds(a, x, y, rel) for a in t.args]
        return None if None in hs else (all(hs) if t.op == "and" else any(hs))
    if t.op in ("eq", "ne", "lt", "le", "gt", "ge") and len(t.args) == 2:
        a, b = t.args
        if (a, b) == (y, x):
            rel = {"lt": "gt", "gt": "lt"}.get(rel, rel)
        elif (a, b) != (x, y):
            return None
        return {"eq": rel == "eq", "ne": rel != "eq", "lt": rel == "lt", "le": rel in ("lt", "eq"), "gt": rel == "gt", "ge": rel in ("gt", "eq")}[t.op]
    return None


def possible(e, conds, x, y, rel):
    """may the path be taken when the scores are so related (NaN: only decided on unconditional paths)"""
    for t, pol in conds.items():
        if x in set(subterms(t)) or y in set(subterms(t)):
            if rel == "nan":
                return False
            h = holds(t, x, y, rel)
            if h is not None and h is not pol:
                return False
    return True


@register("C22", "Comparing metrics compares their scores", VN)
def c22(rep, tier):
    e = engine()
    rep.rule("operator", "each of ==, !=, <, <=, >, >= between metrics compares the recorded score of the left with that of the right (or with the plain value) using the same operator")
    rep.floor("operator", 12)
    X, Y = sym("LEFT_SCORE", "num"), sym("RIGHT_SCORE", "num")
    frs = fr_metrics(e)
    pairs = [(frs[0], frs[1]), (frs[0], None), (frs[2], nr_metrics(e)[0])]
    for op, flipped in (("eq", "eq"), ("ne", "ne"), ("lt", "gt"), ("le", "ge"), ("gt", "lt"), ("ge", "le")):
        for ca, cb in pairs:
            e.cfg = Config(kwabsent=True)
            st, ref = build(e, ca)[0]
            st.hw(ref).attrs["score_val"] = X
            other = Y
            if cb is not None:
                ps = construct(e, cb, [], [("data_range", DR)], st=st)
                p = [q for q in ps if q.kind == "ret"][0]
                st, other = p.st, p.val
                st.hw(other).attrs["score_val"] = Y
            fi = method_info(e, ca, f"__{op}__")
            rep.functions.add(fi.label)
            for p in method(e, st, ref, f"__{op}__", [other]):
                rep.ob("operator", 1, f"{op} against {'metric' if cb is not None else 'value'}")
                if p.kind != "ret":
                    rep.bad("operator", f"__{op}__ raises", fi_loc(e, fi), f"__{op}__ raises {e.exc_name(p.val)}")
                    continue
                v = p.val
                wrong = [rel for rel in ("lt", "eq", "gt", "nan") if possible(e, p.st.conds, X, Y, rel) and holds(v, X, Y, rel) is not holds(mk(op, X, Y), X, Y, rel)]
                if wrong:
                    rep.bad("operator", f"__{op}__ {'metric' if cb is not None else 'value'}", fi_loc(e, fi),
                            f"metric {op} {'metric' if cb is not None else 'value'} evaluates {short(v)} instead of {op}(left score, right score)"
                            + (" (they differ for NaN scores)" if wrong == ["nan"] else ""))
