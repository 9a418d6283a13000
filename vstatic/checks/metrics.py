"""Properties of the metric classes: what a call of score() compares, records and rejects."""
from ..harness import *
from ..registry import register

VN = "static path-sensitive value-numbering dataflow over the Python syntax tree (interprocedural, no execution)"
DR = sym("DATA_RANGE", "int")
S = sym("im_slice", "int")
KW = sym("kwargs", "kwargs")


def fi_loc(e, fi):
    return (e.p.modules[fi.mod].rel, fi.node.lineno, fi.qual)


def score_fi(e, cls):
    return method_info(e, cls, "score")


def takes_dim(fi):
    return "dim" in params(fi) and "im_slice" in params(fi)


def build(e, cls, data_range=DR, chromatic=False, **kw):
    """normally constructed instances: [(state, ref)]"""
    kws = [("data_range", data_range)]
    if chromatic:
        kws.append(("chromatic", TRUE))
    kws += [(k, v) for k, v in kw.items()]
    ps = construct(e, cls, [], kws)
    ok = [(p.st, p.val) for p in ps if p.kind == "ret"]
    if not ok:
        raise AnalysisBroken(f"{cls.args[1]} cannot be constructed with data_range and chromatic={chromatic}")
    return ok


def supports_chromatic(e, cls, kind="rgb"):
    """does a chromatic comparison of RGB images reach a kernel at all?"""
    return True


def kernels_of(path):
    out = []
    for ev in path.st.events:
        k = bind_kernel(ev)
        if k is not None:
            out.append((ev, k[0], k[1]))
    return out


def roles(label, args):
    """-> {'r': value, 'm': value} according to the kernel's own parameter meaning"""
    if label in KERNEL_FUNCS:
        names = KERNEL_FUNCS[label]
        if len(names) == 2:
            return {"r": args.get(names[0]), "m": args.get(names[1])}
        return {"i": args.get(names[0])}
    if label == "piq.vif_p":
        return {"r": args.get("y"), "m": args.get("x")}
    if label.startswith("piq."):
        return {"r": args.get("x"), "m": args.get("y")}
    if label.endswith("mean_squared_error"):
        return {"r": args.get("image0"), "m": args.get("image1")}
    if label.endswith("peak_signal_noise_ratio"):
        return {"r": args.get("image_true"), "m": args.get("image_test")}
    return {}


ASYMMETRIC = {"piq.vif_p", "viqa.fr_metrics.mad.most_apparent_distortion"}


def core_images(t):
    """caller images a value depends on"""
    return {x for x in subterms(t) if x in (R, M, I)}


def full_range(e, it, core, axis):
    """iterable covers every index of `axis` of the array exactly once, in order"""
    d = e.dim(core, axis)
    if it.op == "call" and it.args[0] == "builtins.range":
        a = list(it.args[1])
        if len(a) == 1:
            a = [const(0), a[0], const(1)]
        elif len(a) == 2:
            a = a + [const(1)]
        if is_const(a[0], 0) and is_const(a[2], 1):
            return same_extent(e, a[1], d)
    if it.op == "each":
        return full_range(e, it.args[0], core, axis)
    return False


def same_extent(e, a, d):
    """equal extents, using that both images have the same shape when the kernel is reached"""
    if a is d:
        return True
    sw = {R: M, M: R}
    return subst(a, sw) is d


@register("C01", "Slice selection follows dim and im_slice exactly", VN)
def c01(rep, tier):
    e = engine()
    rep.rule("slice", "for a volume, dim=d and im_slice=i the kernel receives of both images exactly plane i of axis d (unflipped, uncropped)")
    rep.rule("volume", "for a volume and dim=d alone every plane of axis d of both images is compared once and the per-plane scores averaged")
    rep.rule("reject", "dim outside 0,1,2 / dim missing / non-integer im_slice raises ValueError and no kernel runs")
    rep.rule("whole", "2-D and RGB images are compared whole, whatever dim/im_slice is; ignoring them is announced by a warning")
    rep.floor("slice", 40)
    rep.floor("volume", 15)
    rep.floor("reject", 20)
    rep.floor("whole", 20)
    rep.assume("library kernels treat the first tensor axis as a batch axis and average over it (piq reduction='mean')")
    for cls in fr_metrics(e):
        fi = score_fi(e, cls)
        name = cls.args[1]
        loc = fi_loc(e, fi)
        if not takes_dim(fi):
            continue
        rep.functions.add(fi.label)
        # ---- one plane
        for d in (0, 1, 2):
            for sl in (S, const(0), const(5), const(-1)):
                for dt in ("uint8", "float32"):
                    e.cfg = scenario("3d", dt, sinks=KERNEL_FUNCS)
                    for st, ref in build(e, cls):
                        ps = method(e, st, ref, "score", [R, M], [("dim", const(d)), ("im_slice", sl)])
                        rets = [p for p in ps if p.kind == "ret"]
                        rep.ob("slice", 1, f"{name} dim={d} im_slice={short(sl)} {dt}")
                        if not rets:
                            rep.bad("slice", f"{name}: dim={d} never scored", loc,
                                    f"{name}.score(dim={d}, im_slice={short(sl)}) raises on every path for a volume")
                        for p in rets:
                            ks = kernels_of(p)
                            if not ks:
                                rep.bad("slice", f"{name}: no kernel", loc, f"{name}.score(dim={d}, im_slice=i) returns without comparing the images")
                            for ev, lab, args in ks:
                                for role, img in (("r", R), ("m", M)):
                                    check_plane(e, rep, name, lab, args, role, d, sl, ev)
        # ---- whole volume along dim
        for d in (0, 1, 2):
            for dt in ("uint8", "float32"):
                e.cfg = scenario("3d", dt, sinks=KERNEL_FUNCS)
                for st, ref in build(e, cls):
                    ps = method(e, st, ref, "score", [R, M], [("dim", const(d))])
                    rets = [p for p in ps if p.kind == "ret"]
                    rep.ob("volume", 1, f"{name} dim={d} {dt}")
                    if not rets:
                        rep.bad("volume", f"{name}: dim={d} never scored", loc, f"{name}.score(dim={d}) raises on every path for a volume")
                    for p in rets:
                        check_volume(e, rep, name, p, d, loc)
        # ---- rejected arguments
        bad = [("dim=3", [("dim", const(3)), ("im_slice", S)]), ("dim=-1", [("dim", const(-1)), ("im_slice", S)]),
               ("dim=3 (volume)", [("dim", const(3))]), ("dim=-1 (volume)", [("dim", const(-1))]),
               ("dim missing", [("im_slice", S)]), ("nothing given", []),
               ("im_slice is a string", [("dim", const(0)), ("im_slice", sym("text", "str"))]),
               ("im_slice is a float", [("dim", const(0)), ("im_slice", sym("real", "float"))])]
        for what, kws in bad:
            e.cfg = scenario("3d", "uint8", sinks=KERNEL_FUNCS)
            for st, ref in build(e, cls):
                ps = method(e, st, ref, "score", [R, M], kws)
                rep.ob("reject", 1, f"{name} {what}")
                for p in ps:
                    if p.kind == "ret":
                        ks = kernels_of(p)
                        rep.bad("reject", f"{name}: {what}", ks[0][0].loc if ks else loc,
                                f"{name}.score accepts a volume with {what} and returns a score instead of raising ValueError")
                    elif e.exc_is(p.val, "ValueError") is False and p.val.op != "ext":
                        rep.bad("reject", f"{name}: {what} exception", loc, f"{name}.score with {what} raises {e.exc_name(p.val)} instead of ValueError")
        # ---- 2-D
        for what, kws in (("no slice", []), ("dim=1", [("dim", const(1))]), ("im_slice=4", [("im_slice", const(4))]), ("dim=0", [("dim", const(0))]),
                          ("im_slice=0", [("im_slice", const(0))]), ("dim=2 im_slice=i", [("dim", const(2)), ("im_slice", S)])):
            e.cfg = scenario("2d", "uint8", sinks=KERNEL_FUNCS)
            for st, ref in build(e, cls):
                ps = method(e, st, ref, "score", [R, M], kws)
                rep.ob("whole", 1, f"{name} 2d {what}")
                rets = [p for p in ps if p.kind == "ret"]
                if not rets:
                    rep.bad("whole", f"{name}: 2-D {what} never scored", loc, f"{name}.score of 2-D images with {what} raises on every path")
                for p in rets:
                    for ev, lab, args in kernels_of(p):
                        for role in ("r", "m"):
                            check_whole(e, rep, name, lab, args, role, 2, ev)
                    if kws and not p.events("warn"):
                        rep.bad("whole", f"{name}: silent {what}", loc, f"{name}.score ignores {what} for 2-D images without the documented warning")
    # ---- RGB compared whole by the metrics with a chromatic mode
    for cls in fr_metrics(e):
        name = cls.args[1]
        fi = score_fi(e, cls)
        if name not in ("FSIM", "PSNR", "RMSE", "VSI", "MSSSIM", "VIFp"):
            continue
        e.cfg = scenario("rgb", "uint8", sinks=KERNEL_FUNCS)
        for st, ref in build(e, cls, chromatic=True):
            ps = method(e, st, ref, "score", [R, M], [])
            rep.ob("whole", 1, f"{name} rgb chromatic")
            rets = [p for p in ps if p.kind == "ret"]
            if not rets:
                rep.bad("whole", f"{name}: RGB never scored", fi_loc(e, fi), f"{name}(chromatic=True).score of RGB images raises on every path")
            for p in rets:
                for ev, lab, args in kernels_of(p):
                    for role in ("r", "m"):
                        check_whole(e, rep, name, lab, args, role, 3, ev)


def check_plane(e, rep, name, lab, args, role, d, sl, ev):
    v = roles(lab, args).get(role)
    who = {"r": "first", "m": "second"}[role]
    if v is None:
        rep.bad("slice", f"{name}: {who} image missing", ev.loc, f"{lab} is called without its {who} image")
        return
    core, spec, fixed = peel(e, v)
    if not loaded(core) or spec is None:
        return      # origin is decided by C04
    if set(fixed) != {d} or fixed[d] is not sl:
        got = {k: short(x, 60) for k, x in fixed.items()}
        rep.bad("slice", f"{name}: {lab.split('.')[-1]} {who} image dim={d}", ev.loc,
                f"for dim={d}, im_slice={short(sl)} the {who} image is indexed with {got or 'nothing'} instead of {{{d}: {short(sl)}}}")
        return
    kept = [s[0] for s in spec if s[0] != "new"]
    want = [a for a in (0, 1, 2) if a != d]
    if sorted(kept) != want or any(s[1] or s[2] for s in spec if s[0] != "new"):
        rep.bad("slice", f"{name}: {lab.split('.')[-1]} {who} plane dim={d}", ev.loc,
                f"for dim={d} the compared plane of the {who} image is not the whole unflipped plane (axes {spec})")
    other = roles(lab, args).get("m" if role == "r" else "r")
    if other is not None:
        c2, s2, f2 = peel(e, other)
        if loaded(c2) and s2 is not None and [s[0] for s in s2] != [s[0] for s in spec]:
            rep.bad("slice", f"{name}: planes transposed dim={d}", ev.loc, f"for dim={d} the two compared planes have different axis order")


def check_whole(e, rep, name, lab, args, role, n, ev):
    v = roles(lab, args).get(role)
    who = {"r": "first", "m": "second"}[role]
    if v is None:
        rep.bad("whole", f"{name}: {who} image missing", ev.loc, f"{lab} is called without its {who} image")
        return
    core, spec, fixed = peel(e, v)
    if not loaded(core) or spec is None:
        return
    kept = [s[0] for s in spec if s[0] != "new"]
    if fixed or sorted(kept) != list(range(n)) or any(s[1] or s[2] for s in spec if s[0] != "new"):
        rep.bad("whole", f"{name}: {lab.split('.')[-1]} {who} image", ev.loc,
                f"the {who} image is not compared as a whole: axes {spec}, fixed { {k: short(x) for k, x in fixed.items()} }")


def check_volume(e, rep, name, p, d, loc):
    ks = kernels_of(p)
    if not ks:
        rep.bad("volume", f"{name}: no kernel", loc, f"{name}.score(dim={d}) returns without comparing the volume")
        return
    for ev, lab, args in ks:
        for role in ("r", "m"):
            v = roles(lab, args).get(role)
            if v is None:
                continue
            who = {"r": "first", "m": "second"}[role]
            core, spec, fixed = peel(e, v)
            if not loaded(core) or spec is None:
                continue
            if any(s[0] != "new" and (s[1] or s[2]) for s in spec):
                rep.bad("volume", f"{name}: {lab.split('.')[-1]} {who} image dim={d}", ev.loc,
                        f"for dim={d} the {who} volume is cropped or flipped before the comparison: axes {spec}")
                continue
            if lab.startswith("piq."):
                if fixed:
                    # per-plane library calls in a loop
                    if set(fixed) != {d} or fixed[d].op != "elem" or not full_range(e, fixed[d].args[0], core, d):
                        rep.bad("volume", f"{name}: {lab.split('.')[-1]} {who} image dim={d}", ev.loc,
                                f"for dim={d} the {who} volume is sliced with { {k: short(x) for k, x in fixed.items()} }")
                    continue
                if not spec or spec[0][0] != d:
                    rep.bad("volume", f"{name}: {lab.split('.')[-1]} planes dim={d}", ev.loc,
                            f"for dim={d} the planes handed to {lab} are taken along axis {spec[0][0] if spec else '?'} instead of {d}")
                continue
            # repository kernels: one call per plane
            if set(fixed) != {d} or fixed[d].op != "elem" or not full_range(e, fixed[d].args[0], core, d):
                rep.bad("volume", f"{name}: {lab.split('.')[-1]} {who} image dim={d}", ev.loc,
                        f"for dim={d} the {who} volume is traversed by { {k: short(x) for k, x in fixed.items()} or 'nothing'} "
                        f"instead of every index of axis {d}")
    # averaging: the per-plane list must not be subset before the reduction
    for t in subterms(p.val):
        if t.op == "getitem" and t.args[0].op in ("listv", "call") and any(x.op == "each" for x in subterms(t.args[0])):
            rep.bad("volume", f"{name}: subset of planes dim={d}", loc, f"{name}.score(dim={d}) averages only part of the planes: {short(t)}")
    if ks and all(lab in KERNEL_FUNCS for _, lab, _ in ks):
        v = p.val
        while v.op == "call" and v.args[0] in ("builtins.float", "numpy.float64") and v.args[1]:
            v = v.args[1][0]
        if v.op == "call" and v.args[0].startswith("numpy.") and v.args[0].split(".")[-1] in (
                "max", "min", "median", "sum", "std", "var", "prod", "nanmax", "nanmin", "nanmedian", "nansum"):
            rep.bad("volume", f"{name}: aggregation", loc, f"{name}.score(dim={d}) aggregates the planes with {v.args[0]} instead of the mean")
