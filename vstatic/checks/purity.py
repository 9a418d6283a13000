"""Caller data is never modified; results depend on the arguments only."""
from .scoring import *

K = sym("kernel", "array")
W = sym("weights_given", "array")
ROI3 = tup(tup(sym("x0", "int"), sym("x1", "int")), tup(sym("y0", "int"), sym("y1", "int")), tup(sym("z0", "int"), sym("z1", "int")))
CENTER2 = tup(sym("c0", "int"), sym("c1", "int"))
CENTER3 = tup(sym("c0", "int"), sym("c1", "int"), sym("c2", "int"))


def fn_cases(e):
    """public functions working on caller arrays: (module, name, kinds, positional, keywords)"""
    L, U, V, X = "viqa.utils.loading", "viqa.utils.misc", "viqa.utils.visualization", "viqa.utils.export"
    for kind, c in (("2d", CENTER2), ("3d", CENTER3), ("rgb", CENTER2)):
        yield L, "load_data", kind, [I], []
        yield L, "load_data", kind, [I], [("data_range", const(255)), ("normalize", TRUE)]
        yield L, "load_data", kind, [I], [("roi", ROI3)]
        for hi in (1, 255, 65535):
            yield L, "normalize_data", kind, [I, tup(const(0), const(hi))], []
        yield L, "crop_image", kind, [I] + list(ROI3.args), []
        yield U, "_get_binary", kind, [I, const(10), const(90)], []
        yield U, "find_largest_region", kind, [I], []
        yield U, "_to_spherical", kind, [I, c, sym("radius", "int")], []
        yield U, "_to_cubic", kind, [I, c, sym("radius", "int")], []
    yield U, "_to_grayscale", "rgb", [I], []
    yield U, "_rgb_to_yuv", "rgb", [I], []
    for kind in ("2d", "3d"):
        for mode in ("correlate", "convolve"):
            yield U, "correlate_convolve_abs", kind, [I, K], [("mode", const(mode))]
    yield U, "_extract_blocks", "2d", [I, const(16), const(4)], []
    yield U, "gabor_convolve", "2d", [I, const(2), const(2)], []
    yield V, "visualize_2d", "2d", [I], []
    yield V, "visualize_3d", "3d", [I, tup(const(1), const(1), const(1))], []


def caller_mut(e, p, base, caller):
    """mutations of caller-owned objects on this path"""
    out = []
    for ev in p.st.events[base:]:
        if ev.kind != "mutate":
            continue
        t = ev.a[0]
        if t.op == "ref":
            if p.st.heap.get(t.args[0]) is not None and p.st.h(t).owner == "caller":
                out.append((ev, t))
            continue
        rs = e.roots(t)
        hit = [r for r in rs if r in caller]
        if hit:
            out.append((ev, hit[0]))
    return out


@register("C06", "Images and option values passed in are never modified", VN)
def c06(rep, tier):
    e = engine()
    rep.rule("image", "no in-place operation (item assignment, augmented assignment, out=, sort/fill/…) reaches memory of an image passed by the caller")
    rep.rule("option", "no in-place operation reaches an array, list or dictionary passed as an option (weights, ROI, parameter dictionaries)")
    rep.floor("image", 120)
    rep.floor("option", 8)
    dts = ("uint8", "float32", "float64") if tier == "quick" else ("uint8", "uint16", "int16", "float32", "float64")
    names = {R: "first image", M: "second image", I: "image", K: "kernel"}

    def report(rule, who, lab, res):
        for p, base in res:
            for ev, root in caller_mut(e, p, base, set(names) | {W}):
                rep.bad(rule, f"{who}: {ev.a[1]}", ev.loc, f"{lab}: {ev.a[1]} writes into the caller's {names.get(root, short(root))}")

    for cls, name, lab, kind, dt, chrom, kws in fr_cases(e, dts):
        for ctor in ((), (("normalize", TRUE),), (("roi", ROI3),)):
            if ctor and (kind == "rgb" or kws):
                continue
            rep.ob("image", 1, lab)
            rep.functions.add(score_fi(e, cls).label)
            e.cfg = scenario(kind, dt, load_opaque=False, opaque={"viqa.utils.misc.gabor_convolve"}, maxpaths=20000,
                             sinks=KERNEL_FUNCS if ctor else ())
            res = []
            for st, ref in build(e, cls, chromatic=chrom, data_range=const(255), **dict(ctor)):
                base = len(st.events)
                res += [(p, base) for p in method(e, st, ref, "score", [R, M], kws)]
            report("image", name, lab, res)
    for cls, name, lab, kind, dt, kws in nr_cases(e, dts):
        rep.ob("image", 1, lab)
        rep.functions.add(score_fi(e, cls).label)
        e.cfg = scenario(kind, dt, load_opaque=False, maxpaths=20000)
        res = []
        c = CENTER3 if kind == "3d" else CENTER2
        kws = [(k, c if k.endswith("center") else v) for k, v in kws]
        for rt in (("cubic", "spherical", "full") if kws else ("",)):
            for st, ref in build(e, cls, data_range=const(255)):
                base = len(st.events)
                res += [(p, base) for p in method(e, st, ref, "score", [I], kws + ([("region_type", const(rt))] if rt else []))]
        report("image", name, lab, res)
    for mod, fn, kind, pos, kws in fn_cases(e):
        for dt in dts:
            if fn == "find_largest_region" and dt != "uint8":
                continue
            f = func(e, mod, fn)
            rep.functions.add(e.p.func(mod, fn).label)
            e.cfg = scenario(kind, "bool" if fn == "find_largest_region" else dt, load_opaque=False, maxpaths=20000)
            rep.ob("image", 1, f"{fn} {kind} {dt}")
            report("image", fn, f"{fn} {kind} {dt}", [(p, 0) for p in call(e, f, pos, kws)])
    # options
    opts = [("MAD", "weights", [("weights", W)], "2d"), ("SSIM", "color_weights", [("color_weights", W)], "rgb")]
    for cname, oname, kws, kind in opts:
        cls = [c for c in fr_metrics(e) if c.args[1] == cname][0]
        for dt in ("uint8", "float64"):
            e.cfg = scenario(kind, dt, opaque={"viqa.utils.misc.gabor_convolve"}, maxpaths=20000)
            rep.ob("option", 1, f"{cname} {oname}")
            for st, ref in build(e, cls, chromatic=kind == "rgb"):
                base = len(st.events)
                report("option", cname, f"{cname} option {oname}", [(p, base) for p in method(e, st, ref, "score", [R, M], kws)])
    # dictionaries of options
    mk_dict(e, rep)


def mk_dict(e, rep):
    """caller-owned dictionaries and lists handed to score(), MultipleMetrics and the exporters"""
    cases = []
    mad = [c for c in fr_metrics(e) if c.args[1] == "MAD"][0]
    for o, items in (("csf_function", {"lambda_csf": sym("l", "num"), "f_peak": sym("f", "num")}), ("luminance_function", {"k": sym("k", "num"), "gamma": sym("g", "num")}),
                     ("display_function", {"disp_res": sym("d", "num"), "view_dis": sym("v", "num")})):
        cases.append((o, items))
    for o, items in cases:
        e.cfg = scenario("2d", "uint8", opaque={"viqa.utils.misc.gabor_convolve"})
        st, ref = build(e, mad)[0]
        d = e.new_dict(st, {const(k): v for k, v in items.items()}, owner="caller")
        sig = st.h(d).sig()
        kws = [(o, d)] + ([("account_monitor", TRUE)] if o == "display_function" else [])
        rep.ob("option", 1, f"MAD {o}")
        base = len(st.events)
        for p in method(e, st, ref, "score", [R, M], kws):
            if p.st.h(d).sig() != sig:
                ev = [x for x in p.st.events[base:] if x.kind == "mutate" and x.a[0] is d]
                rep.bad("option", f"MAD {o}", ev[0].loc if ev else fi_loc(e, score_fi(e, mad)), f"MAD modifies the caller's {o} dictionary")
    # MultipleMetrics / BatchMetrics: metric and parameter lists
    for cname in ("MultipleMetrics",):
        cls = mk("class", "viqa.multiple", cname)
        e.cfg = scenario("2d", "uint8", sinks=KERNEL_FUNCS)
        for mc in (fr_metrics(e)[4], nr_metrics(e)[0]):
            st, mref = build(e, mc)[0]
            par = e.new_dict(st, {} if mc in fr_metrics(e) else {const("signal_center"): SC, const("background_center"): BC, const("radius"): RAD}, owner="caller")
            ml = e.new_list(st, [mref], owner="caller")
            pl = e.new_list(st, [par], owner="caller")
            ps = construct(e, cls, [ml, pl], st=st)
            for q in ps:
                if q.kind != "ret":
                    continue
                sigs = [q.st.h(x).sig() for x in (par, ml, pl)]
                rep.ob("option", 1, f"{cname} {mc.args[1]}")
                for p in method(e, q.st, q.val, "calculate", [R, M]):
                    for x, sig, what in zip((par, ml, pl), sigs, ("parameter dictionary", "metric list", "parameter list")):
                        if p.st.h(x).sig() != sig:
                            fi = method_info(e, cls, "calculate")
                            rep.bad("option", f"{cname}: {what}", fi_loc(e, fi), f"{cname}.calculate modifies the caller's {what}")
    # exporters leave the metrics and results as they are
    X = "viqa.utils.export"
    f = func(e, X, "export_results")
    for scored in (True, False):
        e.cfg = scenario("2d", "uint8")
        st, mref = build(e, fr_metrics(e)[0])[0]
        if scored:
            st.hw(mref).attrs["score_val"] = sym("RECORDED", "num")
        ml = e.new_list(st, [mref], owner="caller")
        sig = st.h(mref).sig()
        rep.ob("option", 1, f"export_results {'scored' if scored else 'unscored'}")
        base = len(st.events)
        for p in call(e, f, [ml, sym("path", "str"), const("results.csv")], [("return_dict", TRUE)], st=st):
            if p.st.h(mref).sig() != sig:
                ev = [x for x in p.st.events[base:] if x.kind == "setattr" and x.a[0] is mref]
                rep.bad("option", f"export_results: {ev[0].a[1] if ev else 'metric'}", ev[0].loc if ev else fi_loc(e, e.p.func(X, "export_results")),
                        f"export_results changes {ev[0].a[1] if ev else 'an attribute'} of the metric it exports")
