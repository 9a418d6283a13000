"""The region CNR and SNR work on: given in the call, stored in the metric, or chosen interactively."""
import itertools

from .scoring import *

NR = {"CNR": ("signal_center", "background_center", "radius"), "SNR": ("signal_center", "radius")}
NMOD = {"CNR": "viqa.nr_metrics.cnr", "SNR": "viqa.nr_metrics.snr"}
SCORE = {"CNR": "viqa.nr_metrics.cnr.contrast_to_noise_ratio", "SNR": "viqa.nr_metrics.snr.signal_to_noise_ratio"}
WIDGETS = mk("call", "importlib.import_module", (const("ipywidgets"),), ())
START = {"iterations": 2, "lower_threshold": 90, "upper_threshold": 99}
AX = {"x": 0, "y": 1, "z": 2}


def centre(tag, n):
    return tup(*[sym(f"{tag}{i}", "int") for i in range(n)])


def values(tag, metric, n):
    v = {"signal_center": centre(tag + "_signal", n), "background_center": centre(tag + "_background", n), "radius": sym(tag + "_radius", "int")}
    return {k: v[k] for k in NR[metric]}


def rad_facts(key):
    """radii are positive integers, coordinates are integers, regions lie inside the image"""
    if key.op == "isinstance" and key.args[0].op == "floordiv":
        return True
    if key.op == "lt" and is_const(key.args[1], 0) and key.args[0].op == "sub" and key.args[0].args[0].op == "call":
        return False
    if key.op == "lt" and len(key.args) == 2:
        a, b = key.args
        if is_const(a, 0) and b.op == "sym" and str(b.args[0]).endswith("_radius"):
            return True
        if is_const(b, 1) and a.op == "sym" and str(a.args[0]).endswith("_radius"):
            return False
    if key.op == "le" and len(key.args) == 2:
        a, b = key.args
        if is_const(b, 0) and a.op == "sym" and str(a.args[0]).endswith("_radius"):
            return False
        if is_const(a, 1) and b.op == "sym" and str(b.args[0]).endswith("_radius"):
            return True
    if key.op == "sym" and str(key.args[0]).endswith("_radius"):
        return True
    if key.op in ("sinkres", "opaque") and key.args[0] == "viqa.utils._module.is_ipython":
        return True
    return None


def plotters(e):
    """the package's region plotting functions"""
    out = {}
    for (m, q), fi in e.p.funcs.items():
        if m == "viqa.utils.visualization" and "." not in q and {"img", "signal_center", "radius"} <= set(params(fi)):
            out[f"{m}.{q}"] = fi
    return out


def finders(e):
    return [f"{m}.{q}" for (m, q) in e.p.funcs if m.startswith("viqa.utils") and q in ("find_largest_region", "_get_binary")]


def store_params(st, ref, vals):
    d = st.hw(st.h(ref).attrs["parameters"]).items
    for k, v in vals.items():
        d[const(k)] = v


def stored(st, ref):
    return {cval(k): v for k, v in st.h(st.h(ref).attrs["parameters"]).items.items() if is_const(k)}


def fresh(e, cls):
    for p in construct(e, cls, [], [("data_range", DR)]):
        if p.kind == "ret":
            return p.st, p.val
    raise AnalysisBroken(f"{cls.args[1]} cannot be constructed")


BROKEN = {"unbound": ("UnboundLocalError", "NameError"), "badcall": ("TypeError",), "noattr": ("AttributeError",), "keyerror": ("KeyError",)}
NEEDS_VALUE = {"builtins.len", "builtins.iter", "builtins.tuple", "builtins.list", "builtins.zip", "builtins.abs"}


def bug(e, p, base):
    """a programming error on the path: (what, where), or None"""
    name = e.exc_name(p.val) if p.kind == "exc" else None
    for ev in p.st.events[base:]:
        if ev.kind in BROKEN and name in BROKEN[ev.kind]:
            what = next((str(x) if isinstance(x, str) else short(x, 60) for x in reversed(ev.a) if isinstance(x, (str, T))), "")
            return f"{name} ({what})", ev.loc
        if ev.kind == "ext" and ev.a[0] in NEEDS_VALUE and any(is_const(x, None) for x in ev.a[1]):
            return f"TypeError ({ev.a[0].split('.')[-1]} of None)", ev.loc
        if ev.kind == "setattr" and isinstance(ev.a[0], T) and is_const(ev.a[0], None):
            return f"AttributeError (None has no attribute {ev.a[1]})", ev.loc
    return None


def subsets(names):
    full = tuple(names)
    yield ()
    yield full
    for k in names:
        yield tuple(x for x in names if x != k)


@register("C38", "CNR and SNR use and save exactly the region chosen", VN)
def c38(rep, tier):
    e = engine()
    rep.rule("score", "score computes with the centres and radius of the call, or with the stored ones when none are given; a value is never replaced by anything else")
    rep.rule("remember", "after score, the metric's parameters hold the centres and radius used")
    rep.rule("missing", "a centre or radius neither given nor stored is rejected with ValueError before anything is computed or plotted")
    rep.rule("visualize", "visualize_centers plots the centres and radius given, or the stored ones when none are given")
    rep.rule("slider", "the interactive sliders start at the stored, given or default value of the coordinate they control and end at the extent of its axis")
    rep.rule("shown", "the interactive plot shows the coordinates of the sliders")
    rep.rule("saved", "saving stores the coordinates, radius and region type shown")
    rep.rule("region", "the region calculated interactively uses the sliders' thresholds and iterations, and is the one shown")
    rep.rule("again", "the interactive selection can be opened again with what it has stored")
    for r, n in (("score", 30), ("remember", 30), ("missing", 20), ("visualize", 30), ("slider", 40), ("shown", 12), ("saved", 12), ("again", 8), ("region", 60)):
        rep.floor(r, n)
    vis = plotters(e)
    for metric in NR:
        cls = mk("class", NMOD[metric], metric)
        for kind in ("2d", "3d", "rgb"):
            n = 3 if kind == "3d" else 2
            given, kept = values("given", metric, n), values("stored", metric, n)
            for g, s in itertools.product(subsets(NR[metric]), subsets(NR[metric])):
                direct(rep, e, cls, metric, kind, {k: given[k] for k in g}, {k: kept[k] for k in s}, vis)
            interactive(rep, e, cls, metric, kind, n, vis)


def region_types(metric):
    return ("cubic",) if metric == "SNR" else (None,)


def direct(rep, e, cls, metric, kind, g, s, vis):
    names = NR[metric]
    lab = f"{metric} {kind}, given {'+'.join(g) or 'nothing'}, stored {'+'.join(s) or 'nothing'}"
    available = all(k in g for k in names) or all(k in s for k in names)
    missing = any(k not in g and k not in s for k in names)
    for op in ("score", "visualize_centers"):
        if op == "score":
            e.cfg = scenario(kind, "uint8", sinks=[SCORE[metric]], facts=rad_facts)
            kws = list(g.items())
        else:
            if not vis:
                rep.ob("undecided", 1, "no plotting function found")
                continue
            e.cfg = scenario(kind, "uint8", sinks=list(vis), facts=rad_facts)
            kws = list(g.items()) + ([("region_type", const("cubic"))] if metric == "SNR" else [])
        st, ref = fresh(e, cls)
        store_params(st, ref, s)
        fi = method_info(e, cls, op)
        loc = fi_loc(e, fi)
        rep.functions.add(fi.label)
        base = len(st.events)
        sinks = {SCORE[metric]} if op == "score" else set(vis)
        rule = "score" if op == "score" else "visualize"
        reached = 0
        for p in method(e, st, ref, op, [I], kws):
            evs = [ev for ev in p.st.events[base:] if ev.kind == "sink" and ev.a[0] in sinks]
            b = bug(e, p, base)
            if b:
                rep.bad(rule, f"{lab}: {b[0]}", b[1], f"{lab}: {op} fails with {b[0]}")
                continue
            if missing:
                rep.ob("missing", 1, f"{lab} {op}")
                if evs or p.kind == "ret":
                    rep.bad("missing", f"{lab} {op}", loc, f"{lab}: {op} goes ahead although {next(k for k in names if k not in g and k not in s)} is neither given nor stored")
                elif e.exc_name(p.val).split(".")[-1] != "ValueError":
                    rep.bad("missing", f"{lab} {op} error", loc, f"{lab}: {op} raises {e.exc_name(p.val)} instead of ValueError")
                continue
            if p.kind != "ret" or not evs:
                continue
            reached += 1
            for ev in evs:
                a = dict(ev.a[1])
                for k in names:
                    rep.ob(rule, 1, f"{lab}: {k}")
                    got = a.get(k)
                    if all(x in g for x in names):
                        want = [g[k]]
                    elif not g or op == "visualize_centers" and metric == "CNR" and not any(x in g for x in names):
                        want = [s[k]]
                    else:
                        want = [x[k] for x in (g, s) if k in x]      # partly given: either source
                    if got not in want:
                        rep.bad(rule, f"{lab}: {k}", ev.loc, f"{lab}: {op} uses {short(got, 80) if got is not None else 'no value'} as {k} instead of the {'given' if want[0] is g.get(k) else 'stored'} one")
                    elif op == "score":
                        rep.ob("remember", 1, f"{lab}: {k}")
                        now = stored(p.st, ref).get(k)
                        if now is not got:
                            rep.bad("remember", f"{lab}: {k}", loc, f"{lab}: after score the parameters hold {short(now, 80) if now is not None else 'nothing'} as {k}, not the value used")
        if not missing and available and not reached:
            rep.bad(rule, f"{lab}: rejected", loc, f"{lab}: {op} does not go ahead although every centre and the radius are {'given' if all(k in g for k in names) else 'stored'}")


# ---------------------------------------------------------------- interactive selection
def widget(t):
    """(kind, positional, keywords) of a call of the widget library"""
    while t.op in ("setattr", "store", "mut"):
        t = t.args[0]
    if t.op == "call" and str(t.args[0]).startswith("ipywidgets."):
        return t.args[0].split(".")[-1], t.args[1], dict(t.args[2])
    if t.op == "mcall" and t.args[0] == WIDGETS:
        return t.args[1], t.args[2], dict(t.args[3])
    return None


def widget_calls(p, base, names):
    out = []
    for ev in p.st.events[base:]:
        if ev.kind == "ext" and ev.a[0].startswith("ipywidgets."):
            w = ev.a[0].split(".")[-1], ev.a[1], dict(ev.a[2])
        elif ev.kind == "mcall" and ev.a[0] is WIDGETS:
            w = ev.a[1], ev.a[2], dict(ev.a[3])
        else:
            continue
        if w[0] in names:
            out.append((ev, w))
    return out


def controls(e, w, st):
    """(function, {argument: widget}) of an interactive output"""
    kind, pos, kws = w
    f = pos[0] if pos else kws.pop("f", None)
    if kind == "interactive_output":
        d = pos[1] if len(pos) > 1 else kws.get("controls")
        if d is None:
            return f, None
        d = e.freeze(d, st)
        if d.op != "dictv" or any(i.op != "tuple" or not is_const(i.args[0]) for i in d.args):
            return f, None
        return f, {cval(i.args[0]): i.args[1] for i in d.args}
    return f, kws


def same_widget(a, b):
    wa, wb = widget(a), widget(b)
    return wa is not None and wb is not None and wa[0] == wb[0] and wa[1:] == wb[1:]


def axes_in(t):
    return {x.args[1] for x in subterms(t) if x.op == "dim" and isinstance(x.args[1], int)}


def interactive(rep, e, cls, metric, kind, n, vis):
    names = NR[metric]
    fi = method_info(e, cls, "set_centers")
    loc = fi_loc(e, fi)
    rep.functions.add(fi.label)
    given, kept = values("given", metric, n), values("stored", metric, n)
    more = {"region_type": "spherical"} if metric == "SNR" else {}
    gx = {k: sym("given_" + k, "int") for k in START} if metric == "SNR" else {}
    kx = {k: sym("stored_" + k, "int") for k in START} if metric == "SNR" else {}
    cases = [("nothing", {}, {}), ("given", {**given, **gx}, {}), ("stored", {}, {**kept, **kx})]
    if metric == "CNR":
        cases.append(("given and stored", given, kept))
    else:
        cases.append(("given and stored", {**given, **gx}, {**kept, **kx}))
    for tag, g, s in cases:
        for rt in (("cubic", "spherical", "full", "original") if metric == "SNR" else (None,)):
            e.cfg = scenario(kind, "uint8", sinks=list(vis) + ["viqa.utils._module.is_ipython"] + finders(e), opaque=["viqa.utils._module.check_interactive_vis_deps"], facts=rad_facts)
            st, ref = fresh(e, cls)
            store_params(st, ref, s)
            kws = list(g.items())
            if rt is not None:
                if tag == "stored":
                    store_params(st, ref, {"region_type": const(rt)})
                else:
                    kws.append(("region_type", const(rt)))
            lab = f"{metric}.set_centers {kind}, {tag}" + (f", region type {rt}" if rt else "")
            base = len(st.events)
            rets = 0
            for p in method(e, st, ref, "set_centers", [I], kws):
                b = bug(e, p, base)
                if b:
                    rep.bad("again" if "stored" in tag else "slider", f"{lab}: {b[0]}", b[1], f"{lab}: fails with {b[0]}")
                if p.kind != "ret":
                    continue
                rets += 1
                session(rep, e, p, ref, base, metric, kind, n, g, s, rt, lab, loc, vis)
                rep.ob("again", 1, lab)
                reopened = 0
                for q in method(e, p.st, ref, "set_centers", [I], kws):
                    b = bug(e, q, len(p.st.events))
                    if b:
                        rep.bad("again", f"{lab}: {b[0]}", b[1], f"{lab}: opening the selection again with the same arguments fails with {b[0]}")
                    reopened += q.kind == "ret"
                    for ev, w in widget_calls(q, len(p.st.events), ("IntSlider", "IntText", "BoundedIntText", "Dropdown")):
                        if w[2].get("value") is not None and is_const(w[2]["value"], None):
                            d = w[2].get("description")
                            rep.bad("again", f"{lab}: start of {short(d, 30) if d is not None else 'a slider'}", ev.loc, f"{lab}: opened again, {short(d, 30) if d is not None else 'a slider'} starts at None instead of its default")
                if not reopened:
                    rep.bad("again", f"{lab}: rejected", loc, f"{lab}: the selection cannot be opened again with the same arguments")
            if not rets:
                rep.bad("slider", f"{lab}: rejected", loc, f"{lab}: a valid selection is not opened")


def session(rep, e, p, ref, base, metric, kind, n, g, s, rt, lab, loc, vis):
    names = NR[metric]
    outs = widget_calls(p, base, ("interactive_output", "interactive", "interact"))
    if len(outs) != 1:
        rep.ob("undecided", 1, f"{lab}: {len(outs)} interactive outputs")
        return
    oloc = outs[0][0].loc
    f, ctl = controls(e, outs[0][1], p.st)
    if ctl is None or f is None or f.op not in ("closure", "func", "bound"):
        rep.ob("undecided", 1, f"{lab}: controls not read")
        return
    first = (s, g) if metric == "CNR" and all(k in s for k in names) else (g, s)

    def start(k):
        for src in first:
            if k in src:
                return src[k]
        return None
    # what the sliders control
    for key, w in ctl.items():
        nm, ax = (key[:-2], AX.get(key[-1])) if key[-2:-1] == "_" and key[-1] in AX else (key, None)
        if nm not in names:
            continue
        w = widget(w)
        a = w and w[2]
        if a is None:
            rep.ob("undecided", 1, f"{lab}: widget of {key}")
            continue
        rep.ob("slider", 1, f"{lab}: {key}")
        v0 = start(nm)
        got = a.get("value")
        if v0 is not None:
            want = v0 if ax is None else v0.args[ax]
            if got is not want:
                rep.bad("slider", f"{lab}: {key}", oloc, f"{lab}: the slider for {key} starts at {short(got, 60) if got is not None else 'its default'} instead of {short(want, 40)}")
        elif ax is not None and got is not None and axes_in(got) - {ax}:
            rep.bad("slider", f"{lab}: {key}", oloc, f"{lab}: the slider for {key} starts at the centre of axis {sorted(axes_in(got))}, not of axis {ax}")
        if ax is not None:
            for end in ("min", "max"):
                t = a.get(end)
                if t is not None and axes_in(t) - {ax}:
                    rep.bad("slider", f"{lab}: {key} {end}", oloc, f"{lab}: the slider for {key} is limited by the extent of axis {sorted(axes_in(t))} instead of axis {ax}")
            t = a.get("max")
            if t is None or ax not in axes_in(t):
                rep.bad("slider", f"{lab}: {key} max", oloc, f"{lab}: the slider for {key} does not end at the extent of axis {ax}")
    # changing the radius
    for ev, cb in callbacks(p, base, "observe"):
        mark = len(p.st.events)
        rep.ob("slider", 1, f"{lab}: radius changes")
        for q in run(e, lambda: e.call(cb, [sym("change", "any")], [], None, None, top_frame(), p.st.fork(), NODE)):
            b = bug(e, q, mark)
            if b:
                rep.bad("slider", f"{lab}: radius changes: {b[0]}", b[1], f"{lab}: changing the radius fails with {b[0]}")
            for x in q.st.events[mark:]:
                if x.kind == "setattr" and x.a[1] in ("min", "max") and isinstance(x.a[2], T):
                    mine = {k for k, w in ctl.items() if same_widget(w, x.a[0])}
                    axs = {AX[k[-1]] for k in mine if k[-2:-1] == "_" and k[-1] in AX}
                    if len(axs) == 1 and axes_in(x.a[2]) - axs:
                        rep.bad("slider", f"{lab}: {sorted(mine)[0]} {x.a[1]} after a radius change", x.loc, f"{lab}: when the radius changes, the slider for {sorted(mine)[0]} is limited by the extent of axis {sorted(axes_in(x.a[2]))} instead of axis {axs.pop()}")
    # moving the sliders
    moved = {k: sym("moved_" + k + ("_radius" if k == "radius" else ""), "int") for k in ctl}
    want = {}
    for nm in names:
        if nm == "radius":
            want[nm] = moved.get("radius")
        else:
            cs = [moved.get(f"{nm}_{x}") for x in "xyz"[:n]]
            want[nm] = None if None in cs else tup(*cs)
    if None in want.values():
        rep.ob("undecided", 1, f"{lab}: controls {sorted(ctl)}")
        return
    for rt2 in ((rt, "cubic", "spherical", "full", "original") if rt else (None,)):
        if rt2 is not None:
            if "region_type" not in ctl:
                rep.ob("undecided", 1, f"{lab}: no region type")
                return
            moved["region_type"] = const(rt2)
        mark = len(p.st.events)
        for q in run(e, lambda: e.call(f, [], list(moved.items()), None, None, top_frame(), p.st.fork(), NODE)):
            b = bug(e, q, mark)
            if b:
                rep.bad("shown", f"{lab}: {b[0]}", b[1], f"{lab}: moving a slider fails with {b[0]}")
            if q.kind != "ret":
                continue
            evs = [ev for ev in q.st.events[mark:] if ev.kind == "sink" and ev.a[0] in vis]
            for ev in evs:
                a = dict(ev.a[1])
                for k, v in list(want.items()) + ([("region_type", const(rt2))] if rt2 else []):
                    rep.ob("shown", 1, f"{lab}: {k}")
                    if a.get(k) is not v:
                        rep.bad("shown", f"{lab}: {k}", ev.loc, f"{lab}: the plot shows {short(a[k], 80) if a.get(k) is not None else 'no value'} as {k}, the sliders say {short(v, 80)}")
            if not evs:
                rep.bad("shown", f"{lab}: not shown", oloc, f"{lab}: moving the sliders does not plot the region")
            buttons(rep, e, q, ref, base, metric, want, rt2, lab, loc, start, f, moved, vis)


def callbacks(p, base, name):
    out = []
    for ev in p.st.events[base:]:
        if ev.kind == "mcall" and ev.a[1] == name and ev.a[2]:
            out.append((ev, ev.a[2][0]))
    return out


def buttons(rep, e, q, ref, base, metric, want, rt, lab, loc, start, f, moved, vis):
    cbs = callbacks(q, base, "on_click")
    if not cbs:
        rep.ob("undecided", 1, f"{lab}: no button")
        return
    need = dict(want)
    if rt is not None:
        need = {**want, "region_type": const(rt)} if rt in ("cubic", "spherical") else {"region_type": const(rt)}
    rep.ob("saved", 1, lab)
    best = None
    for ev, cb in cbs:
        mark = len(q.st.events)
        for r in run(e, lambda: e.call(cb, [sym("button", "any")], [], None, None, top_frame(), q.st.fork(), NODE)):
            b = bug(e, r, mark)
            if b:
                rep.bad("saved", f"{lab}: {b[0]}", b[1], f"{lab}: pressing a button fails with {b[0]}")
            if r.kind != "ret":
                continue
            calc = {x.a[0].split(".")[-1]: x for x in r.st.events[mark:] if x.kind == "sink" and x.a[0] in finders(e)}
            if len(calc) == 2:
                region(rep, e, r, calc, metric, rt, want, lab, start, f, moved, vis)
                continue
            now = stored(r.st, ref)
            off = [k for k, v in need.items() if now.get(k) is not v]
            if best is None or len(off) < len(best[0]):
                best = (off, now, ev)
    if best is not None and best[0]:
        k = best[0][0]
        rep.bad("saved", f"{lab}: {k}", best[2].loc, f"{lab}, {rt or ''}: saving stores {short(best[1][k], 80) if best[1].get(k) is not None else 'nothing'} as {k} instead of {short(need[k], 80)} shown")


def slider_start(t):
    """the start value of the slider whose current value t is"""
    if t.op == "attr" and t.args[1] == "value":
        w = widget(t.args[0])
        return w and w[2].get("value")
    return None


def region(rep, e, r, calc, metric, rt, want, lab, start, f, moved, vis):
    """the region calculated automatically follows the sliders and is shown"""
    b, l = dict(calc["_get_binary"].a[1]), dict(calc["find_largest_region"].a[1])
    for k, a, ev in (("lower_threshold", b, calc["_get_binary"]), ("upper_threshold", b, calc["_get_binary"]), ("iterations", l, calc["find_largest_region"])):
        rep.ob("region", 1, f"{lab}: {k}")
        got = slider_start(a[k]) if k in a else None
        if got is None:
            rep.ob("undecided", 1, f"{lab}: {k} of the region")
            continue
        v = start(k)
        ok = got is v if v is not None else is_const(got, START[k])
        if not ok:
            rep.bad("region", f"{lab}: {k}", ev.loc, f"{lab}: the region is calculated with the slider starting at {short(got, 40)} as {k}")
    rep.ob("region", 1, f"{lab}: region type")
    if l.get("region_type") is not const(rt):
        rep.bad("region", f"{lab}: region type", calc["find_largest_region"].loc, f"{lab}: the region is calculated for {short(l['region_type'], 40) if 'region_type' in l else 'the default type'}, not for {rt}")
    mark = len(r.st.events)
    kws = dict(moved, region_type=const("full"))
    for q in run(e, lambda: e.call(f, [], list(kws.items()), None, None, top_frame(), r.st.fork(), NODE)):
        for ev in q.st.events[mark:]:
            if ev.kind == "sink" and ev.a[0] in vis:
                rep.ob("region", 1, f"{lab}: shown")
                a = dict(ev.a[1])
                sg = e.freeze(a["signal"], q.st) if "signal" in a else NONE
                if not any(x.op == "sinkres" and x.args[0].endswith("find_largest_region") for x in subterms(sg)):
                    rep.bad("region", f"{lab}: shown", ev.loc, f"{lab}: the plot does not show the region calculated but {short(sg, 60)}")
                elif sg.op == "call" and sg.args[0] in ("numpy.ma.array", "numpy.ma.masked_array"):
                    kw = dict(sg.args[2])
                    m = kw.get("mask")
                    if a.get("img") is not None and sg.args[1] and sg.args[1][0] is not a["img"]:
                        rep.bad("region", f"{lab}: values", ev.loc, f"{lab}: the region shown holds {short(sg.args[1][0], 60)}, not the image")
                    if m is not None and m.op not in ("invert", "not", "call", "ne"):
                        rep.bad("region", f"{lab}: mask", ev.loc, f"{lab}: the plot masks the region instead of its surroundings")
