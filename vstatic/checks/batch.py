"""Batch and multi-metric evaluation: reuse of earlier results, attribution of results, result files."""
from .scoring import *

MULT = "viqa.multiple"
CROP = "viqa.utils.loading.crop_image"
DIR, PAIRS = sym("file_dir", "str"), sym("pairs_file", "str")


def score_sinks(e):
    return {f"{c.args[0]}.{c.args[1]}.score" for c in fr_metrics(e) + nr_metrics(e)}


def by_name(e, name):
    return [c for c in fr_metrics(e) + nr_metrics(e) if c.args[1] == name][0]


def roi_of(k):
    return tup(*(tup(sym(f"ROI{k}_{a}0", "int"), sym(f"ROI{k}_{a}1", "int")) for a in "xyz"))


# ---------------------------------------------------------------- congruence under path conditions
def rewrite(t, f, memo):
    """bottom-up rewriting of a term"""
    if isinstance(t, tuple):
        return tuple(rewrite(x, f, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is None:
        a = tuple(rewrite(x, f, memo) for x in t.args)
        r = T(t.op, a) if a != t.args else t
        r = f(r)
        memo[t] = r
    return r


def idem(t):
    """loading an already loaded image without normalization or cropping returns it (decided by C30)"""
    while loaded(t):
        d = dict(t.args[1])
        if loaded(d["img"]) and is_const(d.get("normalize", FALSE), False) and is_const(d.get("roi", NONE), None):
            t = d["img"]
        else:
            break
    return t


class Congruence:
    """the equalities a path has established"""

    def __init__(self, conds):
        self.par = {}
        self.pairs = []
        for c, v in conds.items():
            if v and c.op in ("eq", "is"):
                self._add(*c.args)
        for _ in range(6):
            ch = False
            for a, b in list(self.pairs):
                x, y = self.norm(a), self.norm(b)
                if x is not y:
                    self._union(x, y)
                    ch = True
            if not ch:
                break

    def _add(self, a, b):
        if a.op in ("tuple", "listv") and b.op == a.op and len(a.args) == len(b.args):
            for x, y in zip(a.args, b.args):
                self._add(x, y)
            return
        if a.op == "mcall" and b.op == "mcall" and a.args[1] == b.args[1] == "tobytes":
            a, b = a.args[0], b.args[0]
        self.pairs.append((a, b))
        if a.op == "shape" and b.op == "shape":
            for i in range(3):
                self.pairs.append((mk("dim", a.args[0], i), mk("dim", b.args[0], i)))

    def find(self, t):
        while t in self.par:
            t = self.par[t]
        return t

    def _union(self, a, b):
        if is_const(b) or (not is_const(a) and b.n < a.n):
            a, b = b, a
        self.par[b] = a

    def norm(self, t):
        return rewrite(t, lambda x: self.find(idem(x)), {})


def normalised(e, cong, conds):
    """conditions under the path's equalities; None: the path is infeasible"""
    norm = {}
    for k, v in conds.items():
        kk, pol = e.norm(cong.norm(k))
        v = v if pol else not v
        if norm.setdefault(kk, v) is not v or (kk.op == "eq" and kk.args[0] is kk.args[1] and not v):
            return None
    return norm


def contradicts(e, cong, conds, mine):
    """do the conditions `conds` (of another run) contradict this path"""
    norm = normalised(e, cong, mine)
    for k, v in conds.items():
        kk, pol = e.norm(cong.norm(k))
        v = v if pol else not v
        if norm.get(kk, v) is not v:
            return True
        if kk.op == "eq" and kk.args[0] is kk.args[1] and not v:
            return True
        if kk.op == "eq" and not v:
            a, b = kk.args
            if a.op == "tuple" and b.op == "tuple" and a is b:
                return True
    return False


# ---------------------------------------------------------------- building a batch
def batch(e, metrics, n, rois=None, dtype=None, kind="3d", kwargs=()):
    """-> (state, batch object, [(metric ref, parameter dictionary)]); pairs are set by set_pairs"""
    e.cfg = scenario(kind, dtype, sinks=score_sinks(e), opaque={CROP}, maxpaths=60000)
    st, refs, pars = None, [], []
    for i, name in enumerate(metrics):
        kw = [("data_range", DR)]
        if st is None:
            st, r = build(e, by_name(e, name))[0]
        else:
            p = [q for q in construct(e, by_name(e, name), [], kw, st=st) if q.kind == "ret"][0]
            st, r = p.st, p.val
        refs.append(r)
    for i, name in enumerate(metrics):
        takes = has_kwargs(method_info(e, by_name(e, name), "score"))
        pars.append(e.new_dict(st, {const(f"opt{i}"): sym(f"PARAM{i}")} if takes else {}, owner="caller"))
    ml, pl = e.new_list(st, refs, owner="caller"), e.new_list(st, pars, owner="caller")
    cls = mk("class", MULT, "BatchMetrics")
    rl = e.new_list(st, rois, owner="caller") if rois is not None else NONE
    ps = [q for q in construct(e, cls, [DIR, PAIRS, ml, pl], [("rois", rl)], st=st) if q.kind == "ret"]
    if not ps:
        raise AnalysisBroken("BatchMetrics cannot be constructed")
    # the number of pairs in the file equals the number of regions of interest
    q = ps[0]
    q.st.conds = {}
    return q.st, q.val, refs


def pairs_attr(e, st, ref):
    at = st.h(ref).attrs
    if "pairs" in at:
        return "pairs"
    c = [a for a, v in at.items() if isinstance(v, T) and any(isinstance(x, T) and x.op == "call" and "DictReader" in str(x.args[0]) for x in subterms(e.freeze(v, st)))]
    if len(c) != 1:
        raise AnalysisBroken("BatchMetrics: no attribute holds the image pairs")
    return c[0]


def set_pairs(e, st, ref, ks):
    st = st.fork()
    prs = [e.new_dict(st, {const("reference_image"): sym(f"REF{k}", "str"), const("modified_image"): sym(f"MOD{k}", "str")}) for k in ks]
    st.hw(ref).attrs[pairs_attr(e, st, ref)] = e.new_list(st, prs)
    return st


def results_of(e, p):
    """{pair key: {name: term}} of a returning path, or None when it is not a dictionary of dictionaries"""
    v = p.val
    if v.op != "ref" or p.st.h(v).kind != "dict":
        return None
    out = {}
    for k, d in p.st.h(v).items.items():
        if d.op == "ref" and p.st.h(d).kind == "dict":
            out[k] = {a: e.freeze(b, p.st) for a, b in p.st.h(d).items.items()}
        else:
            out[k] = e.freeze(d, p.st)
    return out


def unfl(t):
    while t.op == "call" and t.args[0] in ("builtins.float", "numpy.float64", "numpy.float32") and t.args[1]:
        t = t.args[1][0]
    return t


@register("C10", "A pair's batch result does not depend on the other pairs", VN)
def c10(rep, tier):
    e = engine()
    rep.rule("same", "for every sequence of pairs, sharing any images or none, the result of pair k equals - under the equalities the path has established - the result of a batch consisting of pair k alone")
    rep.rule("complete", "every pair of the sequence has a result of its own key")
    rep.floor("same", 200)
    fi = method_info(e, mk("class", MULT, "BatchMetrics"), "calculate")
    rep.functions.add(fi.label)
    loc = fi_loc(e, fi)
    n = 3 if tier == "quick" else 4
    for label, use_rois, kws in (("no ROI", False, []), ("one ROI per pair", True, []), ("one ROI for all pairs", False, [("roi", roi_of("G"))])):
        for metrics in (["GSM", "SNR"],) if tier == "quick" else (["GSM", "SNR"], ["CNR"], ["RMSE", "CNR", "SNR"]):
            for size in range(2, n + 1):
                st, ref, mrefs = batch(e, metrics, size, [roi_of(k) for k in range(size)] if use_rois else None)
                single, raises = {}, set()
                for k in range(size):
                    s1 = set_pairs(e, st, ref, [k])
                    if use_rois:
                        at = s1.hw(ref).attrs
                        nm = [a for a, v in at.items() if v.op == "ref" and s1.h(v).kind == "list" and list(s1.h(v).items) == [roi_of(j) for j in range(size)]]
                        if len(nm) != 1:
                            raise AnalysisBroken("BatchMetrics: no attribute holds the regions of interest")
                        at[nm[0]] = e.new_list(s1, [roi_of(k)])
                    ones = method(e, s1, ref, "calculate", [], list(kws))
                    raises |= {e.exc_name(p.val) for p in ones if p.kind == "exc"}
                    single[k] = [(p.st.conds, (results_of(e, p) or {}).get(const("0"))) for p in ones if p.kind == "ret"]
                    if not single[k] or any(r is None for c, r in single[k]):
                        rep.bad("complete", "single pair", loc, f"{label}: a batch of one pair has no result '0'")
                        return
                s2 = set_pairs(e, st, ref, range(size))
                for p in method(e, s2, ref, "calculate", [], list(kws)):
                    if p.kind != "ret":
                        if e.exc_name(p.val) not in raises:
                            rep.bad("complete", f"raises {e.exc_name(p.val)}", loc, f"{label}: a batch of {size} pairs raises {e.exc_name(p.val)} although each pair alone does not")
                        continue
                    rs = results_of(e, p)
                    if rs is None:
                        continue
                    cong = Congruence(p.st.conds)
                    if normalised(e, cong, p.st.conds) is None:
                        continue
                    for k in range(size):
                        rep.ob("complete", 1)
                        got = rs.get(const(str(k)))
                        if got is None:
                            rep.bad("complete", "missing pair", loc, f"{label}: pair {k} of {size} has no result")
                            continue
                        for conds, want in single[k]:
                            if contradicts(e, cong, conds, p.st.conds):
                                continue
                            rep.ob("same", 1, f"{label}, {'+'.join(metrics)}, {size} pairs")
                            if not isinstance(got, dict):
                                rep.bad("same", "not a result", loc, f"{label}: the result of pair {k} is {short(got)}")
                                continue
                            if set(got) != set(want):
                                rep.bad("same", "metrics", loc, f"{label}: pair {k} of {size} has results for {sorted(map(show, got))} instead of {sorted(map(show, want))}")
                                continue
                            for m in want:
                                a, b = cong.norm(unfl(got[m])), cong.norm(unfl(want[m]))
                                if a is not b and any(x.op == "sinkres" for x in subterms(a)):
                                    rep.bad("same", f"{cval(m) if is_const(m) else show(m)}", loc,
                                            f"{label}: in a batch of {size} pairs the value of {show(m)} for pair {k} is one computed for another pair although "
                                            + why(e, p, cong, k, use_rois),
                                            {"got": show(got[m])[:2000], "alone": show(want[m])[:2000]})


def why(e, p, cong, k, rois):
    for j in range(k - 1, -1, -1):
        d = []
        for nm in ("REF", "MOD"):
            a, b = (mk("call", "os.path.join", (DIR, sym(f"{nm}{x}", "str")), ()) for x in (j, k))
            if cong.norm(a) is not cong.norm(b):
                d.append({"REF": "reference image", "MOD": "modified image"}[nm])
        if rois and cong.norm(roi_of(j)) is not cong.norm(roi_of(k)):
            d.append("region of interest")
        if len(d) < 3:
            return f"pairs {j} and {k} need not have the same {' or '.join(d) or 'preprocessing'}"
    return "nothing shows the pairs to be the same"


# ---------------------------------------------------------------- attribution of results
def chain(t):
    """-> (base, [(step, details)]) outermost step first: how a compared image was made"""
    steps = []
    while True:
        if loaded(t):
            d = dict(t.args[1])
            steps.append(("load", d))
            t = d["img"]
        elif t.op == "opaque" and t.args[0] == CROP:
            d = dict(t.args[1])
            steps.append(("crop", d))
            t = d["img"]
        elif t.op == "call" and t.args[0].endswith("resize") and len(t.args[1]) >= 2:
            steps.append(("resize", {"shape": t.args[1][1], "kw": dict(t.args[2])}))
            t = t.args[1][0]
        elif t.op == "call" and t.args[0] in ("numpy.astype", "numpy.asarray", "numpy.array", "numpy.copy", "numpy.asanyarray") and t.args[1]:
            t = t.args[1][0]
        elif t.op == "mcall" and t.args[1] in ("astype", "copy"):
            t = t.args[0]
        else:
            return t, steps


def all_names(e):
    return [c.args[1] for c in fr_metrics(e) + nr_metrics(e)]


def res_name(e, st, ref, i):
    v = st.h(ref).attrs.get("_name")
    if v is None or not is_const(v):
        raise AnalysisBroken("metric without a constant name")
    return cval(v)


@register("C11", "Multi-metric results belong to the right metric and image", VN)
def c11(rep, tier):
    e = engine()
    rep.rule("keys", "the results of a pair are exactly: the name of each full-reference metric, and name_r and name_m of each no-reference metric")
    rep.rule("own", "each value is the score of the metric of that name, called with that metric's own parameters and no others")
    rep.rule("roles", "full-reference metrics get (reference, modified); name_r comes from the reference image and name_m from the modified image of the pair")
    rep.rule("prep", "both images are cropped to the region of interest exactly when one is given; only the modified image is resized, to the reference's shape, with the requested order")
    rep.rule("stored", "what calculate returns is what the object keeps as results")
    rep.floor("own", 60)
    rep.floor("roles", 60)
    rep.floor("prep", 60)
    names = all_names(e)
    skip = set()
    for nm in names:
        e.cfg = scenario("3d", None)
        try:
            if not build(e, by_name(e, nm)):
                skip.add(nm)
        except AnalysisBroken:
            skip.add(nm)
    names = [n for n in names if n not in skip]
    mcls = mk("class", MULT, "MultipleMetrics")
    for order in (names, names[::-1]):
        for label, rois, kws in (("no ROI", None, []), ("ROI of the pair", [roi_of(0)], []), ("ROI for all pairs", None, [("roi", roi_of("G"))]),
                                 ("ROI for all pairs overrides", [roi_of(0)], [("roi", roi_of("G"))]),
                                 ("scaling order", None, [("scaling_order", sym("ORDER", "int"))])):
            roi = dict(kws).get("roi") or (rois[0] if rois else None)
            want_order = dict(kws).get("scaling_order", const(1))
            for who in ("BatchMetrics", "MultipleMetrics"):
                if who == "MultipleMetrics" and rois:
                    continue
                st, ref, mrefs = batch(e, order, 1, rois)
                if who == "BatchMetrics":
                    st = set_pairs(e, st, ref, [0])
                    args, bases = [], [mk("call", "os.path.join", (DIR, sym(f"{x}0", "str")), ()) for x in ("REF", "MOD")]
                else:
                    ml = [v for v in st.h(ref).attrs.values() if v.op == "ref" and st.h(v).kind == "list" and list(st.h(v).items) == mrefs]
                    pl = [v for v in st.h(ref).attrs.values() if v.op == "ref" and st.h(v).kind == "list" and len(st.h(v).items) == len(mrefs) and v not in ml]
                    if len(ml) != 1 or len(pl) != 1:
                        raise AnalysisBroken("metric and parameter lists not stored")
                    ps = [q for q in construct(e, mcls, [ml[0], pl[0]], [], st=st) if q.kind == "ret"]
                    if not ps:
                        raise AnalysisBroken("MultipleMetrics cannot be constructed")
                    st, ref = ps[0].st, ps[0].val
                    args, bases = [R, M], [R, M]
                cls = mk("class", MULT, who)
                fi = method_info(e, cls, "calculate")
                rep.functions.add(fi.label)
                loc = fi_loc(e, fi)
                resized = nret = 0
                base_ev = len(st.events)
                for p in method(e, st, ref, "calculate", args, list(kws)):
                    if p.kind != "ret":
                        continue
                    nret += 1
                    rs = results_of(e, p)
                    if who == "BatchMetrics":
                        got = (rs or {}).get(const("0"))
                        if set(rs or ()) != {const("0")}:
                            rep.bad("keys", "pairs", loc, f"{label}: a batch of one pair has results for {sorted(map(show, rs or ()))}")
                            continue
                    else:
                        got = rs
                    rep.ob("stored", 1, f"{who} {label}")
                    if p.st.h(ref).attrs.get("results") is not p.val:
                        rep.bad("stored", "results", loc, f"{who}.calculate returns something else than it stores as results")
                    if not isinstance(got, dict):
                        rep.bad("keys", "not a dictionary", loc, f"{who}, {label}: results are {short(p.val)}")
                        continue
                    want = []
                    for i, mr in enumerate(mrefs):
                        nm = res_name(e, p.st, mr, i)
                        if order[i] in [c.args[1] for c in fr_metrics(e)]:
                            want.append((nm, i, "fr"))
                        else:
                            want += [(nm + "_r", i, "r"), (nm + "_m", i, "m")]
                    rep.ob("keys", 1, f"{who} {label}")
                    if set(got) != {const(n) for n, _, _ in want}:
                        rep.bad("keys", "names", loc, f"{who}, {label}: results are named {[show(k) for k in got]} instead of {[n for n, _, _ in want]}")
                    for nm, i, role in want:
                        v = got.get(const(nm))
                        if v is None:
                            continue
                        v = unfl(v)
                        rep.ob("own", 1, f"{who} {label}")
                        if v.op != "sinkres" or not v.args[0].endswith(f".{order[i]}.score") or v.args[1][0] is not mrefs[i]:
                            rep.bad("own", nm, loc, f"{who}, {label}: the result named {nm} is {short(v, 120)}, not the score of that metric object")
                            continue
                        vals = v.args[1][1:]
                        n_img = 2 if role == "fr" else 1
                        imgs, rest = vals[:n_img], vals[n_img:]
                        opts = {x for t in rest for x in subterms(t) if x.op == "sym" and str(x.args[0]).startswith("PARAM")}
                        takes = has_kwargs(method_info(e, by_name(e, order[i]), "score"))
                        if opts != ({sym(f"PARAM{i}")} if takes else set()):
                            rep.bad("own", f"{nm} parameters", loc, f"{who}, {label}: {nm} is scored with the parameters {sorted(map(show, opts))} instead of its own")
                        for j, im in enumerate(imgs):
                            wanted = j if role == "fr" else {"r": 0, "m": 1}[role]
                            b, steps = chain(im)
                            rep.ob("roles", 1, f"{who} {label}")
                            if b is not bases[wanted]:
                                rep.bad("roles", nm, loc, f"{who}, {label}: {nm} is computed with {short(b, 100)} as its {'first' if j == 0 else 'second'} image, "
                                                          f"expected the {'reference' if wanted == 0 else 'modified'} image of the pair")
                                continue
                            rep.ob("prep", 1, f"{who} {label}")
                            crops = [d for s, d in steps if s == "crop"]
                            if roi is None and crops:
                                rep.bad("prep", "cropped", loc, f"{who}, {label}: images are cropped although no region of interest is given")
                            elif roi is not None and (len(crops) != 1 or tup(*(crops[0].get(a, NONE) for a in "xyz")) is not roi):
                                rep.bad("prep", "not cropped", loc, f"{who}, {label}: the {'reference' if wanted == 0 else 'modified'} image compared by {nm} is not cropped to the region of interest")
                            rz = [d for s, d in steps if s == "resize"]
                            if wanted == 0 and rz:
                                rep.bad("prep", "reference resized", loc, f"{who}, {label}: the reference image is resized")
                            if wanted == 1 and rz:
                                resized += 1
                                rs_ = {chain(x)[0] for x in subterms(rz[0]["shape"]) if loaded(x)}
                                if bases[1] in rs_ or bases[0] not in rs_:
                                    rep.bad("prep", "resize target", loc, f"{who}, {label}: the modified image is not resized to the shape of the reference")
                                if rz[0]["kw"].get("order") is not want_order:
                                    rep.bad("prep", "resize order", loc, f"{who}, {label}: the interpolation order used for resizing is {short(rz[0]['kw'].get('order', NONE))}")
                                seq = [s for s, d in steps if s in ("crop", "resize")]
                                if seq not in (["resize"], ["crop", "resize"]):
                                    rep.bad("prep", "resize after crop", loc, f"{who}, {label}: the modified image is cropped before it is resized to the reference")
                if not nret:
                    rep.bad("own", "never returns", loc, f"{who}.calculate, {label}: raises for every pair of images")
                    continue
                if not resized:
                    rep.bad("prep", "no resize", loc, f"{who}, {label}: a modified image of another size is never resized to the reference")
