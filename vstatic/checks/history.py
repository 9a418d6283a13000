"""Results do not depend on what was computed before."""
from .batch import *
from .purity import fn_cases, CENTER2, CENTER3
from .threads import OPTIONS

R0, M0, I0 = sym("earlier_r", "array"), sym("earlier_m", "array"), sym("earlier", "array")
DICTS = ("luminance_function", "csf_function", "weights", "orientations_num", "scales_num")
NONDET = ("numpy.random.", "random.", "time.", "uuid.", "secrets.", "os.urandom", "os.getpid", "datetime.")


def is_nondet(name):
    if not isinstance(name, str):
        return False
    return name.startswith(NONDET) or name in ("builtins.id", "builtins.hash", "os.urandom", "os.getpid", "torch.rand", "torch.randn", "torch.empty", "numpy.empty_like",
                                               "numpy.empty")


def earlier(kws):
    """the option values of an earlier call: same names, other values"""
    m = {}
    for k, v in kws:
        for x in subterms(v):
            if x.op == "sym":
                m[x] = sym("earlier_" + str(x.args[0]), *x.args[1:])
    return [(k, subst(v, m)) for k, v in kws]


def outcome(e, p):
    if p.kind == "exc":
        return "exc", e.exc_name(p.val)
    return "ret", e.freeze(p.val, p.st)


def key(e, cong, o):
    return (o[0], strip_ids(cong.norm(o[1])) if isinstance(o[1], T) else o[1])


class Cong0:
    @staticmethod
    def norm(t):
        return rewrite(t, idem, {})


def modstate(st):
    return {k: v for k, v in st.envs.items() if k and k[0] in ("mod", "defaults")}


def changed(st0, st1, ref):
    """signature of everything a call leaves behind: module variables, defaults, objects that existed before"""
    out = []
    for k, env in modstate(st1).items():
        b = st0.envs.get(k, {})
        out += [(k, n, v) for n, v in env.items() if b.get(n) is not v]
    for i, h in st0.heap.items():
        g = st1.heap.get(i)
        if g is not None and g is not h and g.sig() != h.sig():
            out.append((i, strip_sig(g)))
    return tuple(map(str, out))


def strip_sig(g):
    return g.sig()


def compare(rep, e, lab, who, loc, fresh, second, note):
    rep.ob("repeat", 1, lab)
    base = [(o, p) for o, p in fresh]
    plain = {key(e, Cong0, o) for o, p in base}
    for p in second:
        o = outcome(e, p)
        if key(e, Cong0, o) in plain:
            continue
        cong = Congruence(p.st.conds)
        if normalised(e, cong, p.st.conds) is None:
            continue
        if key(e, cong, o) in {key(e, cong, x) for x, q in base}:
            continue
        old = sorted({str(x.args[0]) for x in (subterms(o[1]) if isinstance(o[1], T) else ()) if x.op == "sym" and str(x.args[0]).startswith("earlier")})
        rep.bad("repeat", who, loc, f"{lab}: after {note} the call {'raises ' + str(o[1]) if o[0] == 'exc' else 'gives a result'} that a first call does not"
                + (f" (it depends on {', '.join(old)} of the earlier call)" if old else ""), {"result": show(o[1])[:1500] if isinstance(o[1], T) else str(o[1])})
        return


def nondet(rep, e, lab, paths, base=0):
    seen = set()
    for p in paths:
        for ev in p.st.events[base:]:
            if ev.kind != "ext" or not is_nondet(ev.a[0]):
                continue
            if "empty" in ev.a[0]:
                continue
            if (ev.loc, ev.a[0]) in seen:
                continue
            seen.add((ev.loc, ev.a[0]))
            rep.bad("determined", f"{ev.a[0]}", ev.loc, f"{lab}: the computation calls {ev.a[0]}, so the same input does not determine the result")


@register("C09", "A result depends only on its inputs, not on earlier calls", VN)
def c09(rep, tier):
    e = engine()
    rep.rule("repeat", "every outcome of a call made after other calls (with other images, image kinds and options, also failing ones) is an outcome of the same call made first")
    rep.rule("determined", "no random number, clock, process id or object identity is used")
    rep.floor("repeat", 200)
    rep.floor("determined", 40)
    seq_metrics(rep, e, tier)
    seq_functions(rep, e, tier)
    seq_batch(rep, e, tier)


def first_states(e, st0, paths, limit):
    """distinct things earlier calls can leave behind"""
    seen, out = set(), []
    for p in sorted(paths, key=lambda p: p.kind):
        k = (p.kind, changed(st0, p.st, None))
        if k in seen:
            continue
        seen.add(k)
        s = p.st.fork()
        s.conds = {}
        out.append((s, "raised" if p.kind == "exc" else "returned"))
    return out[:limit]


def seq_metrics(rep, e, tier):
    lim = 6 if tier == "quick" else 20
    per = {}
    for cls, name, lab, kind, dt, chrom, kws in fr_cases(e):
        per.setdefault((cls, chrom), []).append((lab, kind, kws, [R, M]))
        if kind == "2d" and not kws and not chrom and name in OPTIONS:
            per[cls, chrom].append((lab + " options", kind, [(o, sym(o, "num")) for o in OPTIONS[name] if o not in DICTS], [R, M]))
    for cls, name, lab, kind, dt, kws in nr_cases(e):
        per.setdefault((cls, False), []).append((lab, kind, kws, [I]))
        if kws:
            for rt in ("cubic", "full"):
                per[cls, False].append((lab + " " + rt, kind, kws + [("region_type", const(rt))], [I]))
    other = {R: R0, M: M0, I: I0}
    for (cls, chrom), cases in per.items():
        loc = fi_loc(e, score_fi(e, cls))
        rep.functions.add(score_fi(e, cls).label)
        e.cfg = scenario("2d", "uint8", sinks=KERNEL_FUNCS)
        st0, ref = build(e, cls, chromatic=chrom)[0]
        fresh = {}
        for lab, kind, kws, pos in cases:
            e.cfg = scenario(kind, "uint8", sinks=KERNEL_FUNCS)
            ps = method(e, st0, ref, "score", pos, kws)
            rep.ob("determined", 1, lab)
            nondet(rep, e, lab, ps, len(st0.events))
            fresh[lab] = [(outcome(e, p), p) for p in ps]
        for lab1, kind1, kws1, pos1 in cases:
            firsts = []
            for dt in ("uint8", "float32"):
                e.cfg = scenario(kind1, dt, sinks=KERNEL_FUNCS, imgs=(R0, M0, I0))
                firsts += method(e, st0, ref, "score", [other[x] for x in pos1], earlier(kws1))
            firsts = first_states(e, st0, firsts, lim)
            for s, how in firsts:
                for lab, kind, kws, pos in cases:
                    e.cfg = scenario(kind, "uint8", sinks=KERNEL_FUNCS)
                    compare(rep, e, lab, cls.args[1], loc, fresh[lab], method(e, s, ref, "score", pos, kws), f"an earlier score() ({lab1.strip()}) that {how}")


def seq_functions(rep, e, tier):
    other = {I: I0, R: R0, M: M0}
    cases = []
    for mod, fn, kind, pos, kws in fn_cases(e):
        if fn.startswith("visualize"):
            continue
        cases.append((mod, fn, kind, pos, kws, ()))
    for q in KERNEL_FUNCS:
        mod, fn = q.rsplit(".", 1)
        imgs = [R, M] if len(KERNEL_FUNCS[q]) == 2 else [I]
        for kind in ("2d", "3d") if fn not in ("most_apparent_distortion",) else ("2d",):
            c = CENTER2 if kind == "2d" else CENTER3
            if fn == "most_apparent_distortion":
                opts = [("data_range", DR), ("block_size", sym("bs", "int")), ("block_overlap", sym("bo", "num"))]
                opq = ("viqa.utils.misc.gabor_convolve",)
            elif fn in ("structural_similarity", "gradient_similarity"):
                opts = [("data_range", DR)] + [(o, sym(o, "num")) for o in OPTIONS["GSM" if fn.startswith("grad") else "SSIM"]]
                opq = ()
            elif fn == "contrast_to_noise_ratio":
                opts = [("signal_center", c), ("background_center", c), ("radius", RAD)]
                opq = ()
            else:
                opts = [("signal_center", c), ("radius", RAD)]
                opq = ()
            cases.append((mod, fn, kind, imgs, opts, opq))
    for mod, fn, kind, pos, kws, opq in cases:
        fi = e.p.func(mod, fn)
        f = func(e, mod, fn)
        loc = fi_loc(e, fi)
        rep.functions.add(fi.label)
        dt = "bool" if fn == "find_largest_region" else "uint8"
        lab = f"{fn} {kind}"
        e.cfg = scenario(kind, dt, load_opaque=False, opaque=opq, maxpaths=20000)
        st0 = e.start()
        ps = call(e, f, pos, kws, st=st0)
        rep.ob("determined", 1, lab)
        nondet(rep, e, lab, ps)
        fresh = [(outcome(e, p), p) for p in ps]
        e.cfg = scenario(kind, dt, load_opaque=False, opaque=opq, maxpaths=20000, imgs=(R0, M0, I0))
        m = {x: y for x, y in other.items()}
        pos0 = [subst(x, m) for x in pos]
        firsts = first_states(e, st0, call(e, f, pos0, earlier(kws), st=st0), 4)
        e.cfg = scenario(kind, dt, load_opaque=False, opaque=opq, maxpaths=20000)
        for s, how in firsts:
            compare(rep, e, lab, fn, loc, fresh, call(e, f, pos, kws, st=s), f"an earlier {fn}() that {how}")


def seq_batch(rep, e, tier):
    """calculate() called again on the same object"""
    calls = [("no ROI", []), ("ROI A", [("roi", roi_of("A"))]), ("ROI B", [("roi", roi_of("B"))]), ("normalized", [("normalize", TRUE), ("data_range", DR)])]
    mcls = mk("class", MULT, "MultipleMetrics")
    for who in ("BatchMetrics", "MultipleMetrics"):
        for rois in (None, [roi_of(0)]):
            if rois and who != "BatchMetrics":
                continue
            st, ref, mrefs = batch(e, ["GSM", "SNR"], 1, rois)
            a0 = a1 = []
            if who == "BatchMetrics":
                st = set_pairs(e, st, ref, [0])
            else:
                ml = [v for v in st.h(ref).attrs.values() if v.op == "ref" and st.h(v).kind == "list" and list(st.h(v).items) == mrefs]
                pl = [v for v in st.h(ref).attrs.values() if v.op == "ref" and st.h(v).kind == "list" and len(st.h(v).items) == len(mrefs) and v not in ml]
                q = [q for q in construct(e, mcls, [ml[0], pl[0]], [], st=st) if q.kind == "ret"][0]
                st, ref = q.st, q.val
                a0, a1 = [R0, M0], [R, M]
            fi = method_info(e, mk("class", MULT, who), "calculate")
            rep.functions.add(fi.label)
            fresh = {lab: [(outcome(e, p), p) for p in method(e, st, ref, "calculate", a1, kws)] for lab, kws in calls}
            for l1, k1 in calls:
                for s, how in first_states(e, st, method(e, st, ref, "calculate", a0, k1), 4):
                    for lab, kws in calls:
                        compare(rep, e, f"{who}.calculate, {lab}", who, fi_loc(e, fi), fresh[lab], method(e, s, ref, "calculate", a1, kws), f"an earlier calculate ({l1}) that {how}")
