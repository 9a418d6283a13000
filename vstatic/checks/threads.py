"""Scoring in several threads: no state shared between calls is written and read back."""
from .native import interp
from .purity import fn_cases
from .scoring import *

PROCESS = {"os.chdir", "os.putenv", "os.umask", "os.unsetenv", "numpy.random.seed", "random.seed", "torch.manual_seed", "torch.random.manual_seed", "torch.set_default_dtype",
           "torch.set_default_tensor_type", "torch.set_num_threads", "locale.setlocale", "numpy.set_printoptions", "sys.setrecursionlimit", "warnings.simplefilter",
           "warnings.filterwarnings", "warnings.resetwarnings", "gc.disable", "signal.signal", "os.environ.update", "sys.path.append", "sys.path.insert"}


OPTIONS = {"GSM": ["c", "p"], "SSIM": ["K1", "K2", "sigma", "alpha", "beta", "gamma"], "UQI": ["win_size"], "VIFp": ["sigma_n_sq"], "MSSSIM": ["kernel_sigma", "k1", "k2"],
           "FSIM": ["T1", "T2"], "MAD": ["beta_1", "beta_2", "thresh_1", "thresh_2", "luminance_function", "csf_function", "weights", "orientations_num", "scales_num"]}


def inputs(t):
    """does the value depend on what the caller passed?"""
    return any(x.op in ("sym", "kwget", "kwval") or loaded(x) for x in subterms(t)) if isinstance(t, T) else False


def shared_writes(p, base):
    """(event, name, how) of module variables, class and function attributes that are set to an input-dependent value and read afterwards on the same path"""
    evs = p.st.events[base:]
    for i, ev in enumerate(evs):
        if ev.kind == "gwrite":
            if inputs(ev.a[2]) and any(x.kind == "gread" and x.a[:2] == ev.a[:2] for x in evs[i + 1:]):
                yield ev, f"{ev.a[0]}.{ev.a[1]}", "module variable"
        elif ev.kind == "setattr" and isinstance(ev.a[0], T) and ev.a[0].op in ("class", "func", "module", "ext"):
            if isinstance(ev.a[2], T) and inputs(ev.a[2]):
                yield ev, f"{show(ev.a[0])}.{ev.a[1]}", "attribute shared by all calls"


def sources(t):
    """the parts of the inputs a value depends on: shape, ndim and dtype count as parts of their own"""
    if not isinstance(t, T):
        return set()
    if t.op in ("sym", "kwget", "kwval") or t.op in ("shape", "ndim", "dtype", "size"):
        return {t} if inputs(t) else set()
    out = set()
    for x in t.args:
        for y in x if isinstance(x, tuple) else (x,):
            for z in y if isinstance(y, tuple) else (y,):
                out |= sources(z)
    return out


def reach(st, t, name, out):
    """t and the containers inside it belong to the variable called name"""
    if not isinstance(t, T) or t in out:
        return
    if t.op == "tuple":
        for x in t.args:
            reach(st, x, name, out)
        return
    out[t] = name
    h = st.heap.get(t.args[0]) if t.op == "ref" else None
    if h is not None:
        for x in h.items.values() if isinstance(h.items, dict) else h.items:
            reach(st, x, name, out)


def shared_items(e, p, base):
    """(event, what) of items of a module-level or default-value container that are set to an input-dependent value, which the item's key does not determine,
    and read afterwards"""
    evs = p.st.events[base:]
    mods = {}
    for ev in evs:
        if ev.kind == "gread" and len(ev.a) > 2 and isinstance(ev.a[2], T):
            reach(p.st, ev.a[2], f"{ev.a[0]}.{ev.a[1]}", mods)
    for ev in evs:  # a shared list that each call empties and fills again
        if ev.kind == "mutate" and ev.a[1] in (".clear()", "del item", "item assignment") and ev.a[0].op == "ref":
            b, h = ev.a[0], p.st.heap.get(ev.a[0].args[0])
            what = mods.get(b) or (str(h.owner) if h is not None and str(h.owner).startswith("default:") else None)
            if what and h.kind == "list" and any(inputs(x) for x in h.items) and (ev.a[1] == ".clear()" or any(
                    x.kind == "setitem" and x.a[0] is b and isinstance(x.a[1], T) and x.a[1].op == "slice" and x.loc == ev.loc for x in evs) or ev.a[1] == "del item"):
                if any(x.kind == "mutate" and x.a[0] is b and x.a[1] in (".append()", ".extend()", ".insert()", "augmented assignment") for x in evs[evs.index(ev):]):
                    yield ev, what
    for i, ev in enumerate(evs):
        if ev.kind != "setitem":
            continue
        b, k, v = ev.a[:3]
        if not (isinstance(v, T) and inputs(v)) or sources(v) <= sources(k):
            continue
        if b.op == "ref":
            h = p.st.heap.get(b.args[0])
            owner = str(h.owner) if h is not None else ""
            what = mods.get(b) or (owner if owner.startswith("default:") else None)
            if what and any(x.kind in ("dread", "lread") and x.a[0] is b and x.a[1] is k for x in evs[i + 1:]):
                yield ev, what
        else:
            rs = [r for r in e.roots(b) | {b} if r in mods]
            if rs and any(x.kind == "gread" and f"{x.a[0]}.{x.a[1]}" == mods[rs[0]] for x in evs[i + 1:]):
                yield ev, mods[rs[0]]


def process_calls(p, base):
    for ev in p.st.events[base:]:
        if ev.kind == "ext" and ev.a[0] in PROCESS:
            yield ev


@register("C35", "Metrics can be scored in several threads at the same time", VN)
def c35(rep, tier):
    rep.rule("shared", "no path of score() or of a function behind it stores a value that depends on its arguments in a module variable, class or function attribute "
             "that is read again later on that path")
    rep.rule("process", "no such path changes process-wide settings (working directory, random seed, warning filters, locale, default types, …)")
    rep.rule("native", "the C extension keeps no variable that outlives a call and is written by it")
    e = engine()
    dts = ("uint8", "float64") if tier == "quick" else ("uint8", "uint16", "int16", "float32", "float64")

    def look(who, lab, p, base):
        rep.ob("shared", 1, lab)
        rep.ob("process", 1)
        for ev, n, how in shared_writes(p, base):
            rep.bad("shared", n, ev.loc, f"{lab}: {n} ({how}) is set to {short(ev.a[2], 60)} and read again: another thread may change it in between")
        for ev, n in shared_items(e, p, base):
            rep.bad("shared", n, ev.loc, f"{lab}: {n}, which all calls share, is filled with {short(ev.a[2], 60) if len(ev.a) > 2 else 'data of this call'} and read again: another thread may change it in between")
        for ev in process_calls(p, base):
            rep.bad("process", f"{who}: {ev.a[0]}", ev.loc, f"{lab}: calls {ev.a[0]}, which affects all threads")

    for cls, name, lab, kind, dt, chrom, kws in fr_cases(e, dts):
        more = [[], [(o, sym(o, "dict" if o.endswith("function") else "list" if o == "weights" else "int" if "num" in o or "size" in o else "float"))
                     for o in OPTIONS.get(name, ()) if o not in ("orientations_num", "scales_num", "weights")]]
        if name == "MAD":
            more.append([("block_size", sym("block_size", "int")), ("block_overlap", sym("block_overlap", "float"))])
        more = [x for i, x in enumerate(more) if i == 0 or x and (dt == dts[0] or tier != "quick")]
        for x in more:
            for p, ref, base in fr_paths(e, cls, kind, dt, chrom, kws + x, sinks=(), load_opaque=True):
                look(name, lab, p, base)
    for cls, name, lab, kind, dt, kws in nr_cases(e, dts):
        for p, ref, base in fr_paths(e, cls, kind, dt, False, kws, sinks=(), load_opaque=True, pos=[I]):
            look(name, lab, p, base)
    for mod, qual, kind, pos, kws in fn_cases(e):
        if "visual" in qual:
            continue
        for dt in dts:
            e.cfg = scenario(kind, dt, load_opaque=qual != "load_data")
            for p in call(e, func(e, mod, qual), pos, kws):
                look(qual, f"{qual} {kind} {dt}", p, 0)
    native(rep)
    rep.floor("shared", 100)


def native(rep):
    for c in interp():
        for name, f in sorted(c.funcs.items()):
            rep.ob("native", what=name)
            local = set()

            def walk(n):
                k = n.get("kind")
                if k in ("VarDecl", "ParmVarDecl") and n.get("storageClass") != "static":
                    local.add(n["id"])
                tgt = None
                if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("opcode", "").endswith("=") and n["opcode"] not in ("==", "!=", "<=", ">="):
                    tgt = n["inner"][0]
                elif k == "UnaryOperator" and n.get("opcode") in ("++", "--"):
                    tgt = n["inner"][0]
                while tgt is not None and tgt.get("kind") in ("ParenExpr", "ArraySubscriptExpr", "MemberExpr", "ImplicitCastExpr"):
                    tgt = tgt["inner"][0] if tgt.get("inner") else None
                if tgt is not None and tgt.get("kind") == "DeclRefExpr":
                    d = tgt.get("referencedDecl", {})
                    if d.get("kind") == "VarDecl" and d.get("id") not in local:
                        rep.bad("native", d.get("name"), (c.rel, n.get("_line", 0), name), f"{name} writes {d.get('name')}, which all calls share")
                for x in n.get("inner", []) or []:
                    if isinstance(x, dict):
                        walk(x)
            for prm in f.get("inner", []):
                walk(prm)
