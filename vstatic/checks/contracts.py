"""Internal contracts: names, imports, call signatures and attributes fit together; valid calls run to completion."""
import ast
import builtins
import os
import symtable

from ..project import REPO
from .history import *
from .export import FP
from .plots import BG, SIG
from .vision import cases as vision_cases, paths as mad_paths

VAL = "abstract interpretation of every valid call case, plus name, import, attribute and signature resolution over the whole package (no execution)"
BROKEN = {"unbound": "reads a variable that has not been set", "badcall": "is a call that does not fit the function's signature", "noattr": "reads an attribute that does not exist",
          "keyerror": "reads a dictionary key that does not exist", "unpack-mismatch": "unpacks a sequence of another length"}
RAISED = {"unbound": ("UnboundLocalError", "NameError"), "badcall": ("TypeError",), "noattr": ("AttributeError",), "keyerror": ("KeyError",), "unpack-mismatch": ("ValueError",)}
MODULE_NAMES = {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__path__", "__loader__", "__builtins__", "__class__", "__annotations__", "__qualname__", "__module__", "__debug__"}


def bound_at_top(tree):
    """names bound at module level (also inside if/try/with/for blocks), and whether a star import hides some"""
    out, star = set(), False

    def target(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)

    def go(body):
        nonlocal star
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(s.name)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    if a.name == "*":
                        star = True
                    else:
                        out.add((a.asname or a.name).split(".")[0])
            else:
                for f, v in ast.iter_fields(s):
                    for x in v if isinstance(v, list) else [v]:
                        if isinstance(x, ast.expr):
                            target(x)
                        elif isinstance(x, ast.stmt):
                            go([x])
                        elif isinstance(x, ast.ExceptHandler):
                            if x.name:
                                out.add(x.name)
                            go(x.body)
                        elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                            target(x.optional_vars)
                        elif hasattr(ast, "match_case") and isinstance(x, ast.match_case):
                            for y in ast.walk(x.pattern):
                                for k in ("name", "rest"):
                                    if isinstance(getattr(y, k, None), str):
                                        out.add(getattr(y, k))
                            go(x.body)
    go(tree.body)
    for n in ast.walk(tree):                    # `global x` inside functions binds module names
        if isinstance(n, ast.Global):
            out.update(n.names)
    return out, star


def global_reads(src, name):
    """names each function or class body resolves to module level: [(scope name, line, name)]"""
    top = symtable.symtable(src, name, "exec")
    out = []

    def go(t):
        for s in t.get_symbols():
            if s.is_referenced() and (t.get_type() == "module" or s.is_global()):
                out.append((t.get_name() if t.get_type() != "module" else "module", t.get_lineno(), s.get_name()))
        for c in t.get_children():
            go(c)
    go(top)
    return out


def package_modules(e):
    return {m: mi for m, mi in e.p.modules.items()}


def line_of(tree, scope_line, name):
    best = None
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
            if n.lineno >= scope_line and (best is None or n.lineno < best):
                best = n.lineno
    return best or scope_line


def names_rule(rep, e):
    mods = package_modules(e)
    bound = {m: bound_at_top(mi.tree) for m, mi in mods.items()}
    for m, mi in sorted(mods.items()):
        names, star = bound[m]
        rep.ob("names", 1, m)
        if star:
            rep.ob("undecided", 1, f"{m}: star import")
            continue
        for scope, ln, n in global_reads(mi.src, mi.rel):
            rep.ob("names", 1, f"{m}.{scope}")
            if n in names or hasattr(builtins, n) or n in MODULE_NAMES:
                continue
            rep.bad("names", f"{m}.{scope}: {n}", (mi.rel, line_of(mi.tree, ln, n), scope), f"{scope} reads the name {n}, which is bound neither there nor in the module")
        for node in ast.walk(mi.tree):
            if isinstance(node, ast.ImportFrom):
                src = resolve_from(m, mi, node)
                if src is None or not (src == "viqa" or src.startswith("viqa.")):
                    continue
                for a in node.names:
                    rep.ob("imports", 1, f"{m} from {src}")
                    if src not in mods:
                        if not c_extension(mods, src):
                            rep.bad("imports", f"{m}: {src}", (mi.rel, node.lineno, "module"), f"import from {src}, which does not exist")
                        continue
                    if a.name == "*" or a.name in bound[src][0] or bound[src][1] or f"{src}.{a.name}" in mods or c_extension(mods, f"{src}.{a.name}"):
                        continue
                    rep.bad("imports", f"{m}: {src}.{a.name}", (mi.rel, node.lineno, "module"), f"imports {a.name} from {src}, which does not define it")
        for node in mi.tree.body:
            if isinstance(node, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in node.targets) and isinstance(node.value, (ast.List, ast.Tuple)):
                for x in node.value.elts:
                    if isinstance(x, ast.Constant) and isinstance(x.value, str):
                        rep.ob("names", 1, f"{m}.__all__")
                        if x.value not in names and f"{m}.{x.value}" not in mods:
                            rep.bad("names", f"{m}.__all__: {x.value}", (mi.rel, x.lineno, "module"), f"__all__ lists {x.value}, which the module does not define")


def resolve_from(m, mi, node):
    if not node.level:
        return node.module
    parts = m.split(".")
    if not mi.rel.endswith("__init__.py"):
        parts = parts[:-1]
    parts = parts[:len(parts) - (node.level - 1)]
    return ".".join(parts + ([node.module] if node.module else []))


def c_extension(mods, name):
    """is it a compiled module or data folder next to the package's modules?"""
    last = name.split(".")[-1]
    parent = name.rsplit(".", 1)[0]
    if parent not in mods:
        return False
    d = os.path.dirname(os.path.join(REPO, mods[parent].rel))
    if not os.path.isdir(d):
        return False
    for root, ds, fs in os.walk(d):
        for f in fs:
            if f.startswith(last) and (f.endswith((".c", ".cpp", ".pyx", ".so"))) or f == "meson.build":
                if f != "meson.build":
                    return True
                try:
                    if last in open(os.path.join(root, f)).read():
                        return True
                except OSError:
                    pass
        if last in ds:
            return True
    return False


def signature_rule(rep, e):
    """calls of package functions and classes by name, also on paths no case reaches"""
    mods = package_modules(e)
    for m, mi in sorted(mods.items()):
        table = {}
        for node in ast.walk(mi.tree):
            if isinstance(node, ast.ImportFrom):
                src = resolve_from(m, mi, node)
                for a in node.names:
                    t = lookup(mods, src, a.name)
                    if t is not None:
                        table[a.asname or a.name] = t
        for s in mi.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                table[s.name] = (m, s)
        if not table:
            continue
        visit_calls(rep, e, mods, m, mi, table)


def lookup(mods, src, name, depth=0):
    mi = mods.get(src)
    if mi is None or depth > 6:
        return None
    found = None
    for s in mi.tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == name:
            found = (src, s)
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                if (a.asname or a.name) == name:
                    found = lookup(mods, resolve_from(src, mi, s), a.name, depth + 1)
        elif isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
            found = None
    return found


def visit_calls(rep, e, mods, m, mi, table):
    def locals_of(fn):
        out = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs} | {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
                out.add(n.name)
        return out

    def go(node, shadow, scope, host=None):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                go(c, shadow | locals_of(c), c.name if scope == "module" else scope + "." + c.name, c)
            elif isinstance(c, ast.ClassDef):
                go(c, shadow, c.name)
            elif isinstance(c, ast.Lambda):
                go(c, shadow | {a.arg for a in c.args.args}, scope)
            else:
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in table and c.func.id not in shadow:
                    one(c, scope, host)
                go(c, shadow, scope, host)

    def one(c, scope, host):
        owner, d = table[c.func.id]
        fn, skip = d, 0
        if isinstance(d, ast.ClassDef):
            if d.decorator_list or d.keywords:
                return
            init = [s for s in d.body if isinstance(s, ast.FunctionDef) and s.name in ("__init__", "__new__")]
            if len(init) != 1 or init[0].decorator_list:
                return
            fn, skip = init[0], 1
        elif d.decorator_list:
            return
        rep.ob("signature", 1, f"{m}:{c.func.id}")
        rep.functions.add(f"{owner}.{d.name}")
        problem = fits(fn, skip, c, excluded(host, c))
        if problem:
            rep.bad("signature", f"{m}.{scope}: {d.name}", (mi.rel, c.lineno, scope), f"call of {d.name}: {problem}")
    go(mi.tree, set(), "module")


def excluded(host, c):
    """names that cannot come from the ** arguments of the call: None = nothing is known; forwarding the caller's own **kwargs unchanged
    cannot supply what the caller takes by name itself"""
    stars = [k.value for k in c.keywords if k.arg is None]
    if host is None or host.args.kwarg is None or any(not isinstance(v, ast.Name) or v.id != host.args.kwarg.arg for v in stars):
        return None
    kw = host.args.kwarg.arg
    for n in ast.walk(host):                    # kwargs rebound or filled: nothing is known
        if isinstance(n, ast.Name) and n.id == kw and isinstance(n.ctx, ast.Store):
            return None
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == kw:
            return None
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == kw and n.attr in ("update", "setdefault"):
            return None
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == kw:
            return None
    return {a.arg for a in host.args.args + host.args.kwonlyargs}


def fits(fn, skip, c, never=None):
    """why the call does not fit the signature, or None"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    only = {x.arg for x in a.posonlyargs}
    ndef = len(a.defaults)
    required = set(pos[:len(pos) - ndef]) | {k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    names = set(pos) - only | {k.arg for k in a.kwonlyargs}
    star = any(isinstance(x, ast.Starred) for x in c.args)
    dstar = any(k.arg is None for k in c.keywords)
    given = [x for x in c.args if not isinstance(x, ast.Starred)]
    if len(given) > len(pos) and a.vararg is None:
        return f"{len(given)} positional arguments for {len(pos)}"
    filled = set() if star else set(pos[:len(given)])
    for k in c.keywords:
        if k.arg is None:
            continue
        if k.arg not in names and a.kwarg is None:
            return f"unknown argument {k.arg}"
        if k.arg in filled:
            return f"argument {k.arg} given twice"
        filled.add(k.arg)
    if dstar:
        required = required & (never or set())
    if not star and required - filled:
        return f"missing argument {sorted(required - filled)[0]}"
    return None


def self_rule(rep, e):
    """attributes read from self exist somewhere in the class hierarchy"""
    members, bases = {}, {}
    free = set()                                # attributes set by functions outside of classes (helpers that are given the object)
    for mi in e.p.modules.values():
        for fn in mi.tree.body:
            if isinstance(fn, ast.FunctionDef):
                free |= {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
                free |= {n.args[1].value for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1
                         and isinstance(n.args[1], ast.Constant)}
    for (m, c), ci in e.p.classes.items():
        k = mk("class", m, c)
        s = set()
        for x in ci.node.body:
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                s.add(x.name)
            else:
                s |= {n.id for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        dyn = False
        for fn in ci.node.body:
            if not isinstance(fn, ast.FunctionDef) or not fn.args.args:
                continue
            me = fn.args.args[0].arg
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.attr)               # also obj.x = ... in __new__ and factories
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars") or isinstance(n, ast.Attribute) and n.attr == "__dict__":
                    dyn = True
            if fn.name in ("__getattr__", "__getattribute__"):
                dyn = True
        members[k] = (s, dyn)
        bases[k] = e.mro(k)
    for (m, c), ci in sorted(e.p.classes.items()):
        k = mk("class", m, c)
        fam = [x for x in bases if k in bases[x]] + list(bases[k])
        if any(x not in members for x in bases[k] if not (x.op == "ext" and x.args[0].split(".")[-1] in ("ABC", "object"))) or any(members[x][1] for x in fam if x in members):
            continue
        have = free | set().union(*[members[x][0] for x in fam if x in members]) | set(dir(object)) | {"__dict__", "__class__"}
        for fn in ci.node.body:
            if not isinstance(fn, ast.FunctionDef) or not fn.args.args or any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in fn.decorator_list):
                continue
            me = fn.args.args[0].arg
            guarded = any(isinstance(n, ast.ExceptHandler) and n.type is not None and "AttributeError" in ast.unparse(n.type) for n in ast.walk(fn)) or "hasattr" in {
                n.id for n in ast.walk(fn) if isinstance(n, ast.Name)}
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
                    rep.ob("attributes", 1, f"{c}.{fn.name}")
                    if n.attr not in have and not guarded:
                        rep.bad("attributes", f"{c}.{fn.name}: {n.attr}", (e.p.modules[m].rel, n.lineno, f"{c}.{fn.name}"), f"{c}.{fn.name} reads self.{n.attr}, which no class of the hierarchy sets")


def watch(rep, lab, p, base=0):
    if p.kind != "exc":
        return
    name = res_exc(p)
    for ev in p.st.events[base:]:
        if ev.kind in BROKEN and name in RAISED[ev.kind]:           # not handled on this path
            what = next((str(x) if isinstance(x, str) else short(x, 60) for x in reversed(ev.a) if isinstance(x, (str, T))), "")
            rep.bad("sound", f"{ev.kind} {what}", ev.loc, f"{lab}: this {BROKEN[ev.kind]} ({what})")


def complete(rep, lab, loc, res):
    """some path returns; no path fails whatever the input"""
    rep.ob("complete", 1, lab)
    for p, base in res:
        rep.ob("sound", 1, lab)
        watch(rep, lab, p, base)
    if not any(p.kind == "ret" for p, _ in res):
        names = sorted({str(res_exc(p)) for p, _ in res})
        rep.bad("complete", lab.split(" ")[0], loc, f"{lab}: every path ends in an exception ({', '.join(names) or 'no path'}), although the arguments are valid")


def res_exc(p):
    return engine().exc_name(p.val)


def ctors(rep, e):
    for cls in fr_metrics(e) + nr_metrics(e):
        name = cls.args[1]
        fi = method_info(e, cls, "__init__")
        rep.functions.add(fi.label)
        loc = fi_loc(e, fi)
        for lab, kws in (("", []), ("normalized", [("normalize", TRUE)]), ("chromatic", [("chromatic", TRUE)]), ("with a ROI", [("roi", roi_of(0))])):
            for dr in (const(1), const(255), const(65535)):
                e.cfg = Config(kwabsent=True)
                full = f"{name}(data_range={cval(dr)}) {lab}"
                res = [(p, 0) for p in construct(e, cls, [], [("data_range", dr)] + kws)]
                complete(rep, full, loc, res)
                for p, _ in res:
                    if p.kind != "ret" and not p.conds():
                        rep.bad("complete", name, loc, f"{full}: raises {e.exc_name(p.val)}")


def scoring_cases(rep, e, tier):
    dts = ("uint8", "float32") if tier == "quick" else ("uint8", "uint16", "int16", "float32", "float64")
    for cls, name, lab, kind, dt, chrom, kws in fr_cases(e, dts):
        if name == "SSIM" and chrom and not kws:
            continue
        fi = score_fi(e, cls)
        rep.functions.add(fi.label)
        complete(rep, lab, fi_loc(e, fi), [(p, base) for p, ref, base in fr_paths(e, cls, kind, dt, chrom, kws, sinks=())])
        if not chrom and name in OPTIONS and dt == dts[0] and kind != "rgb" and not any(k == "im_slice" for k, v in kws):
            for o in OPTIONS[name]:
                if o in DICTS:
                    continue
                complete(rep, f"{lab} {o}", fi_loc(e, fi), [(p, base) for p, ref, base in fr_paths(e, cls, kind, dt, chrom, kws + [(o, sym(o, "num"))], sinks=())])
    mad = [c for c in fr_metrics(e) if c.args[1] == "MAD"]
    for cls in mad:
        for dt in dts:
            for label, opts, _ in vision_cases(tier):
                complete(rep, f"MAD {dt} {label}", fi_loc(e, score_fi(e, cls)), [(p, 0) for p in mad_paths(e, cls, opts, dt)])
    for cls, name, lab, kind, dt, kws in nr_cases(e, dts):
        if kind == "rgb" and name == "CNR" or kind != "3d" and name == "QMeasure":
            continue
        fi = score_fi(e, cls)
        n = 3 if kind == "3d" else 2
        rep.functions.add(fi.label)
        if name in ("CNR", "SNR"):
            kws = [("signal_center", SIG[n]), ("radius", RAD)] + ([("background_center", BG[n])] if name == "CNR" else [])
        for rt in (None, "cubic", "spherical", "full", "original") if name in ("CNR", "SNR") else (None,):
            k2 = kws + ([("region_type", const(rt))] if rt else [])
            complete(rep, f"{lab} {rt or ''}", fi_loc(e, fi), [(p, base) for p, ref, base in fr_paths(e, cls, kind, dt, False, k2, sinks=(), pos=[I])])


def function_cases(rep, e):
    for mod, fn, kind, pos, kws in fn_cases(e):
        if fn.startswith("_") or kind == "rgb" and fn in ("crop_image", "load_data", "find_largest_region"):
            continue
        fi = e.p.func(mod, fn)
        rep.functions.add(fi.label)
        e.cfg = scenario(kind, "bool" if fn == "find_largest_region" else "uint8", load_opaque=False, maxpaths=20000)
        complete(rep, f"{fn} {kind} {len(kws)} options", fi_loc(e, fi), [(p, 0) for p in call(e, func(e, mod, fn), pos, kws)])


def other_methods(rep, e):
    for cls in fr_metrics(e) + nr_metrics(e):
        name = cls.args[1]
        for meth, kws in (("print_score", []), ("print_score", [("decimals", const(3))]), ("export_results", [])):
            fi = method_info(e, cls, meth)
            e.cfg = Config(kwabsent=True)
            st, ref = build(e, cls)[0]
            st = st.fork()
            st.hw(ref).attrs["score_val"] = sym("RECORDED", "num")
            pos = [FP, const("x.csv")] if meth == "export_results" else []
            complete(rep, f"{name}.{meth}", fi_loc(e, fi), [(p, len(st.events)) for p in method(e, st, ref, meth, pos, kws)])
    for who in ("BatchMetrics", "MultipleMetrics"):
        for norm in ([], [("normalize", TRUE), ("data_range", DR)]):
            st, ref, mrefs = batch(e, ["GSM", "SNR"], 2, None)
            st = set_pairs(e, st, ref, [0, 1])
            pos = []
            if who == "MultipleMetrics":
                ml = [v for v in st.h(ref).attrs.values() if v.op == "ref" and st.h(v).kind == "list" and list(st.h(v).items) == mrefs]
                pl = [v for v in st.h(ref).attrs.values() if v.op == "ref" and st.h(v).kind == "list" and len(st.h(v).items) == len(mrefs) and v not in ml]
                q = [q for q in construct(e, mk("class", MULT, who), [ml[0], pl[0]], [], st=st) if q.kind == "ret"]
                if not q:
                    continue
                st, ref, pos = q[0].st, q[0].val, [R, M]
            fi = method_info(e, mk("class", MULT, who), "calculate")
            rep.functions.add(fi.label)
            complete(rep, f"{who}.calculate {len(norm)} options", fi_loc(e, fi), [(p, len(st.events)) for p in method(e, st, ref, "calculate", pos, norm)])


@register("C27", "Valid calls run to completion without programming errors", VAL)
def c27(rep, tier):
    e = engine()
    rep.rule("names", "every name read in a function is bound there, in an enclosing scope, in its module or is a builtin; __all__ lists defined names")
    rep.rule("imports", "every name imported from a module of the package is defined by it")
    rep.rule("signature", "every call of a function or class of the package by its name fits its signature")
    rep.rule("attributes", "every attribute read from self is set or defined somewhere in the class hierarchy")
    rep.rule("sound", "no path of a valid call reads an unset variable, missing attribute or missing key or calls with arguments that do not fit")
    rep.rule("complete", "constructors with a valid data range and calls with supported images and documented options return on some path")
    rep.floor("names", 300)
    rep.floor("imports", 40)
    rep.floor("signature", 60)
    rep.floor("complete", 250)
    names_rule(rep, e)
    signature_rule(rep, e)
    self_rule(rep, e)
    ctors(rep, e)
    scoring_cases(rep, e, tier)
    function_cases(rep, e)
    other_methods(rep, e)
