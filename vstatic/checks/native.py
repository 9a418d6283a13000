"""The C extension behind MAD: memory safety, ownership and what its block statistics are."""
import glob
import os

from .. import poly as P
from ..cfront import CInterp, Fraction, Loop, NULL, atoms, padd, poly, prove_from, unpoly
from ..harness import *
from ..project import REPO
from ..registry import register
from .metrics import DR, VN

CABS = "static abstract interpretation of the C extension over clang's syntax tree (polynomial bounds by Fourier-Motzkin elimination, ownership and null states, loop summaries)"
B, S = sym("argument 1", "int"), sym("argument 2", "int")
_c = {}


def interp():
    if "c" not in _c:
        files = sorted(glob.glob(os.path.join(REPO, "src", "viqa", "**", "*.c"), recursive=True))
        files = [f for f in files if "PyMethodDef" in open(f, errors="replace").read()]
        if not files:
            raise AnalysisBroken("no C extension module found")
        _c["c"] = [CInterp(f) for f in files]
    return _c["c"]


def runs():
    """[(interp, python name, C function, events, exits)] under the calling convention 1 <= stride <= blocksize"""
    if "r" not in _c:
        out = []
        for c in interp():
            if not c.table:
                raise AnalysisBroken(f"no method table in {c.rel}")
            for py, fn in c.table:
                if fn not in c.funcs:
                    raise AnalysisBroken(f"{fn} has no body in {c.rel}")
                c.events, c.accesses = [], 0
                facts = [padd(poly(S), {(): Fraction(-1)}), padd(poly(B), poly(S), -1)]
                for i in (0, 1):
                    facts.append(poly(mk("cdim", mk("cobj", "argument 0"), i)))
                rets = c.run_entry(fn, facts)
                out.append((c, py, fn, list(c.events), rets))
        _c["r"] = out
    return _c["r"]


def nice(t):
    s = show(t)
    for a, b in (("cdim(cobj('argument 0'), 0)", "rows"), ("cdim(cobj('argument 0'), 1)", "columns"), ("argument 1", "blocksize"), ("argument 2", "stride")):
        s = s.replace(a, b)
    return s if len(s) < 160 else s[:160] + "…"


@register("C15", "MAD's native code never reads or writes outside its arrays", CABS)
def c15(rep, tier):
    rep.rule("bounds", "for every image extent, blocksize and 1 <= stride <= blocksize every element access of the C extension is inside its array or memory block")
    rep.rule("layout", "image memory is addressed as contiguous doubles of two dimensions only when the array is known to be stored that way")
    rep.rule("call", "MAD calls the extension only with 1 <= stride <= blocksize, for every accepted block_size and block_overlap")
    for c, py, fn, events, rets in runs():
        for kind, f, line, d, st, loops in events:
            loc = (c.rel, line, f)
            if kind in ("access", "bounds"):
                rep.ob("bounds", what=f"{f}:{line} {d['what']}")
            if kind == "bounds":
                rep.bad("bounds", f"{d['what']}", loc, f"{d['what']} at index {nice(d['index'])} is not always below the extent {nice(d['extent'])} (or may be negative) when {py} is called")
            if kind == "layout":
                rep.bad("layout", d["why"][:60], loc, f"{py}: {d['why']}")
            if kind == "inputwrite":
                rep.bad("bounds", "writes input", loc, f"{py} writes into the array passed by the caller")
        objs = {id(e) for e in events}
        rep.ob("layout", len([e for e in events if e[0] in ("access", "layout")]))
    # the Python side keeps the calling convention
    e = engine()
    mad = [k for k in fr_metrics(e) if k.args[1] == "MAD"]
    if not mad:
        raise AnalysisBroken("MAD vanished")
    b, ov = sym("block_size", "int"), sym("block_overlap", "float")
    cases = [("default", [], {}), ("valid", [("block_size", b), ("block_overlap", ov)], {"ok": True}), ("overlap only", [("block_overlap", ov)], {"ok": True}),
             ("block_overlap >= 1", [("block_size", b), ("block_overlap", ov)], {"ov": "big"}), ("block_overlap < 0", [("block_size", b), ("block_overlap", ov)], {"ov": "neg"}),
             ("block_size <= 0", [("block_size", b), ("block_overlap", ov)], {"b": "neg"}),
             ("block_size larger than the number of rows", [("block_size", b), ("block_overlap", ov)], {"b": "big", "ax": 0}),
             ("block_size larger than the number of columns", [("block_size", b), ("block_overlap", ov)], {"b": "big", "ax": 1})]
    for name, kws, case in cases:
        def facts(key, case=case):
            if key.op not in ("lt", "le", "eq"):
                return None
            x, y = key.args
            def num(t):
                return cval(t) if is_const(t) and isinstance(cval(t), (int, float)) else None
            if x is ov and num(y) is not None:
                v = num(y)
                if case.get("ov") == "big":
                    return False if v <= 1 and key.op == "lt" or v < 1 else None
                if case.get("ov") == "neg":
                    return True if v >= 0 and key.op != "eq" else False if v >= 0 else None
                return None if 0 < v < 1 else False if v <= 0 and key.op == "lt" or v < 0 else True if v >= 1 and key.op != "eq" else False if v >= 1 else None
            if y is ov and num(x) is not None:
                v = num(x)
                if case.get("ov") == "big":
                    return True if v <= 1 and (key.op == "le" or v < 1) and key.op != "eq" else None
                if case.get("ov") == "neg":
                    return False if v >= 0 else None
                return None if 0 < v < 1 else True if v <= 0 and key.op == "le" or v < 0 else False if v >= 1 else None
            for p, q, fl in ((x, y, False), (y, x, True)):
                if p is b and num(q) is not None:
                    v = num(q)
                    if key.op == "eq":
                        return False if case.get("b") == "neg" and v > 0 or case.get("b") != "neg" and v <= 0 else None
                    less = True if case.get("b") == "neg" and v > 0 else False if case.get("b") != "neg" and v <= 0 else None
                    if case.get("b") == "neg" and v == 0:
                        less = (key.op == "le") if not fl else (True if key.op == "lt" else None)
                        if not fl and key.op == "lt":
                            less = None
                        if fl:
                            return False if key.op == "lt" else None
                        return less
                    if case.get("b") != "neg" and v == 0:
                        return fl            # 0 < b, 0 <= b true; b < 0, b <= 0 false
                    return None if less is None else less != fl
                if p is b and q.op == "dim":
                    if case.get("b") == "big":
                        if q.args[1] == case["ax"]:
                            return False if key.op == "eq" else fl
                        return False if key.op == "eq" else not fl
                    if key.op == "eq":
                        return None
                    if case.get("b") == "neg":
                        return not fl
                    if case.get("ok"):
                        return (not fl) if key.op == "le" else (False if fl else None)
            return None
        for kind in ("2d",):
            e.cfg = scenario(kind, "float64", facts=facts)
            for p in construct(e, mad[0], kws=[("data_range", DR)]):
                if p.kind != "ret":
                    continue
                for q in method(e, p.st, p.val, "score", [R, M], kws):
                    seen = set()
                    for ev in q.st.events:
                        if ev.kind != "ext" or "statisticscalc" not in str(ev.a[0]) or ev.loc in seen:
                            continue
                        seen.add(ev.loc)
                        rep.ob("call", what=f"{name}: {where(ev.loc)}")
                        fn = ev.a[0].split(".")[-1]
                        if case and not case.get("ok"):
                            rep.bad("call", f"{name}", ev.loc, f"MAD with {name} reaches the native {fn}, which needs 1 <= stride <= blocksize <= extent")
                            continue
                        args = list(ev.a[1]) + [v for _, v in ev.a[2]]
                        if len(args) < 3:
                            continue
                        v = stride_ok(args[1], args[2], b, ov)
                        if v is not None:
                            rep.bad("call", f"{fn} stride", ev.loc, f"MAD ({name} options) calls {fn} with blocksize {short(args[1], 60)} and stride {short(args[2], 80)}: {v}")
    rep.floor("bounds", 15)
    rep.floor("call", 3)
    rep.assume("products of extents fit the C integer types")


def stride_ok(bs, stride, b, ov):
    """None when 1 <= stride <= blocksize holds (or cannot be decided), else what fails"""
    facts = []
    rep = {}

    def bounds(t):
        """interval of the overlap part of the block size"""
        n = t.args[0] if t.op == "call" else None
        if n is None or n.split(".")[-1] not in ("int", "floor", "trunc", "round", "ceil", "rint") or len(t.args[1]) < 1:
            return None
        x = t.args[1][0]
        if x.op == "call" and x.args[0].split(".")[-1] in ("floor", "round", "ceil", "rint", "trunc") and n == "builtins.int":
            return bounds(x)
        if x.op == "mul":
            for p, q in (x.args, x.args[::-1]):
                fr = 0 <= cval(p) < 1 if is_const(p) and isinstance(cval(p), (int, float)) else p is ov
                if fr and q is bs:
                    return n.split(".")[-1]
                if p.op == "sub" and is_const(p.args[0]) and cval(p.args[0]) == 1 and p.args[1] is ov and q is bs:
                    return "1-" + n.split(".")[-1]
        return None

    def rew(t):
        if t.op in ("add", "sub", "neg", "mul"):
            return mk(t.op, *[rew(a) for a in t.args])
        k = bounds(t)
        if k is not None:
            q = rep.setdefault(t, sym(f"q{len(rep)}", "int"))
            f, g = poly(q), poly(rew(bs))
            if k in ("int", "floor", "trunc"):                    # 0 <= q <= b - 1
                facts.extend([f, padd(padd(g, f, -1), {(): Fraction(-1)})])
            elif k in ("round", "ceil", "rint", "1-round", "1-rint", "1-int", "1-floor", "1-trunc"):   # 0 <= q <= b
                facts.extend([f, padd(g, f, -1)])
            elif k == "1-ceil":                                     # 1 <= q <= b
                facts.extend([padd(f, {(): Fraction(-1)}), padd(g, f, -1)])
            return q
        return t
    f, g = poly(rew(stride)), poly(rew(bs))
    if f is None or g is None:
        return None
    if any(a is not b and not a.args[0].startswith("q") if a.op == "sym" else True for p in (f, g) for m in p for a in m):
        return None
    facts.append(padd(poly(b), {(): Fraction(-1)}))
    if not prove_from(facts, padd(f, {(): Fraction(-1)})):
        return "the stride may be 0 or negative"
    if not prove_from(facts, padd(g, f, -1)):
        return "the stride may exceed the blocksize"
    return None


@register("C16", "MAD's native code releases what it allocates and survives failed allocations", CABS)
def c16(rep, tier):
    rep.rule("release", "on every path out of a native function each reference and memory block it acquired has been released or handed to the caller, exactly once")
    rep.rule("alive", "no object or memory block is used before a failed allocation was excluded, or after its release")
    rep.rule("error", "NULL is returned exactly when a Python exception is set, and the process is never terminated")
    what = {"unchecked": "is used although its allocation may have failed", "null": "is used although it is NULL", "afterfree": "is used after it was released",
            "doublefree": "is released twice", "overrelease": "is released although no reference is owned", "badfree": "was not allocated by malloc but is freed"}
    for c, py, fn, events, rets in runs():
        for kind, f, line, d, st, loops in events:
            loc = (c.rel, line, f)
            if kind in ("access",):
                rep.ob("alive")
            if kind in what:
                o = d.get("obj")
                rep.bad("alive" if kind in ("unchecked", "null", "afterfree") else "release", f"{kind} {label(o) if o is not None else d.get('what')}", loc,
                        f"{py}: {label(o) if o is not None else d.get('what')} {what[kind]}")
            if kind == "exit":
                rep.bad("error", d["what"], loc, f"{py}: {d['what']}() ends the Python process")
        for st, v in rets:
            line = getattr(st, "retline", 0)
            loc = (c.rel, line, fn)
            rep.ob("error", what=f"{fn}:{line}")
            if v is None:
                rep.bad("error", "no value", loc, f"{py}: returns without a value")
                continue
            if v is NULL and not st.err:
                rep.bad("error", "NULL without exception", loc, f"{py}: returns NULL without setting an exception")
            if v is not NULL and st.err and not (v.op == "cobj" and st.null.get(v) is True):
                rep.bad("error", "value with exception", loc, f"{py}: returns a value although an exception is set")
            for o, k in st.own.items():
                rep.ob("release")
                if st.null.get(o) is True:
                    continue
                if v is o:
                    k -= 1
                    if k < 0:
                        rep.bad("release", f"returned {label(o)}", loc, f"{py}: the returned {label(o)} is not owned by the function")
                if k > 0:
                    rep.bad("release", f"leak {label(o)}", loc, f"{py}: {label(o)} is still owned when the function returns (leaked on every call that takes this path)")
                if k < 0 and v is not o:
                    rep.bad("release", f"stolen {label(o)}", loc, f"{py}: a reference to {label(o)} is given away that the function does not own")
            if v.op == "cobj" and v not in st.own and not st.arr.get(v, {}).get("borrowed") is None:
                rep.bad("release", f"returned borrowed {label(v)}", loc, f"{py}: returns a borrowed reference")
    rep.floor("release", 20)
    rep.floor("error", 4)


def label(o):
    if o is None:
        return "?"
    if o.op == "cblk":
        return "the allocated memory block"
    n = str(o.args[0])
    return f"the object made by {n.split('@')[0]}" if "@" in n else n


# ------------------------------------------------------------------------------------------------ values
class Moments:
    """normal forms over the power sums of one block"""

    def __init__(self, img, i, j):
        self.img, self.i, self.j = img, i, j
        self.roots = []

    def s(self, k):
        if k == 0:
            b = P.Rat(P.patom("B"))
            return b * b
        return P.Rat(P.patom(("S", k)))

    def sqrt(self, r):
        for n, q in enumerate(self.roots):
            if q.same(r):
                return P.Rat(P.patom(("root", n)))
        self.roots.append(r)
        return P.Rat(P.patom(("root", len(self.roots) - 1)))

    def box(self, t):
        """nested sum -> body and its two variables when it runs over exactly the block, else Unknown"""
        vs = []
        while t.op == "csum":
            var, init, step, cond, body = t.args
            if not (is_const(step) and cval(step) == 1) or len(cond) != 1:
                raise P.Unknown("step")
            f = {m: c for _, m, c in cond[0]}
            vs.append((var, init, f))
            t = body
        if len(vs) != 2:
            raise P.Unknown("sum")
        got = set()
        for var, init, f in vs:
            for nm, o in (("i", self.i), ("j", self.j)):
                if init is o:
                    want = padd(padd(poly(o), poly(B)), padd(poly(var), {(): Fraction(1)}), -1)     # o + B - 1 - var >= 0
                    if f == want:
                        got.add((nm, var))
                    else:
                        raise Wrong(f"a block sum runs while {nice(unpoly(f))} >= 0 instead of over blocksize elements")
        if {g[0] for g in got} != {"i", "j"}:
            raise P.Unknown("box")
        d = dict(got)
        return t, d["i"], d["j"]

    def leaf(self, t):
        if t.op == "csum":
            body, u, v = self.box(t)
            x = P.patom("x")

            def lf(q):
                if q.op == "cload":
                    if q.args[0] is not self.img:
                        raise P.Unknown("other array")
                    if q.args[1] is u and q.args[2] is v:
                        return P.Rat(x)
                    if q.args[1] is v and q.args[2] is u:
                        raise Wrong("a block sum reads its rows as columns")
                    raise P.Unknown("load")
                if q is u or q is v:
                    raise P.Unknown("index")
                return self.leaf(q)
            r = P.rat(body, lf)
            if any("x" == a for m in r.d for a, _ in m):
                raise P.Unknown("x in denominator")
            tot = P.Rat(P.pconst(0))
            for m, c in r.n.items():
                k = sum(n for a, n in m if a == "x")
                rest = tuple((a, n) for a, n in m if a != "x")
                tot = tot + P.Rat({rest: c}) * self.s(k)
            return tot / P.Rat(r.d)
        if t is B:
            return P.Rat(P.patom("B"))
        if t.op == "call" and t.args[0] in ("c.sqrt", "c.sqrtf"):
            return self.sqrt(self.reduce(P.rat(t.args[1][0], self.leaf)))
        if t.op == "pow" and is_const(t.args[1]) and cval(t.args[1]) == 0.5:
            return self.sqrt(self.reduce(P.rat(t.args[0], self.leaf)))
        if t.op == "pow" and is_const(t.args[1]) and cval(t.args[1]) == 1.5:
            return self.sqrt(self.reduce(P.rat(t.args[0], self.leaf))) * P.rat(t.args[0], self.leaf)
        if t.op == "cint":
            raise P.Unknown("int")
        if t.op == "cidiv":
            raise Wrong("an integer division truncates")
        if t.op in ("sym",):
            raise P.Unknown("sym")
        return None

    def reduce(self, r):
        """replace squares of roots by what they are the root of"""
        for _ in range(8):
            n, cn = self._red(r.n)
            d, cd = self._red(r.d)
            if not (cn or cd):
                return r
            r = n / d
        return r

    def _red(self, p):
        tot, ch = P.Rat(P.pconst(0)), False
        for m, c in p.items():
            x = P.Rat(P.pconst(c))
            for a, k in m:
                if isinstance(a, tuple) and a[0] == "root" and k >= 2:
                    ch = True
                    for _ in range(k // 2):
                        x = x * self.roots[a[1]]
                    k %= 2
                if k:
                    x = x * P.Rat(P.patom(a, k))
            tot = tot + x
        return tot, ch

    def same(self, a, b):
        d = self.reduce(a - b)
        for _ in range(4):
            n, ch = self._red(d.n)
            if not n.n:
                return True
            if not ch:
                return False
            d = n
        return False


class Wrong(Exception):
    pass


@register("C12", "MAD's native block statistics follow their definition", CABS + "; rational normal forms over the power sums of a block")
def c12(rep, tier):
    rep.rule("value", "getstatistics returns, in this order, standard deviation (n-1), skewness and kurtosis (population moments, 0 for a constant block)")
    rep.rule("place", "the statistics of the block at (i, j) are taken over rows i..i+blocksize-1 and columns j..j+blocksize-1 and stored in rows i..i+stride-1, columns j..j+stride-1; blocks start at every multiple of the stride from which a whole block fits")
    done = 0
    for c, py, fn, events, rets in runs():
        if py != "getstatistics":
            continue
        for st, v in rets:
            if v is None or v is NULL or v.op != "cobj" or "items" not in st.arr.get(v, {}):
                continue
            items = st.arr[v]["items"]
            loc = (c.rel, getattr(st, "retline", 0), fn)
            if len(items) != 3:
                rep.bad("value", "tuple", loc, f"getstatistics returns {len(items)} values instead of three")
                continue
            for pos, (o, what) in enumerate(zip(items, ("standard deviation", "skewness", "kurtosis"))):
                ws = {}
                for kind, f, line, d, s2, loops in events:
                    if kind == "write" and d["obj"] is o:
                        ws[(line, d["value"], loops)] = (f, d)
                if len(ws) != 1:
                    continue
                (line, val, loops), (f, d) = next(iter(ws.items()))
                wloc = (c.rel, line, f)
                if len(loops) != 4 or any(q.var is None for q in loops) or d["rc"] is None:
                    continue
                done += 1
                try:
                    msg = placement(loops, d["rc"], o, st)
                    rep.ob("place", what=f"{what} stored at line {line}")
                    if msg:
                        rep.bad("place", what, wloc, f"getstatistics, {what}: {msg}")
                        continue
                except P.Unknown:
                    continue
                i, j = placement.ij
                img = {a.args[0] for a in atoms(val) if a.op == "cload"}
                if len(img) != 1:
                    continue
                mo = Moments(next(iter(img)), i, j)
                try:
                    rep.ob("value", what=f"{what} at line {line}")
                    msg = formula(mo, pos, val)
                except Wrong as x:
                    msg = str(x)
                except P.Unknown:
                    continue
                if msg:
                    rep.bad("value", what, wloc, f"getstatistics, value {pos} ({what}): {msg}")
    rep.assume("floating-point rounding is ignored: formulas are compared as real functions")


def placement(loops, rc, o, st):
    """message when the storage area is wrong"""
    def cond(q):
        if len(q.cond) != 1:
            raise P.Unknown("cond")
        return q.cond[0]
    r, cc = rc
    byvar = {q.var: q for q in loops}
    if r not in byvar or cc not in byvar:
        raise P.Unknown("index")
    qr, qc = byvar[r], byvar[cc]
    if qr.init not in byvar or qc.init not in byvar:
        raise P.Unknown("start")
    qi, qj = byvar[qr.init], byvar[qc.init]
    if qi is qj:
        return "rows and columns of the storage area start at the same position"
    placement.ij = (qi.var, qj.var)
    one = {(): Fraction(1)}
    for nm, q, s in (("rows", qr, qi), ("columns", qc, qj)):
        if not (is_const(q.step) and cval(q.step) == 1):
            raise P.Unknown("step")
        want = padd(padd(poly(s.var), poly(S)), padd(poly(q.var), one), -1)
        if cond(q) != want:
            return f"the {nm} of the storage area are not the stride rows/columns from the block's start (the loop runs while {nice(unpoly(cond(q)))} >= 0)"
    dims = [mk("cdim", mk("cobj", "argument 0"), k) for k in (0, 1)]
    for nm, q, dm in (("row", qi, dims[0]), ("column", qj, dims[1])):
        if not (is_const(q.init) and cval(q.init) == 0):
            return f"blocks do not start at {nm} 0"
        if q.step is not S:
            if poly(q.step) != poly(S):
                return f"blocks are not stride {nm}s apart"
        want = padd(padd(poly(dm), poly(B), -1), poly(q.var), -1)
        if cond(q) != want:
            return f"block starts run while {nice(unpoly(cond(q)))} >= 0 along the {nm}s instead of as long as a whole block fits"
    return None


def formula(mo, pos, val):
    b2 = mo.s(0)
    s1, s2, s3, s4 = (mo.s(k) for k in (1, 2, 3, 4))
    one = P.Rat(P.pconst(1))
    k = lambda n: P.Rat(P.pconst(n))
    mu = s1 / b2
    m2 = s2 - mu * s1
    m3 = s3 - k(3) * mu * s2 + k(2) * mu * mu * s1
    m4 = s4 - k(4) * mu * s3 + k(6) * mu * mu * s2 - k(3) * mu * mu * mu * s1
    sd = mo.sqrt(m2 / b2)
    if pos == 0:
        want = mo.sqrt(m2 / (b2 - one))
        if val.op == "ite":
            val = nonzero_branch(mo, val, m2)
        got = P.rat(val, mo.leaf)
        return None if mo.same(got, want) else "it is not sqrt(sum((x - mean)^2) / (blocksize^2 - 1))"
    want = m3 / (b2 * sd * sd * sd) if pos == 1 else m4 / (m2 * m2 / b2)
    if val.op != "ite":
        got = P.rat(val, mo.leaf)
        return "a constant block gives 0/0 instead of 0" if mo.same(got, want) else "it is not the standardised moment of the block"
    nz = nonzero_branch(mo, val, m2)
    got = P.rat(nz, mo.leaf)
    return None if mo.same(got, want) else f"it is not sum((x - mean)^{pos + 2}) / (blocksize^2 * sigma^{pos + 2}) with the population sigma"


def nonzero_branch(mo, val, m2):
    """the branch taken for blocks that are not constant; the other one must be 0"""
    c, a, b = val.args
    pol = True
    while c.op == "not":
        c, pol = c.args[0], not pol
    x, y = c.args[:2]
    if is_const(x) and cval(x) == 0:
        zero, e = True, y
        kind = {"eq": "z", "ne": "nz", "lt": "nz", "le": "all"}.get(c.op)
    elif is_const(y) and cval(y) == 0:
        e = x
        kind = {"eq": "z", "ne": "nz", "gt": "nz", "le": "z"}.get(c.op)
    else:
        raise P.Unknown("guard")
    if kind not in ("z", "nz"):
        raise P.Unknown("guard")
    r = P.rat(e, mo.leaf)
    ok = False
    q = mo.reduce(r * r / m2)
    q2 = mo.reduce(r / m2)
    for w in (q, q2):
        n = w
        # free of power sums after cancelling: compare with its value at B only
        for p in (P.pconst(1),):
            if proportional(mo, w):
                ok = True
    if not ok:
        raise P.Unknown("guard")
    nz, z = (a, b) if (kind == "nz") == pol else (b, a)
    if not (is_const(z) and cval(z) == 0):
        if z.op != "ite":
            try:
                v = P.rat(z, mo.leaf)
                if not v.n:
                    return nz
            except P.Unknown:
                pass
        raise Wrong("the value of a constant block is not 0")
    return nz


def proportional(mo, w):
    """is the rational function w independent of the power sums?"""
    base = None
    for m in w.d:
        pass
    # n * f(B) == d * g(B): test by matching coefficients over the power sums
    def group(p):
        g = {}
        for m, c in p.items():
            s = tuple(x for x in m if x[0] != "B")
            r = tuple(x for x in m if x[0] == "B")
            g.setdefault(s, {})[r] = g.setdefault(s, {}).get(r, 0) + c
        return g
    gn, gd = group(w.n), group(w.d)
    if set(gn) != set(gd):
        return False
    ratio = None
    for s in gn:
        r = P.Rat(gn[s], gd[s])
        if ratio is None:
            ratio = r
        elif not ratio.same(r):
            return False
    return True
