"""MAD: block statistics are computed over, and stored at, the same places."""
from ..harness import *
from ..linear import lin, plus
from ..registry import register
from ..terms import rewrite
from .metrics import DR, VN
from .formula import metric
from ..project import AnalysisBroken

B, OV = sym("block_size", "int"), sym("block_overlap", "float")
_WRAP = ("numpy.array", "numpy.asarray", "numpy.stack")


def root_dims(t):
    """rewrite dim(x, k) of an image-shaped x to one extent symbol per axis"""
    memo = {}

    def shaped(x, d=0):
        if x in memo:
            return memo[x]
        memo[x] = r = None
        if loaded(x):
            r = (0, 1, 2)
        elif x.op == "view":
            a = shaped(x.args[0])
            if a and all(s[0] != "new" and not s[2] and s[0] < len(a) for s in x.args[1]):
                r = tuple(a[s[0]] for s in x.args[1])
        elif x.op in ("add", "sub", "mul", "div", "pow", "neg", "lt", "gt", "le", "ge"):
            r = next((y for y in (shaped(a) for a in x.args if isinstance(a, T)) if y), None)
        elif x.op == "store":
            r = shaped(x.args[0])
        elif x.op in ("call", "alloc") and isinstance(x.args[0], str) and x.args[1]:
            f = x.args[0]
            a = x.args[1][0]
            if f in ("numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full"):
                r = shaped(a.args[0]) if a.op == "shape" else None
            elif f.startswith(("scipy.fft.", "scipy.ndimage.", "numpy.")) and not dict(x.args[2]).get("axis"):
                s = f.split(".")[-1]
                if s in ("real", "imag", "abs", "absolute", "log", "exp", "sqrt", "fft2", "ifft2", "fftn", "ifftn", "fftshift", "ifftshift", "convolve", "correlate", "zeros_like",
                         "empty_like", "asarray", "array", "copy", "astype", "ascontiguousarray", "divide", "multiply", "square"):
                    r = shaped(a)
        memo[x] = r
        return r

    def f(x):
        if x.op == "dim" and isinstance(x.args[0], T):
            a = shaped(x.args[0])
            if a and isinstance(x.args[1], int) and x.args[1] < len(a):
                return sym(f"#extent{a[x.args[1]]}", "int")
        if x.op == "call" and x.args[0] in ("builtins.int", "builtins.round") and lin(x) is None or x.op in ("floordiv", "mod"):
            return sym(f"#{show(x)}", "int")
        return x
    return rewrite(t, f)


def form(t):
    t = root_dims(t)
    return lin(t)


def rng(t):
    """(start, stop, step) linear forms of a range term"""
    if t.op == "call" and t.args[0] in ("builtins.range", "numpy.arange"):
        a = t.args[1]
        s0, s1, s2 = (const(0), a[0], const(1)) if len(a) == 1 else (a[0], a[1], const(1)) if len(a) == 2 else a[:3]
        r = tuple(form(x) for x in (s0, s1, s2))
        return None if any(x is None for x in r) else r
    return None


def blocks_of(t):
    """[(outer range, inner range, block term)] of the lists of blocks a per-block statistic is computed from"""
    out = []
    for x in subterms(t):
        if x.op == "listv" and len(x.args) == 1 and x.args[0].op == "each":
            o = x.args[0]
            if o.args[1].op == "each" and o.args[1].args[1].op == "getitem":
                out.append((o.args[0], o.args[1].args[0], o.args[1].args[1]))
    return out


def box(ix):
    """[(start term, length form)] of a two-dimensional slice index"""
    if ix.op != "tuple" or len(ix.args) != 2:
        return None
    r = []
    for s in ix.args:
        if s.op != "slice" or not is_const(s.args[2], None, 1):
            return None
        lo = const(0) if is_const(s.args[0], None) else s.args[0]
        a, b = form(lo), form(s.args[1])
        if a is None or b is None:
            return None
        r.append((lo, plus(b, a, -1)))
    return r


def say(f):
    if f is None:
        return "?"
    return " + ".join(f"{c}*{k}" if k is not None else str(c) for k, c in sorted(f.items(), key=str)).replace("1*", "") or "0"


@register("C21", "MAD's block values belong to the pixels of their block", VN)
def c21(rep, tier):
    rep.rule("extract", "the blocks of an image are img[i:i+B, j:j+B] for i, j from 0 to the last start that fits, in steps of the stride")
    rep.rule("place", "the value stored at [i:i+S, j:j+S] is that of the block which starts at (i, j): same ranges in the same order, a counter from 0 "
             "incremented once per block")
    rep.rule("native", "the native block statistics get the block size and stride the blocks are extracted with")
    e = engine()
    cls = metric(e, "MAD")
    for kind, extra in (("2d", []), ("3d", [("dim", const(0)), ("im_slice", const(1))]), ("3d", [("dim", const(2))])):
        e.cfg = scenario(kind, "float64")
        seen = False
        for p in construct(e, cls, kws=[("data_range", DR)]):
            if p.kind != "ret":
                continue
            for q in method(e, p.st, p.val, "score", [R, M], [("block_size", B), ("block_overlap", OV)] + extra):
                if q.kind == "ret":
                    seen = True
                    path(rep, e, q, f"MAD {kind} " + ",".join(f"{k}={short(v)}" for k, v in extra), tier)
        if not seen:
            raise AnalysisBroken("MAD.score never returns")
    rep.floor("native", 3)


def path(rep, e, q, what, tier):
    bsize, strides = form(B), set()
    steps = {ev.a[0]: ev.a[1] for ev in q.events("step")}
    done = set()
    for ev in q.events("setitem"):
        val = ev.a[2]
        if not isinstance(val, T) or val.op != "getitem" or len(ev.loops) < 2:
            continue
        bl = blocks_of(val.args[0])
        if len(bl) != 1:
            continue
        ro, ri, blk = bl[0]
        a, b = rng(ro), rng(ri)
        ib, ip = box(blk.args[1]), box(ev.a[1])
        if None in (a, b, ib, ip):
            rep.ob("undecided", what=f"{what}: {short(ev.a[1], 60)}")
            continue
        if blk not in done:
            done.add(blk)
            extract(rep, blk_loc(q, ro, ev), what, a, b, ro, ri, ib, bsize, [form(e.dim(blk.args[0], k)) for k in (0, 1)])
        rep.ob("place", what=f"{what} line {ev.loc[1]}")
        strides.add(tuple(sorted(a[2].items(), key=str)))
        lo, li = ev.loops[-2], ev.loops[-1]
        x, y = rng(lo), rng(li)
        (s0, l0), (s1, l1) = ip
        where_ = ev.loc
        if (x, y) != (a, b):
            if None in (x, y):
                rep.ob("undecided", what=f"{what}: loops")
                continue
            rep.bad("place", "block order", where_, f"{what}: block values computed for i in range({', '.join(map(say, a))}), j in range({', '.join(map(say, b))}) are stored "
                    f"over range({', '.join(map(say, x))}), range({', '.join(map(say, y))})")
        if s0 is not mk("elem", lo) or s1 is not mk("elem", li):
            rep.bad("place", "position", where_, f"{what}: the value of block (i, j) is not stored from row i and column j")
        if l0 != a[2] or l1 != b[2]:
            rep.bad("place", "size", where_, f"{what}: values are stored over {say(l0)} x {say(l1)} pixels while blocks advance by {say(a[2])} and {say(b[2])}")
        counter(rep, where_, what, val.args[1], steps)
    for ev in q.events("ext"):
        if ev.a[0].split(".")[-1] in ("getstatistics", "minstd") and len(ev.a[1]) > 2:
            rep.ob("native", what=f"{what} {ev.a[0].split('.')[-1]}")
            f1, f2 = form(ev.a[1][1]), form(ev.a[1][2])
            if f1 != bsize:
                rep.bad("native", ev.a[0].split(".")[-1], ev.loc, f"{what}: called with block size {say(f1)} instead of {say(bsize)}")
            if strides and f2 is not None and tuple(sorted(f2.items(), key=str)) not in strides:
                rep.bad("native", ev.a[0].split(".")[-1], ev.loc, f"{what}: called with stride {say(f2)}, the blocks advance by another one")


def blk_loc(q, ro, ev):
    for x in q.events("loop"):
        if x.a[0] is ro:
            return x.loc
    return ev.loc


def extract(rep, loc, what, a, b, ro, ri, ib, bsize, exts):
    rep.ob("extract", what=what)
    (s0, l0), (s1, l1) = ib
    for k, (r, s, l, t) in enumerate(((a, s0, l0, ro), (b, s1, l1, ri))):
        last = plus(plus(exts[k], bsize, -1), {None: 1}) if exts[k] is not None else r[1]
        if r[0] != {} or r[1] != last:
            rep.bad("extract", f"axis {k}", loc, f"{what}: block starts along axis {k} are range({', '.join(map(say, r))}), not all from 0 to extent - block size")
        if s is not mk("elem", t):
            rep.bad("extract", f"start {k}", loc, f"{what}: blocks along axis {k} do not start at the loop's position")
        if l != bsize:
            rep.bad("extract", f"size {k}", loc, f"{what}: blocks are {say(l)} long along axis {k}, not {say(bsize)}")
    if a[2] != b[2]:
        rep.bad("extract", "stride", loc, f"{what}: blocks advance by {say(a[2])} and {say(b[2])}")


def counter(rep, loc, what, i, steps):
    """the index counts the blocks: phi(inner, phi(outer, 0)) with one increment per inner and none per outer iteration"""
    if i.op != "phi" or i.args[2].op != "phi":
        if i.op == "add" and any(isinstance(x, T) and x.op == "phi" for x in i.args):
            rep.bad("place", "counter", loc, f"{what}: the block value is read at the counter plus an offset")
        elif i.op == "phi" and is_const(i.args[2]) and i in steps and lin(steps[i]) == {i: 1, None: 1}:
            rep.bad("place", "counter", loc, f"{what}: the block counter does not run over all blocks of all rows")
        else:
            rep.ob("undecided", what=f"{what}: counter")
        return
    outer = i.args[2]
    if not is_const(outer.args[2], 0):
        rep.bad("place", "counter", loc, f"{what}: the block counter does not start at 0")
    d = lin(steps[i]) if i in steps else None
    if d is not None and d != {i: 1, None: 1}:
        rep.bad("place", "counter", loc, f"{what}: the block counter is not incremented by one per block")
    if i not in steps and outer in steps:
        rep.bad("place", "counter", loc, f"{what}: the block counter is not incremented per block")
    o = steps.get(outer)
    if o is not None and o.op != "loopout" and o is not outer:
        rep.bad("place", "counter", loc, f"{what}: the block counter is changed between rows of blocks")
