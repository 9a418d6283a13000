"""Region and slice plots: what is displayed where, and what is drawn on it."""
import itertools

from ..linear import lin, order_facts, plus
from .export import *
from .regions import BALL, CUBE, RAD, WHOLE

V = "viqa.utils.visualization"
PLT = "matplotlib.pyplot."
SIG = {n: tup(*[sym(f"s{i}", "int") for i in range(n)]) for n in (2, 3)}
BG = {n: tup(*[sym(f"b{i}", "int") for i in range(n)]) for n in (2, 3)}
SLI = tup(*[sym(f"sl{i}", "int") for i in range(3)])
MASK = sym("signal", "array")
EXP = sym("export_path", "str")
CUR = ("current",)
NAMES = {"x": 0, "y": 1, "z": 2}
FIG, AXS = sym("FIGURE", "any"), "matplotlib:axes"


def grid(t):
    """iteration over the result of plt.subplots: (figure, axes), rows of axes, axes"""
    if t.op == "call" and t.args[0] == PLT + "subplots":
        kw = dict(t.args[2])
        a = list(t.args[1][:2])
        n = [a[i] if len(a) > i else kw.get(k, const(1)) for i, k in enumerate(("nrows", "ncols"))]
        if any(not is_const(x) or not isinstance(cval(x), int) for x in n) or "squeeze" in kw:
            return None
        return [FIG, block(cval(n[0]), cval(n[1]))]
    if t.op == "axes":
        return rows(t)
    if t.op == "mcall" and t.args[1] in ("ravel", "flatten") and t.args[0].op == "axes":
        return flat(t.args[0])
    if t.op == "attr" and t.args[1] == "flat" and t.args[0].op == "axes":
        return flat(t.args[0])
    return None


def block(r, c):
    if r == 1 and c == 1:
        return mk("ax", 0, 0)
    return mk("axes", r, c)


def rows(t):
    r, c = t.args
    if r == 1:
        return [mk("ax", 0, j) for j in range(c)]
    if c == 1:
        return [mk("ax", i, 0) for i in range(r)]
    return [mk("axrow", i, c) for i in range(r)]


def flat(t):
    return [mk("ax", i, j) for i in range(t.args[0]) for j in range(t.args[1])]


def canon(t):
    """an indexed grid of panels -> the panel, row or grid meant"""
    if t.op == "getitem":
        b, i = canon(t.args[0]), t.args[1]
        if b.op == "axes" and i.op == "tuple" and len(i.args) == 2 and all(is_const(x) and isinstance(cval(x), int) for x in i.args):
            return mk("ax", cval(i.args[0]) % b.args[0], cval(i.args[1]) % b.args[1])
        its = parts_of(b)
        if its is not None and is_const(i) and isinstance(cval(i), int) and -len(its) <= cval(i) < len(its):
            return its[cval(i)]
    return t


def parts_of(t):
    t = canon(t)
    if t.op == "axrow":
        return [mk("ax", t.args[0], j) for j in range(t.args[1])]
    return grid(t)


def ax_of(t):
    """the panel a drawing call goes to"""
    t = canon(t)
    if t.op == "ax":
        return t.args
    if t.op == "call" and t.args[0] == PLT + "gca":
        return CUR
    return None


STATEFUL = {"imshow": "imshow", "xlabel": "set_xlabel", "ylabel": "set_ylabel", "title": "set_title", "axvline": "axvline", "axhline": "axhline"}
DRAW = {"imshow", "matshow", "set_title", "set_xlabel", "set_ylabel", "axvline", "axhline", "add_patch", "add_artist", "set"}
OTHER = {"plot", "scatter", "vlines", "hlines", "pcolormesh", "contour", "contourf", "fill", "pcolor", "add_collection", "add_line", "annotate", "text"}


class Unread(Exception):
    pass


def drawing(p, base):
    """(panel, method, positional, keywords, event)"""
    out = []
    for ev in p.st.events[base:]:
        if ev.kind == "mcall" and ev.a[1] in DRAW | OTHER:
            ax = ax_of(ev.a[0])
            if ax is None:
                raise Unread(f"{where(ev.loc)}: {short(ev.a[0], 60)}.{ev.a[1]} draws on a panel that is not identified")
            if ev.a[1] == "set":
                for k, v in ev.a[3]:
                    out.append((ax, "set_" + k, (v,), {}, ev))
                continue
            out.append((ax, ev.a[1], ev.a[2], dict(ev.a[3]), ev))
        elif ev.kind == "ext" and ev.a[0].startswith(PLT):
            n = ev.a[0][len(PLT):]
            if n in STATEFUL:
                out.append((CUR, STATEFUL[n], ev.a[1], dict(ev.a[2]), ev))
            elif n in ("sca", "subplot", "axes"):
                raise Unread(f"{where(ev.loc)}: panels selected with pyplot.{n}")
    return out


class Panel:
    def __init__(self):
        self.images, self.title, self.xl, self.yl, self.v, self.h, self.patches = [], None, None, None, [], [], []
        self.other = False


def panels(p, base):
    out = {}
    for ax, m, pos, kw, ev in drawing(p, base):
        q = out.setdefault(ax, Panel())
        arg = pos[0] if pos else None
        if m in ("imshow", "matshow"):
            q.images.append((arg if arg is not None else kw.get("X", kw.get("Z")), kw, ev))
        elif m == "set_title":
            q.title = (arg if arg is not None else kw.get("label"), ev)
        elif m == "set_xlabel":
            q.xl = (arg if arg is not None else kw.get("xlabel"), ev)
        elif m == "set_ylabel":
            q.yl = (arg if arg is not None else kw.get("ylabel"), ev)
        elif m == "axvline":
            q.v.append((arg if arg is not None else kw.get("x"), ev))
        elif m == "axhline":
            q.h.append((arg if arg is not None else kw.get("y"), ev))
        elif m in ("add_patch", "add_artist"):
            q.patches.append((arg if arg is not None else kw.get("p", kw.get("a")), ev))
        elif m in OTHER:
            q.other = True
    return out


def same(a, b, k=0):
    """is a the integer expression b (a linear form or a term)?"""
    fa = lin(a)
    fb = b if isinstance(b, dict) else lin(b)
    return fa == fb if fa is not None and fb is not None else None


def shown(e, t):
    """displayed array -> (source, axis along the rows, axis along the columns, {axis: index}, flipped?)"""
    core, spec, fixed = peel(e, t)
    if spec is None or any(s[0] == "new" for s in spec):
        raise Unread(f"displayed array {short(t, 80)}")
    if any(s[2] for s in spec):
        raise Unread(f"displayed array {short(t, 80)} is a section")
    return core, spec, fixed


class Plot:
    def __init__(self, rep, e, lab, loc):
        self.rep, self.e, self.lab, self.loc = rep, e, lab, loc

    def bad(self, rule, what, ev, msg):
        self.rep.bad(rule, f"{self.lab.split()[0]}: {what}", ev.loc if ev is not None else self.loc, f"{self.lab}: {msg}")

    def panel(self, name, q, img, center, regions, mask=None, region=None):
        """one panel of a plot with a centre: regions = expected patch kind (None: no patch, False: not applicable)"""
        rep, e = self.rep, self.e
        rep.ob("panel", 1, f"{self.lab} {name}")
        if not q.images:
            self.bad("panel", f"{name}: empty", None, f"panel {name} shows no image")
            return None
        im, kw, ev = q.images[0]
        if "extent" in kw or im is None:
            raise Unread("imshow with an extent")
        core, spec, fixed = shown(e, im)
        n = e.ndim(core)
        if core is not img:
            self.bad("panel", f"{name}: image", ev, f"panel {name} shows {short(im, 80)} instead of the image")
            return None
        if len(spec) != 2:
            self.bad("panel", f"{name}: rank", ev, f"panel {name} shows a {len(spec)}-dimensional part of the image")
            return None
        row, col = spec[0][0], spec[1][0]
        for s, lab, d in ((spec[0], q.yl, "vertical"), (spec[1], q.xl, "horizontal")):
            rep.ob("axes", 1, f"{self.lab} {name}")
            if s[1]:
                self.bad("axes", f"{name}: mirrored", ev, f"panel {name} shows the {d} axis ({'xyz'[s[0]]}) mirrored, so positions on it are not image coordinates")
            if lab is not None and is_const(lab[0]) and cval(lab[0]) in NAMES and NAMES[cval(lab[0])] != s[0]:
                self.bad("axes", f"{name}: label", lab[1], f"panel {name} shows axis {'xyz'[s[0]]} of the image as its {d} axis but labels it {cval(lab[0])}")
        for ax, ix in fixed.items():
            rep.ob("slice", 1, f"{self.lab} {name}")
            if ix is not center.args[ax]:
                self.bad("slice", f"{name}: slice", ev, f"panel {name} shows the slice {'xyz'[ax]}={short(ix, 40)} instead of {short(center.args[ax], 40)}")
        if q.title is not None and fixed:
            ps = merge(parts(q.title[0])) if q.title[0] is not None else []
            ax = next(iter(fixed))
            txt = "".join(str(cval(x)) for x in ps if is_const(x))
            vals = [x for x in ps if not is_const(x)]
            named = [a for a in NAMES if f"{a}-axis" in txt]
            rep.ob("slice", 1, f"{self.lab} {name} title")
            if named and named != ["xyz"[ax]]:
                self.bad("slice", f"{name}: title axis", q.title[1], f"panel {name} shows a slice of the {'xyz'[ax]}-axis but is titled {txt!r}")
            if "slice" in txt and vals and vals[0].op in ("sym", "add", "sub", "mul") and vals[0] is not center.args[ax]:
                self.bad("slice", f"{name}: title slice", q.title[1], f"the title of panel {name} gives slice {short(vals[0], 40)} instead of {short(center.args[ax], 40)}")
        for lines, ax, d in ((q.v, col, "vertical"), (q.h, row, "horizontal")):
            for t, lev in lines:
                rep.ob("lines", 1, f"{self.lab} {name}")
                if t is None or same(t, center.args[ax]) is not True:
                    self.bad("lines", f"{name}: {d} line", lev, f"the {d} line of panel {name} is at {short(t, 40) if t is not None else '0'} instead of {short(center.args[ax], 40)}")
        if regions is not False:
            self.patch(name, q, row, col, center, regions)
        if mask is not None:
            rep.ob("overlay", 1, f"{self.lab} {name}")
            over = q.images[1:]
            if region == "full" and not over:
                self.bad("overlay", f"{name}: missing", None, f"panel {name} does not show the signal mask")
            for t, okw, oev in over:
                c2, s2, f2 = shown(e, t)
                if c2 is not mask or [s[:2] for s in s2] != [s[:2] for s in spec] or f2 != fixed:
                    self.bad("overlay", f"{name}: overlay", oev, f"the mask shown in panel {name} is {short(t, 80)}, not the part of the mask that belongs to the displayed image")
        return fixed

    def patch(self, name, q, row, col, center, kind):
        rep = self.rep
        rep.ob("region", 1, f"{self.lab} {name}")
        if kind is None:
            for t, ev in q.patches:
                if t is not None and not is_const(t):
                    self.bad("region", f"{name}: patch", ev, f"panel {name} marks {short(t, 80)} although the whole image is the region")
            return
        if not q.patches:
            if q.other:
                raise Unread(f"{self.lab}: region drawn without a patch")
            self.bad("region", f"{name}: none", None, f"panel {name} does not mark the region")
            return
        for t, ev in q.patches:
            if t is None or t.op != "call" or t.args[0].split(".")[-1] not in ("Rectangle", "Circle"):
                raise Unread(f"{self.lab}: patch {short(t, 60) if t is not None else ''}")
            shape = t.args[0].split(".")[-1]
            kw = dict(t.args[2])
            a = dict(zip(("xy", "width", "height") if shape == "Rectangle" else ("xy", "radius"), t.args[1]))
            a.update({k: v for k, v in kw.items() if k in ("xy", "width", "height", "radius")})
            if shape != kind:
                self.bad("region", f"{name}: shape", ev, f"panel {name} marks a {shape} although the region is a {'cube' if kind == 'Rectangle' else 'ball'}")
                continue
            if any(k in kw for k in ("angle", "rotation_point", "transform")):
                raise Unread("rotated patch")
            xy = a.get("xy")
            if xy is None or xy.op not in ("tuple", "listv") or len(xy.args) != 2:
                raise Unread(f"{self.lab}: patch position {short(xy, 60) if xy is not None else ''}")
            r = {RAD: 1}
            for t2, ax, d in ((xy.args[0], col, "horizontal"), (xy.args[1], row, "vertical")):
                c = lin(center.args[ax])
                want = [plus(c, r, -1), plus(plus(c, r, -1), {None: 0.5}, -1)] if kind == "Rectangle" else [c]
                if all(same(t2, w) is not True for w in want):
                    self.bad("region", f"{name}: {d} position", ev, f"the region marked in panel {name} {'starts' if kind == 'Rectangle' else 'is centred'} {d}ly at {short(t2, 60)}; "
                             f"the region scored is centred at {short(center.args[ax], 30)} with radius {short(RAD)}")
            for k in ("width", "height") if kind == "Rectangle" else ("radius",):
                want = {RAD: 2} if kind == "Rectangle" else {RAD: 1}
                if a.get(k) is None or same(a[k], want) is not True:
                    self.bad("region", f"{name}: {k}", ev, f"the region marked in panel {name} has {k} {short(a[k], 40) if a.get(k) is not None else 'default'} instead of {'twice ' if kind == 'Rectangle' else ''}the radius")

    def export(self, p, base, path):
        """the plot is saved to the path given, and before it is shown; without a path nothing is saved"""
        rep = self.rep
        rep.ob("export", 1, self.lab)
        evs = p.st.events[base:]
        saves, shows = [], []
        for i, ev in enumerate(evs):
            if ev.kind == "ext" and ev.a[0] == PLT + "savefig" or ev.kind == "mcall" and ev.a[1] == "savefig":
                pos, kw = (ev.a[1], dict(ev.a[2])) if ev.kind == "ext" else (ev.a[2], dict(ev.a[3]))
                saves.append((i, pos[0] if pos else kw.get("fname"), ev))
            elif ev.kind == "ext" and ev.a[0] == PLT + "show" or ev.kind == "ext" and ev.a[0] == PLT + "close":
                shows.append((i, ev))
        if path is None:
            for i, t, ev in saves:
                self.bad("export", "saved unasked", ev, "the plot is saved although no export path was given")
            return
        if not saves:
            self.bad("export", "not saved", None, "the plot is not saved to the export path given")
        for i, t, ev in saves:
            if path not in set(subterms(t if t is not None else NONE)):
                self.bad("export", "path", ev, f"the plot is saved to {short(t, 60) if t is not None else 'nowhere'} instead of the export path given")
            if any(j < i for j, _ in shows):
                self.bad("export", "saved after show", ev, "the plot is saved after it was shown, when the figure may be closed already")


def cfg_plot(kind):
    def facts(key):
        if key.op == "call" and key.args[0].startswith("matplotlib."):
            return True
        if key is EXP:
            return True
        if key.op == "eq" and {key.args[0].op, key.args[1].op} == {"shape"}:
            return True
        return None

    return scenario(kind, "uint8", load_opaque=False, iter_fn=lambda t: parts_of(t), facts=facts, imgs=(R, M, I, MASK), maxpaths=3000)


@register("C25", "Plots show the regions and slices of the coordinates given", VN)
def c25(rep, tier):
    e = engine()
    rep.rule("panel", "every panel shows the image given, CNR: one for the background and one for the signal (per axis in 3D), SNR and visualize_3d one per axis")
    rep.rule("axes", "horizontal and vertical axis of a panel are the image axes they are labelled with, not mirrored")
    rep.rule("slice", "a slice panel shows the slice at the coordinate given for the axis it leaves out, and says so in its title")
    rep.rule("lines", "the lines in a slice panel are at the other two coordinates, each on its own axis")
    rep.rule("region", "the patch covers exactly the region scored: cube centre +- radius, ball of that radius, nothing for the whole image; each in the panel of its own centre")
    rep.rule("overlay", "a signal mask is overlaid with the same orientation and slice as the image")
    rep.rule("export", "a plot is saved to the export path given, before it is shown, and only then")
    rep.rule("bounds", "visualize_3d raises ValueError for a slice index outside the image, before anything is drawn, and only then")
    rep.rule("forward", "visualize_centers and ImageArray.visualize plot the image and the coordinates they were given")
    rep.floor("panel", 60)
    rep.floor("region", 50)
    rep.floor("lines", 60)
    rep.floor("export", 20)
    centre_plots(rep, e)
    slice_plots(rep, e)
    forwarding(rep, e)


def kind_of(rt):
    return "Rectangle" if rt in CUBE else "Circle" if rt in BALL else None


def guarded(rep, fn):
    try:
        fn()
    except Unread as x:
        rep.ob("undecided", 1, str(x))


def centre_plots(rep, e):
    for who in ("cnr", "snr"):
        for n, kind in ((2, "2d"), (3, "3d")):
            name = f"_visualize_{who}_{n}d"
            fi = e.p.func(V, name)
            f = func(e, V, name)
            rep.functions.add(fi.label)
            loc = fi_loc(e, fi)
            for rt in CUBE + BALL + WHOLE:
                for path in (None, EXP):
                    kws = [("signal_center", SIG[n]), ("radius", RAD), ("region_type", const(rt))]
                    if who == "cnr":
                        kws.append(("background_center", BG[n]))
                    elif rt == "full":
                        kws.append(("signal", MASK))
                    if path is not None:
                        kws.append(("export_path", path))
                    e.cfg = cfg_plot(kind)
                    lab = f"{name} {rt}"
                    done = False
                    for p in call(e, f, [I], kws):
                        if p.kind != "ret":
                            if not p.conds():
                                rep.bad("panel", f"{name}: rejects", loc, f"{lab}: raises {e.exc_name(p.val)} for valid coordinates")
                            continue
                        done = True
                        guarded(rep, lambda: centre_path(rep, e, who, n, rt, lab, loc, p, path))
                    if not done:
                        rep.bad("panel", f"{name}: fails", loc, f"{lab}: no plot is made for valid coordinates")


def centre_path(rep, e, who, n, rt, lab, loc, p, path):
    pl = Plot(rep, e, lab, loc)
    ps = panels(p, 0)
    pl.export(p, 0, path)
    want = (2 if who == "cnr" else 1) * (3 if n == 3 else 1)
    if len(ps) != want:
        pl.bad("panel", "number", None, f"{len(ps)} panels are drawn instead of {want}")
        return
    seen = set()
    for ax, q in sorted(ps.items()):
        center, nm = SIG[n], "signal"
        if who == "cnr":
            if n == 2:
                txt = str(cval(q.title[0])).lower() if q.title and q.title[0] is not None and is_const(q.title[0]) else ""
                if "background" in txt:
                    center, nm = BG[n], "background"
                elif "signal" not in txt:
                    raise Unread(f"{lab}: panel without title")
            else:
                nm = "background" if ax[0] == 0 else "signal"       # upper and lower row, as the figure title says
                center = BG[n] if ax[0] == 0 else SIG[n]
        fixed = pl.panel(f"{nm} {ax[-1] if n == 3 else ''}".strip(), q, I, center, kind_of(rt), MASK if who == "snr" else None, rt)
        if fixed is not None:
            seen.add((nm, tuple(sorted(fixed))))
    if len(seen) != want:
        pl.bad("panel", "repeated", None, "two panels show the same region and axis, another one is missing")


def truth3(t, leaf, slice_):
    """three-valued truth of a condition from the truth of its comparisons"""
    if is_const(t):
        return bool(cval(t))
    if t.op == "isinstance" and t.args[0] is slice_:
        return True
    if t.op in ("and", "or") or t.op == "call" and t.args[0] in ("builtins.all", "builtins.any") and len(t.args[1]) == 1 and t.args[1][0].op in ("listv", "tuple"):
        every = t.op == "and" or t.op == "call" and t.args[0].endswith("all")
        vs = [truth3(x, leaf, slice_) for x in (t.args if t.op != "call" else t.args[1][0].args)]
        if every:
            return False if False in vs else True if all(v is True for v in vs) else None
        return True if True in vs else False if all(v is False for v in vs) else None
    if t.op == "not":
        v = truth3(t.args[0], leaf, slice_)
        return None if v is None else not v
    if t.op in ("gt", "ge"):
        return leaf(mk({"gt": "lt", "ge": "le"}[t.op], t.args[1], t.args[0]))
    if t.op == "le":
        v = leaf(mk("lt", t.args[1], t.args[0]))
        return leaf(t) if v is None else not v
    return leaf(t)


def outside(rep, e, f, loc, order, ax, what, t, valid=False):
    e.cfg = cfg_plot("3d")
    base = e.cfg.facts
    e.cfg.facts = lambda key: truth3(key, lambda k: order(k) if base(k) is None else base(k), t)
    lab = f"visualize_3d axis {ax} {what}"
    rep.ob("bounds", 1, lab)
    for p in call(e, f, [I, tup(*[t if i == ax else const(0) for i in range(3)])]):
        drawn = [ev for ev in p.st.events if ev.kind == "mcall" and ev.a[1] == "imshow"]
        if p.conds():
            rep.ob("undecided", 1, lab)
        elif valid:
            if p.kind != "ret":
                rep.bad("bounds", "visualize_3d: valid", loc, f"visualize_3d with the slice of the {'xyz'[ax]}-axis {what} raises {e.exc_name(p.val)}")
        elif p.kind == "ret" or drawn or e.exc_name(p.val) != "ValueError":
            rep.bad("bounds", "visualize_3d: bounds", drawn[0].loc if drawn else loc, f"visualize_3d with the slice of the {'xyz'[ax]}-axis {what} "
                    f"{'plots' if p.kind == 'ret' or drawn else 'raises ' + str(e.exc_name(p.val))} instead of raising ValueError")


def slice_plots(rep, e):
    fi = e.p.func(V, "visualize_3d")
    f = func(e, V, "visualize_3d")
    rep.functions.add(fi.label)
    loc = fi_loc(e, fi)
    for path in (None, EXP):
        e.cfg = cfg_plot("3d")
        done = False
        for p in call(e, f, [I, SLI], [("export_path", path)] if path is not None else []):
            if p.kind != "ret":
                continue
            done = True

            def one():
                pl = Plot(rep, e, "visualize_3d", loc)
                ps = panels(p, 0)
                pl.export(p, 0, path)
                if len(ps) != 3:
                    pl.bad("panel", "number", None, f"{len(ps)} panels are drawn instead of 3")
                    return
                fx = [pl.panel(str(ax[-1]), q, I, SLI, False) for ax, q in sorted(ps.items())]
                if None not in fx and len({tuple(x) for x in fx}) != 3:
                    pl.bad("panel", "repeated", None, "two panels show the same axis, another one is missing")
            guarded(rep, one)
        if not done:
            rep.bad("panel", "visualize_3d: fails", loc, "visualize_3d makes no plot for valid slices")
    # extents by their order of size: the smallest is at least 4, each next one larger by at least 1
    for perm in itertools.permutations(range(3)):
        pos, f0 = {}, {None: 4}
        for a in perm:
            f0 = plus(f0, {mk("extent", a): 1, None: 1})
            pos[mk("dim", I, a)] = dict(f0)
        order = order_facts(e, pos)
        for ax in range(3):
            for what, t in (("one past the end", mk("dim", I, ax)), ("more than the extent below zero", mk("sub", mk("neg", mk("dim", I, ax)), const(1)))):
                outside(rep, e, f, loc, order, ax, what, t)
            for what, t in (("the last one", mk("sub", mk("dim", I, ax), const(1))), ("the last one counted from the end", mk("neg", mk("dim", I, ax)))):
                outside(rep, e, f, loc, order, ax, what, t, True)
    fi = e.p.func(V, "visualize_2d")
    f = func(e, V, "visualize_2d")
    rep.functions.add(fi.label)
    loc = fi_loc(e, fi)
    for kind in ("2d", "rgb"):
        for path in (None, EXP):
            for kws in ([], [("cmap", const("viridis"))]):
                e.cfg = cfg_plot(kind)
                lab = f"visualize_2d {kind}"
                done = False
                for p in call(e, f, [I], kws + ([("export_path", path)] if path is not None else [])):
                    if p.kind != "ret":
                        continue
                    done = True

                    def one():
                        pl = Plot(rep, e, lab, loc)
                        pl.export(p, 0, path)
                        ps = panels(p, 0)
                        rep.ob("panel", 1, lab)
                        ims = [x for q in ps.values() for x in q.images]
                        if len(ims) != 1:
                            pl.bad("panel", "number", None, f"{len(ims)} images are shown instead of one")
                            return
                        core, spec, fixed = shown(e, ims[0][0])
                        if core is not I or fixed or len(spec) != e.ndim(I) or any(s[1] for s in spec) or (kind == "rgb" and spec[2][0] != 2):
                            pl.bad("panel", "image", ims[0][2], f"shows {short(ims[0][0], 80)} instead of the image")
                    guarded(rep, one)
                if not done:
                    rep.bad("panel", "visualize_2d: fails", loc, f"{lab}: no plot is made")


def forwarding(rep, e):
    sinks = [f"_visualize_{w}_{d}d" for w in ("cnr", "snr") for d in (2, 3)] + ["visualize_2d", "visualize_3d"]
    for who in ("CNR", "SNR"):
        cls = by_name(e, who)
        fi = method_info(e, cls, "visualize_centers")
        rep.functions.add(fi.label)
        loc = fi_loc(e, fi)
        for kind in ("2d", "3d", "rgb"):
            n = 3 if kind == "3d" else 2
            for rt in ("cubic", "spherical", None):
                for stored in (False, True):
                    e.cfg = scenario(kind, "uint8", sinks=[f"{V}.{s}" for s in sinks])
                    kws = [("signal_center", SIG[n]), ("radius", RAD), ("export_path", EXP)]
                    if who == "CNR":
                        kws.append(("background_center", BG[n]))
                    if rt is not None:
                        kws.append(("region_type", const(rt)))
                    elif who == "SNR":
                        continue                    # SNR demands a region type
                    given = kws
                    ctor = {}
                    if stored:                      # set by set_centers or at construction
                        ctor = {k: v for k, v in kws if k not in ("export_path",) and not (k == "region_type" and who == "CNR")}
                        given = [(k, v) for k, v in kws if k == "export_path" or (k == "region_type" and who == "CNR")]
                    lab = f"{who}.visualize_centers {kind} {rt} {'stored' if stored else 'given'}"
                    done = False
                    for st, ref in build(e, cls, **ctor):
                        base = len(st.events)
                        for p in method(e, st, ref, "visualize_centers", [I], given):
                            if p.kind != "ret":
                                continue
                            done = True
                            rep.ob("forward", 1, lab)
                            ks = [(ev, dict(ev.a[1])) for ev in p.events("sink") if ev in p.st.events[base:]]
                            if len(ks) != 1:
                                rep.bad("forward", f"{who}: plots", loc, f"{lab}: {len(ks)} plots are made instead of one")
                                continue
                            ev, a = ks[0]
                            if not ev.a[0].endswith(f"_visualize_{who.lower()}_{n}d"):
                                rep.bad("forward", f"{who}: plot", ev.loc, f"{lab}: plotted by {ev.a[0].split('.')[-1]}")
                                continue
                            want = {"signal_center": SIG[n], "radius": RAD, "export_path": EXP}
                            if who == "CNR":
                                want["background_center"] = BG[n]
                            if rt is not None:
                                want["region_type"] = const(rt)
                            for k, v in want.items():
                                if a.get(k) is not v:
                                    rep.bad("forward", f"{who}: {k}", ev.loc, f"{lab}: the plot gets {k}={short(a[k], 60) if k in a else 'nothing'} instead of {short(v, 60)}")
                            if rt is None and "region_type" in a and (not is_const(a["region_type"]) or cval(a["region_type"]) not in CUBE):
                                rep.bad("forward", f"{who}: region_type", ev.loc, f"{lab}: without a region type the plot marks {short(a['region_type'], 40)}, the score uses a cube")
                            if I not in set(subterms(a.get("img", NONE))):
                                rep.bad("forward", f"{who}: img", ev.loc, f"{lab}: the plot does not show the image given")
                    if not done:
                        rep.bad("forward", f"{who}: fails", loc, f"{lab}: no plot is made for valid coordinates")
    masks(rep, e, sinks)
    cls = mk("class", "viqa.utils.loading", "ImageArray")
    fi = method_info(e, cls, "visualize")
    rep.functions.add(fi.label)
    loc = fi_loc(e, fi)
    for kind in ("2d", "3d", "rgb"):
        e.cfg = scenario(kind, "uint8", sinks=[f"{V}.{s}" for s in sinks], load_opaque=False)
        kws = [("export_path", EXP)] + ([("slices", SLI)] if kind == "3d" else [])
        done = False
        for p in call(e, mk("func", fi.mod, fi.qual), [I], kws):
            if p.kind != "ret":
                continue
            done = True
            rep.ob("forward", 1, f"ImageArray.visualize {kind}")
            ks = [(ev, dict(ev.a[1])) for ev in p.events("sink")]
            if len(ks) != 1 or not ks[0][0].a[0].endswith("visualize_3d" if kind == "3d" else "visualize_2d"):
                rep.bad("forward", "ImageArray: plot", loc, f"ImageArray.visualize of a {kind} image is plotted by {[k[0].a[0].split('.')[-1] for k in ks]}")
                continue
            ev, a = ks[0]
            want = {"img": I, "export_path": EXP}
            if kind == "3d":
                want["slices"] = SLI
            for k, v in want.items():
                if a.get(k) is not v:
                    rep.bad("forward", f"ImageArray: {k}", ev.loc, f"ImageArray.visualize passes {k}={short(a[k], 60) if k in a else 'nothing'} instead of {short(v, 60)}")
        if not done:
            rep.bad("forward", "ImageArray: fails", loc, f"ImageArray.visualize of a {kind} image makes no plot")


def masks(rep, e, sinks):
    cls = by_name(e, "SNR")
    fi = method_info(e, cls, "visualize_centers")
    loc = fi_loc(e, fi)
    for kind in ("2d", "3d"):
        e.cfg = scenario(kind, "uint8", sinks=[f"{V}.{s}" for s in sinks], imgs=(R, M, I, MASK))
        lab = f"SNR.visualize_centers {kind} full with a mask"
        rep.ob("forward", 1, lab)
        done = False
        for st, ref in build(e, cls):
            base = len(st.events)
            for p in method(e, st, ref, "visualize_centers", [I], [("region_type", const("full")), ("signal", MASK)]):
                truth = [ev for ev in p.st.events[base:] if ev.kind == "arraytruth"]
                if p.kind != "ret":
                    continue
                for ev in p.events("sink"):
                    done = True
                    if dict(ev.a[1]).get("signal") is not MASK:
                        rep.bad("forward", "SNR: signal", ev.loc, f"{lab}: the plot gets signal={short(dict(ev.a[1]).get('signal', NONE), 60)} instead of the mask given")
        if not done:
            rep.bad("forward", "SNR: mask fails", loc, f"{lab}: no plot is made")
