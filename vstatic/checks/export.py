"""Result and metadata files, printed results."""
from .batch import *

X = "viqa.utils.export"
FP = sym("out_dir", "str")


def seq(t):
    """items of a literal row"""
    if t.op in ("listv", "tuple"):
        return list(t.args)
    return None


def plain(t):
    """a cell: the value behind str()/format without rounding"""
    while True:
        if t.op == "call" and t.args[0] in ("builtins.str", "builtins.float", "builtins.repr") and t.args[1]:
            t = t.args[1][0]
        elif t.op == "fstr" and len(t.args) == 1 and t.args[0].op == "fmt" and t.args[0].args[1] == "":
            t = t.args[0].args[0]
        else:
            return t


def csv_rows(e, p, base):
    """[(file, [row, …])] written on this path; a row is a list of cells or None when it is not literal"""
    files = {}
    order = []
    heads = {}

    def cells(t, w):
        if t.op == "ref":
            t = e.freeze(t, p.st)
        if t.op == "dictv" or (t.op == "ref" and p.st.h(t).kind == "dict"):
            d = {a.args[0]: a.args[1] for a in t.args}
            if w in heads:
                return [d.get(k, const("")) for k in heads[w]]
            return None
        return seq(t)

    for ev in p.st.events[base:]:
        if ev.kind == "open" and is_write(ev.a[2] if len(ev.a) > 2 else None):
            files.setdefault(ev.a[0], (ev.a[1], []))
            order.append(ev.a[0])
        if ev.kind == "ext" and ev.a[0].split(".")[-1] == "DictWriter":
            args = list(ev.a[1]) + [v for k, v in ev.a[2] if k == "fieldnames"]
            w = mk("call", ev.a[0], ev.a[1], ev.a[2])
            if len(args) > 1:
                heads[w] = seq(e.freeze(args[1], p.st)) if args[1].op in ("ref", "listv", "tuple") else None
                if heads[w] is None:
                    heads.pop(w)
        if ev.kind == "mcall" and ev.a[1] in ("writerow", "writerows", "writeheader"):
            w = ev.a[0]
            f = [x for x in subterms(w) if x in files]
            if not f:
                continue
            rows = files[f[0]][1]
            if ev.a[1] == "writeheader":
                rows.append((ev, heads.get(w)))
                continue
            a = ev.a[2][0] if ev.a[2] else NONE
            if a.op == "ref":
                a = e.freeze(a, p.st)
            if ev.a[1] == "writerow":
                rows.append((ev, cells(a, w)))
            else:
                it = seq(a)
                if it is None:
                    rows.append((ev, None))
                else:
                    rows += [(ev, cells(x, w)) for x in it]
    return [files[f] for f in order]


def is_write(mode):
    return mode is not None and is_const(mode) and isinstance(cval(mode), str) and any(c in cval(mode) for c in "wax+")


def opened(p, base):
    return [ev for ev in p.st.events[base:] if ev.kind == "open" and is_write(ev.a[2] if len(ev.a) > 2 else None)]


def texts(p, base):
    """the text written with .write()/.writelines()/print(file=) on this path, as a list of parts (constants and terms)"""
    out = []
    for ev in p.st.events[base:]:
        if ev.kind == "mcall" and ev.a[1] == "write" and ev.a[2]:
            out += parts(ev.a[2][0])
    return merge(out)


def parts(t):
    if t.op == "fstr":
        return [x for a in t.args for x in parts(a)]
    if t.op == "fmt":
        return parts(t.args[0]) if t.args[1] == "" else [t]
    if t.op == "add":
        return parts(t.args[0]) + parts(t.args[1])
    if t.op == "call" and t.args[0] in ("builtins.str",) and t.args[1]:
        return parts(t.args[1][0]) if not is_const(t.args[1][0]) else [const(str(cval(t.args[1][0])))]
    if is_const(t) and not isinstance(cval(t), str):
        return [const(str(cval(t)))]
    return [t]


def merge(ps):
    out = []
    for x in ps:
        if out and is_const(x) and is_const(out[-1]):
            out[-1] = const(cval(out[-1]) + cval(x))
        else:
            out.append(x)
    return out


def rounding(t):
    """printed value -> (value, decimals or None)"""
    if t.op == "fmt":
        sp = t.args[1]
        if isinstance(sp, str):
            d = const(int(sp.strip(".f"))) if sp.startswith(".") and sp.endswith("f") and sp[1:-1].isdigit() else None
        else:
            d = [x for x in parts(sp) if not is_const(x)]
            d = d[0] if len(d) == 1 else None
        v = t.args[0]
        return v, d
    if t.op == "call" and t.args[0] in ("builtins.round", "numpy.round", "numpy.around") and t.args[1]:
        d = t.args[1][1] if len(t.args[1]) > 1 else dict(t.args[2]).get("decimals") or dict(t.args[2]).get("ndigits")
        return t.args[1][0], d
    return t, None


@register("C26", "Result files and printouts hold each value under its own name", VN)
def c26(rep, tier):
    e = engine()
    rep.rule("batch-csv", "every row of a batch result file holds the number, file names and values of one pair, each under its own column heading; every pair has one row")
    rep.rule("multi-csv", "the result file of MultipleMetrics holds each value under the name of its metric")
    rep.rule("metric-csv", "export_results writes one row per scored metric with its name and recorded score and returns the same mapping; unscored metrics are 'n/a' and not written")
    rep.rule("metadata", "the metadata file lists for each metric, in order, its class name, its data range and exactly its own parameters")
    rep.rule("print", "print_values prints each value next to the name of its metric, rounded to the requested decimals")
    rep.rule("gate", "a file name without the required extension raises ValueError before any file is opened; otherwise exactly the file of that name in the given directory is written")
    rep.rule("report", "report writes exactly the parts that were asked for")
    rep.floor("batch-csv", 20)
    rep.floor("metric-csv", 6)
    rep.floor("gate", 10)
    csv_batch(rep, e)
    csv_multi(rep, e)
    csv_metrics(rep, e)
    csv_own(rep, e)
    metadata(rep, e)
    reports(rep, e)


def two(e):
    """a batch object with results for pairs and two metrics"""
    st, ref, mrefs = batch(e, ["GSM", "SNR"], 2, None)
    return st, ref, mrefs


def res_dict(e, s, k, names):
    return e.new_dict(s, {const(n): sym(f"VALUE_{n}_{k}", "num") for n in names})


def csv_batch(rep, e):
    fi = method_info(e, mk("class", MULT, "BatchMetrics"), "export_results")
    loc = fi_loc(e, fi)
    rep.functions.add(fi.label)
    for n in (1, 2, 3):
        for names in (["A"], ["A", "B_r", "B_m"]):
            st, ref, _ = two(e)
            st = set_pairs(e, st, ref, range(n))
            st.hw(ref).attrs["results"] = e.new_dict(st, {const(str(k)): res_dict(e, st, k, names) for k in range(n)})
            base = len(st.events)
            lab = f"{n} pairs, {len(names)} columns"
            for p in method(e, st, ref, "export_results", [], [("file_path", FP), ("file_name", const("x.csv"))]):
                if p.kind != "ret":
                    rep.bad("batch-csv", "raises", loc, f"{lab}: export_results raises {e.exc_name(p.val)}")
                    continue
                want = {}
                for k in range(n):
                    want[k] = {"pair_num": const(str(k)), "reference_image": sym(f"REF{k}", "str"), "modified_image": sym(f"MOD{k}", "str")}
                    want[k].update({x: sym(f"VALUE_{x}_{k}", "num") for x in names})
                check_table(rep, e, "batch-csv", lab, loc, p, base, list(want.values()))


def check_table(rep, e, rule, lab, loc, p, base, want):
    fs = csv_rows(e, p, base)
    rep.ob("gate", 1, lab)
    if len(fs) != 1:
        rep.bad("gate", "files", loc, f"{lab}: {len(fs)} files are written instead of one")
        return
    path, rows = fs[0]
    check_path(rep, lab, loc, path, "x.csv")
    if any(r is None for ev, r in rows):
        ev = [ev for ev, r in rows if r is None][0]
        raise AnalysisBroken(f"{where(ev.loc)}: cannot read the row that is written")
    rep.ob(rule, 1, lab)
    if not rows:
        rep.bad(rule, "nothing written", loc, f"{lab}: no row is written")
        return
    head = [plain(x) for x in rows[0][1]]
    body = rows[1:]
    if {cval(x) for x in head if is_const(x)} != set(want[0]) or len(head) != len(want[0]):
        rep.bad(rule, "header", rows[0][0].loc, f"{lab}: the columns are {[show(x) for x in head]} instead of {sorted(want[0])}")
        return
    if len(body) != len(want):
        rep.bad(rule, "rows", loc, f"{lab}: {len(body)} rows are written for {len(want)} results")
        return
    for k, (ev, r) in enumerate(body):
        rep.ob(rule, len(head), lab)
        got = dict(zip([cval(x) for x in head], map(plain, r)))
        if len(r) != len(head):
            rep.bad(rule, "row length", ev.loc, f"{lab}: a row has {len(r)} cells under {len(head)} columns")
            continue
        for c, v in want[k].items():
            g = got[c]
            if g is not v and not (is_const(g) and is_const(v) and str(cval(g)) == str(cval(v))):
                rep.bad(rule, f"column {c}", ev.loc, f"{lab}: row {k} holds {short(g, 80)} in column {c} instead of {short(v, 80)}")


def check_path(rep, lab, loc, path, name):
    want = mk("call", "os.path.join", (FP, const(name)), ())
    if path is want or (path.op == "div" and path.args[1] is const(name)):
        return
    swapped = path.op == "call" and path.args[0] == "os.path.join" and path.args[1] and FP in set(subterms(path.args[1][-1])) and len(path.args[1]) > 1
    if swapped or FP not in set(subterms(path)) or not any(is_const(x) and isinstance(cval(x), str) and name in cval(x) for x in subterms(path)):
        rep.bad("gate", "path", loc, f"{lab}: the file written is {short(path, 120)}, not {name} in the given directory")


def multi(e):
    st, ref, mrefs = two(e)
    mcls = mk("class", MULT, "MultipleMetrics")
    ml = [v for v in st.h(ref).attrs.values() if v.op == "ref" and st.h(v).kind == "list" and list(st.h(v).items) == mrefs]
    pl = [v for v in st.h(ref).attrs.values() if v.op == "ref" and st.h(v).kind == "list" and len(st.h(v).items) == len(mrefs) and v not in ml]
    if len(ml) != 1 or len(pl) != 1:
        raise AnalysisBroken("metric and parameter lists not stored")
    ps = [q for q in construct(e, mcls, [ml[0], pl[0]], [], st=st) if q.kind == "ret"]
    if not ps:
        raise AnalysisBroken("MultipleMetrics cannot be constructed")
    return ps[0].st, ps[0].val, mrefs


def csv_multi(rep, e):
    cls = mk("class", MULT, "MultipleMetrics")
    fi = method_info(e, cls, "export_results")
    rep.functions.add(fi.label)
    names = ["A", "B_r", "B_m"]
    st, ref, _ = multi(e)
    st = st.fork()
    st.hw(ref).attrs["results"] = res_dict(e, st, 0, names)
    base = len(st.events)
    for p in method(e, st, ref, "export_results", [], [("file_path", FP), ("file_name", const("x.csv"))]):
        if p.kind != "ret":
            rep.bad("multi-csv", "raises", fi_loc(e, fi), f"export_results raises {e.exc_name(p.val)}")
            continue
        check_table(rep, e, "multi-csv", "MultipleMetrics", fi_loc(e, fi), p, base, [{x: sym(f"VALUE_{x}_0", "num") for x in names}])
    # printed values
    fi = method_info(e, cls, "print_values")
    rep.functions.add(fi.label)
    for dec in (None, sym("decimals", "int")):
        for p in method(e, st, ref, "print_values", [], [] if dec is None else [("decimals", dec)]):
            prints = [ev for ev in p.st.events[base:] if ev.kind == "print"]
            ps = merge([x for ev in prints for a in list(ev.a[0]) + [const("\n")] for x in parts(a)])
            for n in names:
                rep.ob("print", 1, f"print_values {n}")
                val = [(i, x) for i, x in enumerate(ps) if rounding(x)[0] is sym(f"VALUE_{n}_0", "num")]
                if len(val) != 1:
                    rep.bad("print", n, fi_loc(e, fi), f"print_values prints the value of {n} {len(val)} times")
                    continue
                i, x = val[0]
                before = cval(ps[i - 1]).split("\n")[-1] if i and is_const(ps[i - 1]) else ""
                if n not in before or any(m != n and m in before for m in names if m not in n):
                    rep.bad("print", n, prints[0].loc, f"print_values prints the value of {n} after {before!r}")
                if dec is not None and rounding(x)[1] is not dec:
                    rep.bad("print", "decimals", prints[0].loc, "print_values ignores the requested number of decimals")


def csv_metrics(rep, e):
    fi = e.p.func(X, "export_results")
    f = func(e, X, "export_results")
    loc = fi_loc(e, fi)
    rep.functions.add(fi.label)
    for scored in ((True, True), (True, False), (False, True), (False, False)):
        for fname in ("x.csv", "x"):
            e.cfg = scenario("2d", "uint8")
            st = None
            refs = []
            for nm in ("GSM", "SNR"):
                if st is None:
                    st, r = build(e, by_name(e, nm))[0]
                else:
                    q = [q for q in construct(e, by_name(e, nm), [], [("data_range", DR)], st=st) if q.kind == "ret"][0]
                    st, r = q.st, q.val
                refs.append(r)
            st = st.fork()
            for i, r in enumerate(refs):
                if scored[i]:
                    st.hw(r).attrs["score_val"] = sym(f"SCORE{i}", "num")
            ml = e.new_list(st, refs, owner="caller")
            base = len(st.events)
            lab = f"export_results, scored: {scored}"
            for p in call(e, f, [ml, FP, const(fname)], [("return_dict", TRUE)], st=st):
                if p.kind != "ret":
                    rep.bad("metric-csv", "raises", loc, f"{lab}: raises {e.exc_name(p.val)}")
                    continue
                fs = csv_rows(e, p, base)
                rep.ob("metric-csv", 1, lab)
                if len(fs) != 1:
                    rep.bad("metric-csv", "files", loc, f"{lab}: {len(fs)} files written")
                    continue
                path, rows = fs[0]
                check_path(rep, lab, loc, path, "x.csv")
                if any(r is None for ev, r in rows):
                    raise AnalysisBroken("export_results: cannot read the row that is written")
                names = [res_name(e, p.st, r, 0) for r in refs]
                got = [[plain(c) for c in r] for ev, r in rows[1:]]
                want = [[const(names[i]), sym(f"SCORE{i}", "num")] for i in range(2) if scored[i]]
                rest = [[const(names[i]), const("n/a")] for i in range(2) if not scored[i]]
                if [g for g in got if g not in rest] != want:
                    rep.bad("metric-csv", "rows", rows[-1][0].loc if rows else loc, f"{lab}: the rows written are {[[show(c) for c in r] for r in got]}")
                d = e.freeze(p.val, p.st)
                dd = {a.args[0]: a.args[1] for a in d.args} if d.op == "dictv" else None
                wd = {const(names[i]): sym(f"SCORE{i}", "num") if scored[i] else const("n/a") for i in range(2)}
                if dd is None or {k: plain(v) for k, v in dd.items()} != wd:
                    rep.bad("metric-csv", "returned", loc, f"{lab}: the returned mapping is {short(d, 150)}")


def csv_own(rep, e):
    """Metric.export_results writes the file of exactly that metric"""
    f = mk("func", X, "export_results")
    for cls in fr_metrics(e) + nr_metrics(e):
        name = cls.args[1]
        fi = method_info(e, cls, "export_results")
        loc = fi_loc(e, fi)
        rep.functions.add(fi.label)
        for shape in ("pos", "kw"):
            e.cfg = scenario("2d", "uint8")
            st, ref = build(e, cls)[0]
            st = st.fork()
            st.hw(ref).attrs["score_val"] = sym("SCORE0", "num")
            base = len(st.events)
            ps = [p.arg for p in fi.node.args.args][1:]
            if len(ps) != 2:
                rep.ob("undecided", 1, f"{name}.export_results parameters")
                continue
            a = [FP, const("x.csv")]
            lab = f"{name}.export_results"
            for p in method(e, st, ref, "export_results", a if shape == "pos" else [], [] if shape == "pos" else list(zip(ps, a))):
                rep.ob("metric-csv", 1, lab)
                if p.kind != "ret":
                    rep.bad("metric-csv", f"{name}: raises", loc, f"{lab}: raises {e.exc_name(p.val)}")
                    continue
                fs = csv_rows(e, p, base)
                if len(fs) != 1:
                    rep.bad("metric-csv", f"{name}: files", loc, f"{lab}: {len(fs)} files written instead of one")
                    continue
                path, rows = fs[0]
                check_path(rep, lab, loc, path, "x.csv")
                if any(r is None for ev, r in rows):
                    raise AnalysisBroken("export_results: cannot read the row that is written")
                want = [[const(res_name(e, p.st, ref, 0)), sym("SCORE0", "num")]]
                if [[plain(c) for c in r] for ev, r in rows[1:]] != want:
                    rep.bad("metric-csv", f"{name}: rows", loc, f"{lab}: the rows written are {[[show(plain(c)) for c in r] for ev, r in rows[1:]]}")


def metadata(rep, e):
    fi = e.p.func(X, "export_metadata")
    loc = fi_loc(e, fi)
    rep.functions.add(fi.label)
    for who, scored in (("BatchMetrics", False), ("BatchMetrics", True), ("MultipleMetrics", False), ("MultipleMetrics", True)):
        order = ["GSM", "SNR"]
        st, ref, mrefs = (two if who == "BatchMetrics" else multi)(e)
        st = st.fork()
        for i, r in enumerate(mrefs):
            pr = st.h(r).attrs.get("parameters")
            if pr is None or pr.op != "ref":
                raise AnalysisBroken("metric without parameters")
            st.hw(pr).items[const("data_range")] = sym(f"RANGE{i}", "num")
            if scored:
                st.hw(r).attrs["score_val"] = sym(f"SCORE{i}", "num")
        base = len(st.events)
        for p in method(e, st, ref, "export_metadata", [], [("file_path", FP), ("file_name", const("m.txt"))]):
            if p.kind != "ret":
                rep.bad("metadata", "raises", loc, f"{who}: export_metadata raises {e.exc_name(p.val)}")
                continue
            op = opened(p, base)
            rep.ob("gate", 1, f"{who} metadata")
            if len(op) != 1:
                rep.bad("gate", "metadata files", loc, f"{who}: {len(op)} metadata files are written")
            for ev in op:
                check_path(rep, f"{who} metadata", loc, ev.a[1], "m.txt")
            ps = texts(p, base)
            flat = "".join(cval(x) if is_const(x) else "\x00" + show(x) + "\x00" for x in ps)
            pos = []
            for i, nm in enumerate(order):
                rep.ob("metadata", 3, f"{who} {nm}")
                a = flat.find(f"\n{nm}\n")
                pos.append(a)
                if a < 0:
                    rep.bad("metadata", f"{nm} missing", loc, f"{who}: the metadata file has no entry for {nm}")
            if min(pos) < 0:
                continue
            if pos != sorted(pos):
                rep.bad("metadata", "order", loc, f"{who}: the metadata entries are not in the order of the metrics")
                continue
            for i, nm in enumerate(order):
                sec = flat[pos[i]:(pos[i + 1] if i + 1 < len(pos) else None)]
                for what, v in (("data_range", f"RANGE{i}"), (f"opt{i}", f"PARAM{i}")):
                    if f"{what}: \x00{v}\x00" not in sec:
                        rep.bad("metadata", f"{nm} {what}", loc, f"{who}: the metadata entry of {nm} does not record its {what}")
                for j in range(len(order)):
                    if j != i and (f"RANGE{j}" in sec or f"PARAM{j}" in sec):
                        rep.bad("metadata", f"{nm} foreign", loc, f"{who}: the metadata entry of {nm} records settings of {order[j]}")


def reports(rep, e):
    # extension gating
    for who, meth, bad_names, good in (("BatchMetrics", "export_results", ("x.txt", "x", "x.csv.bak"), "x.csv"), ("MultipleMetrics", "export_results", ("x.txt", "x", "x.csv.bak"), "x.csv"),
                                       ("BatchMetrics", "export_metadata", ("m.csv", "m"), "m.txt"), ("MultipleMetrics", "export_metadata", ("m.csv", "m"), "m.txt")):
        st, ref, _ = (two if who == "BatchMetrics" else multi)(e)
        st = set_pairs(e, st, ref, range(1)) if who == "BatchMetrics" else st.fork()
        rd = res_dict(e, st, 0, ["A"])
        st.hw(ref).attrs["results"] = e.new_dict(st, {const("0"): rd}) if who == "BatchMetrics" else rd
        fi = method_info(e, mk("class", MULT, who), meth)
        base = len(st.events)
        for b in bad_names:
            for p in method(e, st, ref, meth, [], [("file_path", FP), ("file_name", const(b))]):
                rep.ob("gate", 1, f"{who}.{meth} {b}")
                if p.kind != "exc" or e.exc_name(p.val) != "ValueError":
                    rep.bad("gate", f"{meth} accepts", fi_loc(e, fi), f"{who}.{meth} accepts the file name {b!r}")
                for ev in opened(p, base):
                    rep.bad("gate", f"{meth} opens", ev.loc, f"{who}.{meth} opens a file for the name {b!r} it rejects")
    # report(): which parts are produced
    EI = X + ".export_image"
    for who in ("BatchMetrics", "MultipleMetrics"):
        cls = mk("class", MULT, who)
        fi = method_info(e, cls, "report")
        rep.functions.add(fi.label)
        loc = fi_loc(e, fi)
        for csv_ in (True, False):
            for meta in (True, False):
                for img in (True, False):
                    for proj in (NONE, const("P")):
                        for text in ((True, False) if who == "MultipleMetrics" else (None,)):
                            rois = who == "BatchMetrics" and img
                            if who == "BatchMetrics":
                                st, ref, _ = batch(e, ["GSM", "SNR"], 2, [roi_of(k) for k in range(2)] if rois else None)
                                st = set_pairs(e, st, ref, range(2))
                                st.hw(ref).attrs["results"] = e.new_dict(st, {const(str(k)): res_dict(e, st, k, ["A"]) for k in range(2)})
                                st.hw(ref).attrs["global_roi"] = NONE
                            else:
                                st, ref, _ = multi(e)
                                st = st.fork()
                                st.hw(ref).attrs["results"] = res_dict(e, st, 0, ["A"])
                            e.cfg = scenario("3d", None, sinks={EI, "viqa.utils.export.export_image"}, opaque={CROP}, maxpaths=20000)
                            base = len(st.events)
                            kws = [("csv", const(csv_)), ("metadata", const(meta)), ("image", const(img)), ("file_path", FP), ("project_name", proj)]
                            if text is not None:
                                kws += [("text", const(text)), ("img_r", R), ("img_m", M), ("export_image", TRUE)]
                            ZZ = sym("plane", "int")
                            if img:
                                kws += [("z", ZZ)]
                            lab = f"{who}.report(csv={csv_}, metadata={meta}, image={img}" + (f", text={text})" if text is not None else ")")
                            for p in method(e, st, ref, "report", [], kws):
                                rep.ob("report", 1, lab)
                                if p.kind == "exc":
                                    rep.bad("report", "raises", loc, f"{lab}: raises {e.exc_name(p.val)}")
                                    continue
                                pre = "" if proj is NONE else "P_"
                                want = ([f"{pre}results.csv"] if csv_ else []) + ([f"{pre}metadata.txt"] if meta else [])
                                got = []
                                for ev in opened(p, base):
                                    a = [cval(x) for x in subterms(ev.a[1]) if is_const(x) and isinstance(cval(x), str)]
                                    got.append("".join(a))
                                    if FP not in set(subterms(ev.a[1])):
                                        rep.bad("report", "directory", ev.loc, f"{lab}: a file is written outside the given directory")
                                if sorted(got) != sorted(want):
                                    rep.bad("report", "files", loc, f"{lab}: writes {sorted(got)} instead of {sorted(want)}")
                                sinks = [dict(ev.a[1]) for ev in p.st.events[base:] if ev.kind == "sink" and ev.a[0].endswith("export_image")]
                                n = (2 if who == "BatchMetrics" else 1) if img else 0
                                if len(sinks) != n:
                                    rep.bad("report", "images", loc, f"{lab}: {len(sinks)} image comparisons instead of {n}")
                                    continue
                                for k, d in enumerate(sinks):
                                    vals = {a: v for a, v in d.items()}
                                    kwd = vals.get("kwargs")
                                    roi = None
                                    if isinstance(kwd, T) and kwd.op == "dictv":
                                        roi = {cval(a.args[0]): a.args[1] for a in kwd.args}.get("roi")
                                    if who == "BatchMetrics":
                                        w = {"img_r": mk("call", "os.path.join", (DIR, sym(f"REF{k}", "str")), ()), "img_m": mk("call", "os.path.join", (DIR, sym(f"MOD{k}", "str")), ())}
                                        if roi is not roi_of(k):
                                            rep.bad("report", "image roi", loc, f"{lab}: pair {k} is shown with the region of interest {short(roi) if roi else None}")
                                    else:
                                        w = {"img_r": R, "img_m": M}
                                    for a, v in w.items():
                                        if vals.get(a) is not v:
                                            rep.bad("report", f"image {a}", loc, f"{lab}: pair {k} is shown with {short(vals.get(a, NONE), 80)} as {a}")
                                    rv = vals.get("results", NONE)
                                    if sym(f"VALUE_A_{k}", "num") not in set(subterms(e.freeze(rv, p.st))):
                                        rep.bad("report", "image results", loc, f"{lab}: pair {k} is shown with results of another pair")
                                    for a in "xyz":
                                        if vals.get(a, NONE) is not (ZZ if a == "z" else NONE):
                                            rep.bad("report", "image plane", loc, f"{lab}: the plane shown is not the requested one")
                                    nm = vals.get("file_name", NONE)
                                    if not is_const(nm) or not str(cval(nm)).endswith(".png") or (who == "BatchMetrics" and str(k) not in str(cval(nm))):
                                        rep.bad("report", "image name", loc, f"{lab}: the comparison image of pair {k} is called {short(nm)}")
                                if text is not None:
                                    pr = [ev for ev in p.st.events[base:] if ev.kind == "print"]
                                    if bool(pr) is not text:
                                        rep.bad("report", "text", loc, f"{lab}: {'prints' if pr else 'does not print'} the values")
