"""Abstract interpretation of the C extension over clang's syntax tree.

Integers are linear/polynomial forms over symbols, decided with Fourier-Motzkin elimination; arrays, memory blocks and
references are abstract objects with an ownership and null state; loops are summarised (induction variable plus
accumulated sums).  Nothing is compiled or executed."""
import json
import os
import subprocess
from fractions import Fraction

from .project import AnalysisBroken, REPO
from .terms import T, const, cval, is_const, mk, show, subst, sym

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cstubs")
NULL = mk("cnull")
SIZES = {"double": 8, "float": 4, "int": 4, "long": 8, "char": 1, "npy_intp": 8, "Py_ssize_t": 8, "npy_double": 8, "npy_float64": 8, "unsigned char": 1,
         "short": 2, "size_t": 8, "unsigned int": 4, "unsigned long": 8, "const double": 8}


def parse(path):
    d = os.path.dirname(path)
    r = subprocess.run(["clang", "-fsyntax-only", "-w", "-std=gnu11", "-Wno-error=implicit-function-declaration", "-ferror-limit=0", f"-I{STUBS}", f"-I{d}",
                        "-Xclang", "-ast-dump=json", path], capture_output=True, text=True)
    if not r.stdout:
        raise AnalysisBroken(f"clang produced no syntax tree for {path}: {r.stderr[:300]}")
    tree = json.loads(r.stdout)
    _lines(tree)
    return tree, r.stderr


def _lines(tree):
    last = [0]

    def loc(d):
        """expansion line of a location, keeping clang's running line up to date"""
        ln = None
        for k in ("spellingLoc", "expansionLoc"):
            if k in d:
                ln = loc(d[k])
        if "offset" in d:
            last[0] = d.get("line", last[0])
            ln = last[0]
        return ln

    def go(n):
        if not isinstance(n, dict):
            return
        if isinstance(n.get("loc"), dict):
            a = loc(n["loc"])
            if a:
                n["_line"] = a
        r = n.get("range")
        if isinstance(r, dict):
            b = loc(r.get("begin", {}))
            loc(r.get("end", {}))
            if b and "_line" not in n:
                n["_line"] = b
        for x in n.get("inner", []):
            go(x)
    go(tree)


# ------------------------------------------------------------------------------------------------ polynomials
def poly(t):
    """term -> {monomial (sorted tuple of atoms): coefficient} or None"""
    if is_const(t):
        v = cval(t)
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return None
        return {(): Fraction(v)} if v else {}
    if t.op in ("add", "sub"):
        a, b = poly(t.args[0]), poly(t.args[1])
        if a is None or b is None:
            return None
        return padd(a, b, 1 if t.op == "add" else -1)
    if t.op == "neg":
        a = poly(t.args[0])
        return None if a is None else padd({}, a, -1)
    if t.op == "mul":
        a, b = poly(t.args[0]), poly(t.args[1])
        if a is None or b is None:
            return None
        return pmul(a, b)
    return {(t,): Fraction(1)}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=show))
            r[k] = r.get(k, 0) + c * d
            if r[k] == 0:
                del r[k]
    return r


def unsat(cs, budget=4000):
    """are the linear constraints (form >= 0 over monomials, integer valued) contradictory? Fourier-Motzkin"""
    work = []
    seen = set()

    def put(lst, f):
        if not any(m != () for m in f):
            return f.get((), 0) < 0
        d = abs(next(iter(sorted(((show(mk("k", *m)), c) for m, c in f.items() if m != ()))))[1])
        f = {m: c / d for m, c in f.items()}
        k = frozenset(f.items())
        if k not in seen:
            seen.add(k)
            lst.append(f)
        return False
    for f in cs:
        if put(work, f):
            return True
    while True:
        vs = {}
        for f in work:
            for m, c in f.items():
                if m != ():
                    p, n = vs.get(m, (0, 0))
                    vs[m] = (p + (c > 0), n + (c < 0))
        if not vs:
            return False
        v = min(vs, key=lambda m: vs[m][0] * vs[m][1] - vs[m][0] - vs[m][1])
        pos = [f for f in work if f.get(v, 0) > 0]
        neg = [f for f in work if f.get(v, 0) < 0]
        rest = [f for f in work if v not in f]
        for a in pos:
            for b in neg:
                budget -= 1
                if budget < 0:
                    return False
                g = padd({m: c * -b[v] for m, c in a.items()}, {m: c * a[v] for m, c in b.items()})
                g.pop(v, None)
                if put(rest, g):
                    return True
        work = rest


def prove_from(facts, f):
    """is f >= 0 for all integers satisfying the facts?"""
    if not any(m != () for m in f):
        return f.get((), 0) >= 0
    return unsat(list(facts) + [padd({(): Fraction(-1)}, f, -1)])


class Unsupported(AnalysisBroken):
    pass


class St:
    def __init__(self):
        self.vars, self.mem, self.own, self.null, self.facts, self.err, self.guards = {}, {}, {}, {}, [], False, ()
        self.arr = {}
        self.freed = {}

    def fork(self):
        s = St()
        s.vars, s.own, s.null = dict(self.vars), dict(self.own), dict(self.null)
        s.mem = {k: list(v) for k, v in self.mem.items()}
        s.facts, s.err, s.guards = list(self.facts), self.err, self.guards
        s.arr = {k: dict(v) for k, v in self.arr.items()}
        s.freed = dict(self.freed)
        return s


class Loop:
    def __init__(self, var, init, step, cond):
        self.var, self.init, self.step, self.cond = var, init, step, cond    # cond: linear form >= 0 in var


class CInterp:
    def __init__(self, path):
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        self.tree, self.diag = parse(path)
        self.funcs, self.table, self.enums = {}, [], {}
        for x in self.tree.get("inner", []):
            if x["kind"] == "FunctionDecl" and any(y["kind"] == "CompoundStmt" for y in x.get("inner", [])):
                self.funcs[x["name"]] = x
            if x["kind"] == "EnumDecl":
                v = -1
                for y in x.get("inner", []):
                    if y["kind"] == "EnumConstantDecl":
                        v = self._const(y) if y.get("inner") else v + 1
                        self.enums[y["id"]] = v
            if x["kind"] == "VarDecl" and "PyMethodDef" in x.get("type", {}).get("qualType", ""):
                self._table(x)
        self.n = 0
        self.events = []       # (kind, function, line, details)
        self.frames = []
        self.loops = []
        self.accesses = 0
        self.modified_cache = {}

    def _const(self, y):
        def f(n):
            if n["kind"] == "IntegerLiteral":
                return int(n["value"])
            if "value" in n and n["kind"] == "ConstantExpr":
                return int(n["value"])
            for c in n.get("inner", []):
                r = f(c)
                if r is not None:
                    return r
        return f(y)

    def _table(self, x):
        def refs(n, acc):
            if n["kind"] == "StringLiteral":
                acc.append(("s", n["value"]))
            if n["kind"] == "DeclRefExpr" and n["referencedDecl"]["kind"] == "FunctionDecl":
                acc.append(("f", n["referencedDecl"]["name"]))
            for c in n.get("inner", []):
                refs(c, acc)
            return acc
        for lst in x.get("inner", []):
            for row in lst.get("inner", []):
                a = refs(row, [])
                f = [v for k, v in a if k == "f"]
                s = [v for k, v in a if k == "s"]
                if f and s:
                    self.table.append((s[0].strip('"'), f[0]))

    # ------------------------------------------------------------------------------------------- bookkeeping
    def fresh(self, name):
        self.n += 1
        return sym(f"{name}#{self.n}", "int")

    def ev(self, kind, node, st, **d):
        fn = self.frames[-1] if self.frames else "?"
        self.events.append((kind, fn, node.get("_line", 0), d, st, tuple(self.loops)))

    def prove(self, st, f):
        """is form f >= 0 under the facts?"""
        if not any(m != () for m in f):
            return f.get((), 0) >= 0
        g = padd({(): Fraction(-1)}, f, -1)         # -f - 1 >= 0
        return unsat(st.facts + [g])

    def ge0(self, st, t):
        f = poly(t)
        return f is not None and self.prove(st, f)

    def consistent(self, st):
        return not unsat(st.facts)

    # ------------------------------------------------------------------------------------------- functions
    def call_fn(self, name, args, st, node):
        """-> [(state, value)]"""
        fd = self.funcs[name]
        if len(self.frames) > 12 or name in self.frames:
            raise Unsupported(f"{self.rel}: recursive call of {name}")
        ps = [x for x in fd["inner"] if x["kind"] == "ParmVarDecl"]
        body = [x for x in fd["inner"] if x["kind"] == "CompoundStmt"][0]
        st = st.fork()
        for p, a in zip(ps, args):
            st.vars[p["id"]] = a
        self.frames.append(name)
        rets = []
        outs = self.exec_list(body.get("inner", []), st, rets)
        for s in outs:
            rets.append((s, None))
        self.frames.pop()
        return rets

    def run_entry(self, name, facts=(), setup=None):
        """all exits of a Python-callable function: [(state, returned value, line)]"""
        self.exits = []
        st = St()
        st.facts = list(facts)
        fd = self.funcs[name]
        ps = [x for x in fd["inner"] if x["kind"] == "ParmVarDecl"]
        body = [x for x in fd["inner"] if x["kind"] == "CompoundStmt"][0]
        for p in ps:
            o = mk("cobj", f"{p.get('name', 'arg')}")
            st.vars[p["id"]] = o
            st.null[o] = False
        self.frames = [name]
        rets = []
        for s in self.exec_list(body.get("inner", []), st, rets):
            rets.append((s, None))
        return rets

    # ------------------------------------------------------------------------------------------- statements
    def exec_list(self, stmts, st, rets):
        states = [st]
        for k, s in enumerate(stmts):
            nxt = []
            for z in states:
                nxt += self.exec(s, z, rets)
            states = []
            for z in nxt:
                g = getattr(z, "goto", None)
                if g is None:
                    states.append(z)
                    continue
                for j in range(k + 1, len(stmts)):
                    if stmts[j]["kind"] == "LabelStmt" and stmts[j].get("declId") == g:
                        z.goto = None
                        r = self.exec_list(stmts[j].get("inner", []) + stmts[j + 1:], z, rets)
                        self._jumped = getattr(self, "_jumped", []) + r
                        break
                else:
                    states.append(z)
            pend = [z for z in states if getattr(z, "goto", None) is not None or getattr(z, "brk", None)]
            if pend:
                self._pend = getattr(self, "_pend", [])
            live = [z for z in states if z not in pend]
            self_p = getattr(self, "_carry", [])
            self._carry = self_p + pend
            states = live
            if not states:
                break
        out = states + getattr(self, "_carry", [])
        self._carry = []
        j = getattr(self, "_jumped", [])
        self._jumped = []
        return out + j

    def exec(self, s, st, rets):
        k = s["kind"]
        f = getattr(self, "s_" + k, None)
        if f is not None:
            return f(s, st, rets)
        if k in ("NullStmt",):
            return [st]
        return [z for z, _ in self.eval(s, st)]

    def s_CompoundStmt(self, s, st, rets):
        return self.exec_list(s.get("inner", []), st, rets)

    def s_LabelStmt(self, s, st, rets):
        return self.exec_list(s.get("inner", []), st, rets)

    def s_GotoStmt(self, s, st, rets):
        st.goto = s.get("targetLabelDeclId")
        return [st]

    def s_BreakStmt(self, s, st, rets):
        st.brk = "break"
        return [st]

    def s_ContinueStmt(self, s, st, rets):
        st.brk = "continue"
        return [st]

    def s_DeclStmt(self, s, st, rets):
        states = [st]
        for v in s.get("inner", []):
            if v["kind"] != "VarDecl":
                continue
            nxt = []
            for z in states:
                init = [x for x in v.get("inner", []) if x["kind"] not in ("FullComment",) and not x["kind"].endswith("Attr")]
                q = v["type"]["qualType"]
                if "[" in q:
                    n = int(q[q.index("[") + 1:q.index("]")]) if q[q.index("[") + 1:q.index("]")].isdigit() else None
                    base = mk("cvar", v["id"])
                    z = z.fork()
                    z.vars[v["id"]] = mk("carr", v["id"], n)
                    if init and init[0]["kind"] == "InitListExpr":
                        for i, x in enumerate(init[0].get("inner", [])):
                            for z2, val in self.eval(x, z)[:1]:
                                z = z2
                                z.mem.setdefault(base, []).append(((), const(i), val))
                    nxt.append(z)
                elif init:
                    for z2, val in self.eval(init[0], z):
                        z2 = z2.fork()
                        z2.vars[v["id"]] = val
                        nxt.append(z2)
                else:
                    z = z.fork()
                    z.vars[v["id"]] = mk("cuninit", v["id"])
                    nxt.append(z)
            states = nxt
        return states

    def s_IfStmt(self, s, st, rets):
        inner = s["inner"]
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        out = []
        tests = self.test(cond, st)
        soft = len(tests) == 2 and all(t[2] for t in tests) and tests[0][1] != tests[1][1]
        res = []
        for z, b, _ in tests:
            br = then if b else els
            nret = len(rets)
            r = self.exec(br, z, rets) if br is not None else [z]
            res.append((b, r, len(rets) - nret))
        if soft:
            a = [x for b, x, _ in res if b][0]
            c = [x for b, x, _ in res if not b][0]
            if len(a) == 1 and len(c) == 1:
                m = self.merge(st, a[0], c[0], tests[0][2])
                if m is not None:
                    return [m]
        for _, r, _ in res:
            out += r
        return out

    def merge(self, pre, a, b, cond):
        if any(getattr(x, "goto", None) or getattr(x, "brk", None) for x in (a, b)):
            return None
        if a.own != b.own or a.null != b.null or a.err != b.err or a.freed != b.freed or a.arr != b.arr:
            return None
        m = a.fork()
        for k in set(a.vars) | set(b.vars):
            x, y = a.vars.get(k), b.vars.get(k)
            if x is y:
                continue
            if x is None or y is None:
                m.vars.pop(k, None)
                continue
            if any(isinstance(v, T) and v.op in ("cptr", "cobj", "cnull", "carr") for v in (x, y)):
                return None
            m.vars[k] = mk("ite", cond, x, y)
        for k in set(a.mem) | set(b.mem):
            if a.mem.get(k) != b.mem.get(k):
                # keep what both agree on; later loads of the rest are unknown
                pa = pre.mem.get(k, [])
                m.mem[k] = list(pa) + [((), None, mk("cunknown"))]
        m.facts = [f for f in a.facts if f in b.facts]
        m.guards = pre.guards
        return m

    def s_ForStmt(self, s, st, rets):
        init, _, cond, inc, body = (s["inner"] + [{}] * 5)[:5]
        states = self.exec(init, st, rets) if init.get("kind") else [st]
        out = []
        for z in states:
            out += self.loop(s, z, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body, rets)
        return out

    def s_WhileStmt(self, s, st, rets):
        inner = s["inner"]
        return self.loop(s, st, inner[0], None, inner[-1], rets)

    def s_DoStmt(self, s, st, rets):
        body, cond = s["inner"][0], s["inner"][1]
        if cond["kind"] in ("IntegerLiteral",) and cond["value"] == "0" or self._zero(cond):
            return self.exec(body, st, rets)
        return self.loop(s, st, None, None, body, rets)

    def _zero(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr") and n.get("inner"):
            n = n["inner"][0]
        return n["kind"] == "IntegerLiteral" and n["value"] == "0"

    def modified(self, n):
        """declaration ids assigned in a subtree"""
        k = n.get("id")
        if k in self.modified_cache:
            return self.modified_cache[k]
        out = set()

        def target(x):
            while x["kind"] in ("ParenExpr", "ImplicitCastExpr"):
                x = x["inner"][0]
            if x["kind"] == "DeclRefExpr":
                out.add(x["referencedDecl"]["id"])

        def go(x):
            kk = x.get("kind")
            if kk in ("CompoundAssignOperator",) or kk == "BinaryOperator" and x.get("opcode") == "=":
                target(x["inner"][0])
            if kk == "UnaryOperator" and x.get("opcode") in ("++", "--", "&"):
                target(x["inner"][0])
            for c in x.get("inner", []):
                go(c)
        go(n)
        self.modified_cache[k] = out
        return out

    def loop(self, s, st, cond, inc, body, rets):
        mod = set(self.modified(body))
        if inc is not None:
            mod |= self.modified(inc)
        if cond is not None:
            mod |= self.modified(cond)
        mod = {d for d in mod if d in st.vars}
        jumps = self._has_jump(body)
        # one symbolic iteration from a state in which every modified scalar is arbitrary
        it = st.fork()
        syms = {}
        for d in mod:
            v = st.vars[d]
            if isinstance(v, T) and v.op in ("carr",):
                continue
            x = self.fresh("it")
            syms[d] = x
            it.vars[d] = x
        # monotone variables: those changed only by adding a provably positive amount
        ind = {}
        probe = [inc] if inc is not None else []
        for d, x in syms.items():
            step = self.step_of(d, inc, body, it, st)
            if step is not None:
                ind[d] = step
                f = poly(x)
                g = poly(st.vars[d]) if isinstance(st.vars[d], T) else None
                if g is not None and all(a.op != "cuninit" for m in g for a in m):
                    up = self.ge0(it, step)
                    it.facts.append(padd(f, g, -1) if up else padd(g, f, -1))
        condf = []
        bodies = []
        if cond is not None:
            for z, b, _ in self.test(cond, it):
                if b:
                    bodies.append(z)
            if not bodies:
                bodies = []
        else:
            bodies = [it]
        # loop descriptor
        desc = None
        for d, step in ind.items():
            if cond is not None and bodies:
                new = [f for f in bodies[0].facts[len(it.facts):] if any(syms[d] in m for m in f)]
                if new:
                    desc = Loop(syms[d], st.vars[d], step, new)
                    break
        if desc is None:
            desc = Loop(None, None, None, [])
        self.loops.append(desc)
        finals = []
        for z in bodies:
            for y in self.exec(body, z, rets):
                if getattr(y, "goto", None):
                    finals.append((y, True))
                    continue
                brk = getattr(y, "brk", None)
                y.brk = None
                if brk == "break":
                    finals.append((y, False))
                    continue
                if inc is not None:
                    for w, _ in self.eval(inc, y):
                        finals.append((w, False))
                else:
                    finals.append((y, False))
        self.loops.pop()
        # state after the loop
        post = st.fork()
        gotos = [y for y, g in finals if g]
        ends = [y for y, g in finals if not g]
        base_own = (st.own, st.null, st.freed)
        for d, x in syms.items():
            vals = {y.vars.get(d) for y in ends}
            res = None
            if len(vals) == 1 and not jumps and desc.var is not None:
                v = next(iter(vals))
                if v is not None:
                    res = self.accumulate(st.vars[d], x, v, desc, set(syms.values()))
            if d in ind and desc.var is x:
                res = None
            if res is None:
                res = self.fresh("after")
                if d in ind and isinstance(st.vars[d], T):
                    g = poly(st.vars[d])
                    if g is not None and all(a.op != "cuninit" for m in g for a in m):
                        up = self.ge0(st, ind[d])
                        f = poly(res)
                        post.facts.append(padd(f, g, -1) if up else padd(g, f, -1))
            post.vars[d] = res
        # memory written in the loop: summaries over the induction variable
        for y in ends:
            for base, lst in y.mem.items():
                old = st.mem.get(base, [])
                for (lps, off, val) in lst[len(old):]:
                    ent = ((desc,) + tuple(lps), off, val)
                    p = post.mem.setdefault(base, [])
                    if ent not in p:
                        p.append(ent)
        # effects on objects inside the loop body that are not undone there
        for y in ends:
            if y.own != st.own or y.freed != st.freed:
                post.own.update(y.own)
                post.freed.update(y.freed)
                for k, v in y.null.items():
                    post.null.setdefault(k, v)
            post.err = post.err or y.err
            for k, v in y.arr.items():
                post.arr.setdefault(k, v)
        return [post] + gotos

    def _has_jump(self, n):
        if n.get("kind") in ("BreakStmt", "ContinueStmt", "GotoStmt", "ReturnStmt"):
            return True
        return any(self._has_jump(c) for c in n.get("inner", []))

    def step_of(self, d, inc, body, it, st):
        """the amount added to variable d per iteration when it is updated exactly once, at the top level"""
        ups = []

        def go(x, top):
            k = x.get("kind")
            if k == "UnaryOperator" and x.get("opcode") in ("++", "--") and self._ref(x["inner"][0]) == d:
                ups.append((const(1 if x["opcode"] == "++" else -1), top))
            elif k == "CompoundAssignOperator" and self._ref(x["inner"][0]) == d:
                if x["opcode"] in ("+=", "-="):
                    rs = self.eval(x["inner"][1], it.fork())
                    v = rs[0][1]
                    ups.append((v if x["opcode"] == "+=" else mk("neg", v), top))
                else:
                    ups.append((None, top))
            elif k == "BinaryOperator" and x.get("opcode") == "=" and self._ref(x["inner"][0]) == d:
                rs = self.eval(x["inner"][1], it.fork())
                f, g = poly(rs[0][1]) if isinstance(rs[0][1], T) else None, poly(it.vars[d])
                diff = padd(f, g, -1) if f is not None else None
                if diff is not None and not any(it.vars[d] in m for m in diff):
                    ups.append((unpoly(diff), top))
                else:
                    ups.append((None, top))
            if k in ("IfStmt", "ForStmt", "WhileStmt", "DoStmt", "ConditionalOperator"):
                top = False
            for c in x.get("inner", []):
                go(c, top)
        keep, cnt = len(self.events), self.accesses
        if inc is not None:
            go(inc, True)
        go(body, True)
        del self.events[keep:]
        self.accesses = cnt
        if len(ups) != 1 or not ups[0][1] or ups[0][0] is None:
            return None
        s = ups[0][0]
        if not isinstance(s, T):
            return None
        f = poly(s)
        if f is None:
            return None
        if self.prove(it, padd({(): Fraction(-1)}, f)) or self.prove(it, padd({(): Fraction(-1)}, f, -1)):
            return s
        return None

    def _ref(self, x):
        while x["kind"] in ("ParenExpr", "ImplicitCastExpr"):
            x = x["inner"][0]
        return x["referencedDecl"]["id"] if x["kind"] == "DeclRefExpr" else None

    def accumulate(self, v0, x, v, desc, syms):
        """value after the loop when the body turns x into v"""
        if v is x:
            return v0
        f = None
        if v.op == "add" and v.args[0] is x:
            f = v.args[1]
        elif v.op == "add" and v.args[1] is x:
            f = v.args[0]
        if f is None:
            return None
        used = set(atoms(f))
        if x in used or (used & syms) - {desc.var}:
            return None
        s = mk("csum", desc.var, desc.init, desc.step, tuple(tuple(sorted(((show(mk("k", *m)), m, c) for m, c in g.items()), key=lambda q: q[0])) for g in desc.cond), f)
        if is_const(v0) and cval(v0) == 0:
            return s
        return mk("add", v0, s)

    def s_ReturnStmt(self, s, st, rets):
        if not s.get("inner"):
            st.retline = s.get("_line", 0)
            rets.append((st, None))
            return []
        for z, v in self.eval(s["inner"][0], st):
            z = z.fork()
            z.retline = s.get("_line", 0)
            rets.append((z, v))
        return []

    # ------------------------------------------------------------------------------------------- conditions
    def test(self, n, st):
        """-> [(state, bool, condition term or None)]: the third component is set when the test is a pure value test whose
        branches may be joined again"""
        k = n["kind"]
        if k in ("ParenExpr", "ImplicitCastExpr", "ConstantExpr"):
            return self.test(n["inner"][0], st)
        if k == "UnaryOperator" and n["opcode"] == "!":
            return [(z, not b, mk("not", c) if c is not None else None) for z, b, c in self.test(n["inner"][0], st)]   # c stands for the True outcome
        if k == "BinaryOperator" and n["opcode"] in ("&&", "||"):
            out = []
            stop = n["opcode"] == "||"
            for z, b, c in self.test(n["inner"][0], st):
                if b == stop:
                    out.append((z, b, None))
                else:
                    out += [(y, q, None) for y, q, _ in self.test(n["inner"][1], z)]
            return out
        if k == "BinaryOperator" and n["opcode"] in ("<", "<=", ">", ">=", "==", "!="):
            out = []
            for z, a in self.eval(n["inner"][0], st):
                for y, b in self.eval(n["inner"][1], z):
                    out += self.compare(n["opcode"], a, b, y, n)
            return out
        out = []
        for z, v in self.eval(n, st):
            out += self.compare("!=", v, const(0), z, n)
        return out

    def compare(self, op, a, b, st, n):
        isp = lambda t: isinstance(t, T) and t.op in ("cobj", "cptr", "cnull", "carr", "cfn")
        if isp(a) or isp(b):
            if is_const(a) and cval(a) == 0:
                a = NULL
            if is_const(b) and cval(b) == 0:
                b = NULL
            if op in ("==", "!="):
                if a is NULL:
                    a, b = b, a
                if b is NULL:
                    o = self.nullkey(a)
                    if a is NULL:
                        isnull = True
                    elif o is None:
                        isnull = False
                    else:
                        isnull = st.null.get(o)
                    if isnull is not None:
                        return [(st, isnull == (op == "=="), None)]
                    y, z = st.fork(), st.fork()
                    y.null[o], z.null[o] = True, False
                    if st.arr.get(o, {}).get("seterr"):
                        y.err = True
                    return [(y, op == "==", None), (z, op != "==", None)]
                if a is b:
                    return [(st, op == "==", None)]
            y, z = st.fork(), st.fork()
            return [(y, True, None), (z, False, None)]
        if not isinstance(a, T) or not isinstance(b, T):
            return [(st.fork(), True, None), (st.fork(), False, None)]
        # checks of an array's layout
        for x, v in ((a, b), (b, a)):
            if x.op in ("ccontig", "ctype", "cnd") and is_const(v) and op in ("==", "!="):
                o = x.args[0]
                y, z = st.fork(), st.fork()
                ar = y.arr.setdefault(o, {})
                if x.op == "ccontig":
                    tv = op == "!=" if cval(v) == 0 else op == "=="
                    ar["contig"] = True
                    return [(y, tv, None), (z, not tv, None)]
                ar[{"ctype": "dtype", "cnd": "nd"}[x.op]] = cval(v)
                return [(y, op == "==", None), (z, op != "==", None)]
        f, g = poly(a), poly(b)
        if f is None or g is None:
            c = mk({"<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne"}[op], a, b)
            return [(st.fork(), True, c), (st.fork(), False, c)]
        d = padd(g, f, -1)          # b - a
        one = {(): Fraction(1)}
        real = self.isreal(a) or self.isreal(b)
        neg = lambda h: padd({}, h, -1)
        if op in ("==", "!="):
            if self.prove(st, d) and self.prove(st, neg(d)):
                return [(st, op == "==", None)]
            if self.prove(st, padd(d, one, -1)) or self.prove(st, padd(neg(d), one, -1)):
                return [(st, op == "!=", None)]
            c = mk("eq" if op == "==" else "ne", a, b)
            y, z = st.fork(), st.fork()
            if not real:
                y.facts += [d, neg(d)]
            return [(y, op == "==", c), (z, op != "==", c)]
        if op in (">", ">="):
            d, op = neg(d), {">": "<", ">=": "<="}[op]
            a, b = b, a
        # a op b with d = b - a
        t = padd(d, one, -1) if op == "<" else d
        fl = neg(d) if op == "<" else padd(neg(d), one, -1)
        if not real:
            if self.prove(st, t):
                return [(st, True, None)]
            if self.prove(st, fl):
                return [(st, False, None)]
        y, z = st.fork(), st.fork()
        if not real:
            y.facts.append(t)
            z.facts.append(fl)
        c = mk("lt" if op == "<" else "le", a, b)
        return [(y, True, c), (z, False, c)]

    def isreal(self, t):
        if t.op in ("cload", "csum", "ite") or t.op == "call":
            return True
        if is_const(t):
            return isinstance(cval(t), float)
        return any(isinstance(x, T) and self.isreal(x) for x in t.args) if t.op in ("add", "sub", "mul", "div", "neg", "pow") else False

    def nullkey(self, a):
        if a.op == "cobj":
            return a
        if a.op == "cptr":
            b = a.args[0]
            return b if b.op == "cblk" else None
        return None

    # ------------------------------------------------------------------------------------------- expressions
    def eval(self, n, st):
        """-> [(state, value)]"""
        k = n["kind"]
        f = getattr(self, "e_" + k, None)
        if f is None:
            return [(st, self.fresh("unknown"))]
        return f(n, st)

    def e_ParenExpr(self, n, st):
        return self.eval(n["inner"][0], st)

    def e_ConstantExpr(self, n, st):
        return self.eval(n["inner"][0], st)

    def e_ImplicitCastExpr(self, n, st):
        ck = n.get("castKind")
        if ck == "ArrayToPointerDecay":
            out = []
            for z, v in self.eval(n["inner"][0], st):
                if isinstance(v, T) and v.op == "carr":
                    v = mk("cptr", mk("cvar", v.args[0]), ())
                out.append((z, v))
            return out
        if ck == "NullToPointer":
            return [(st, NULL)]
        return self.eval(n["inner"][0], st)

    def e_CStyleCastExpr(self, n, st):
        ck = n.get("castKind")
        out = []
        q = n["type"]["qualType"]
        for z, v in self.eval(n["inner"][0], st):
            if ck == "NullToPointer" or q.endswith("*") and is_const(v) and cval(v) == 0:
                v = NULL
            if isinstance(v, T) and v.op == "cptr" and q.endswith("*") and v.args[0].op in ("cdata",) and not v.args[1]:
                pass
            if ck == "IntegralToFloating" and is_const(v) and isinstance(cval(v), int):
                pass
            if ck == "FloatingToIntegral":
                v = mk("cint", v)
            out.append((z, v))
        return out

    def e_IntegerLiteral(self, n, st):
        return [(st, const(int(n["value"])))]

    def e_FloatingLiteral(self, n, st):
        x = float(n["value"])
        return [(st, const(int(x) if x == int(x) else x))]

    def e_CharacterLiteral(self, n, st):
        return [(st, const(int(n["value"])))]

    def e_StringLiteral(self, n, st):
        return [(st, mk("cstr", n["value"]))]

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        q = n.get("argType", {}).get("qualType")
        if q is None and n.get("inner"):
            q = n["inner"][0]["type"]["qualType"]
        return [(st, const(self.sizeof(q)) if self.sizeof(q) else self.fresh("sizeof"))]

    def sizeof(self, q):
        if q is None:
            return None
        q = q.replace("const ", "").strip()
        if q.endswith("*"):
            return 8
        return SIZES.get(q)

    def e_DeclRefExpr(self, n, st):
        d = n["referencedDecl"]
        if d["kind"] == "FunctionDecl":
            return [(st, mk("cfn", d["name"]))]
        if d["kind"] == "EnumConstantDecl":
            v = self.enums.get(d["id"])
            return [(st, const(v) if v is not None else self.fresh("enum"))]
        v = st.vars.get(d["id"])
        if v is None:
            if d.get("type", {}).get("qualType", "").endswith("*"):
                o = mk("cobj", "global " + d.get("name", "?"))
                st.null.setdefault(o, False)
                return [(st, o)]
            v = sym("global " + d.get("name", "?"), "int")
        return [(st, v)]

    def e_ConditionalOperator(self, n, st):
        c, a, b = n["inner"]
        out = []
        tests = self.test(c, st)
        for z, bl, _ in tests:
            out += self.eval(a if bl else b, z)
        if len(tests) == 2 and all(t[2] is not None for t in tests) and len(out) == 2:
            (z1, v1), (z2, v2) = out
            if isinstance(v1, T) and isinstance(v2, T) and not any(v.op.startswith("c") and v.op in ("cptr", "cobj", "cnull") for v in (v1, v2)):
                first = tests[0]
                z = self.merge(st, z1, z2, first[2])
                if z is not None:
                    p, q = (v1, v2) if first[1] else (v2, v1)
                    return [(z, mk("ite", first[2], p, q))]
        return out

    def e_MemberExpr(self, n, st):
        name = n["name"]
        out = []
        for z, o in self.eval(n["inner"][0], st):
            if isinstance(o, T) and o.op == "cobj":
                out.append((z, self.member(z, o, name, n)))
            else:
                if o is NULL:
                    self.ev("null", n, z, what=name)
                out.append((z, self.fresh("member")))
        return out

    def member(self, st, o, name, n):
        self.deref(st, o, n)
        if name == "data":
            return mk("cptr", mk("cdata", o), ())
        if name == "dimensions":
            return mk("cptr", mk("cdims", o), ())
        if name == "nd":
            nd = st.arr.get(o, {}).get("nd")
            return const(nd) if nd is not None else mk("cnd", o)
        return self.fresh("member")

    def deref(self, st, o, n):
        if o in st.freed:
            self.ev("afterfree", n, st, obj=o)
        isnull = st.null.get(o)
        if isnull is True:
            self.ev("null", n, st, obj=o)
        elif isnull is None:
            self.ev("unchecked", n, st, obj=o)

    def dim(self, st, o, i, n):
        a = st.arr.get(o, {})
        nd = a.get("nd")
        self.accesses += 1
        if nd is None and i > 0 or nd is not None and i >= nd:
            self.ev("layout", n, st, obj=o, why=f"extent {i} of an array whose number of dimensions is not known to be larger")
        if "dims" in a and i < len(a["dims"]):
            return a["dims"][i]
        return mk("cdim", a.get("like", o), i)

    # pointers --------------------------------------------------------------------------------------------
    def ptradd(self, p, off, k=1):
        if p.op != "cptr":
            return p
        return mk("cptr", p.args[0], p.args[1] + ((off if k == 1 else mk("neg", off)),))

    def e_ArraySubscriptExpr(self, n, st):
        out = []
        for z, b in self.eval(n["inner"][0], st):
            for y, i in self.eval(n["inner"][1], z):
                if isinstance(b, T) and b.op == "cptr" and isinstance(i, T):
                    out.append((y, self.load(y, self.ptradd(b, i), n)))
                else:
                    if b is NULL:
                        self.ev("null", n, y, what="subscript")
                    out.append((y, self.fresh("elem")))
        return out

    def offset(self, p):
        t = const(0)
        for x in p.args[1]:
            t = x if is_const(t) and cval(t) == 0 else mk("add", t, x)
        return t

    def load(self, st, p, n):
        base = p.args[0]
        off = self.offset(p)
        if base.op == "cdims":
            if is_const(off):
                return self.dim(st, base.args[0], cval(off), n)
            return self.fresh("dim")
        self.check(st, p, n, "read")
        lst = st.mem.get(base, [])
        f = poly(off)
        for lps, o, v in reversed(lst):
            if o is None:
                break
            if not lps:
                g = poly(o)
                if f is not None and g is not None:
                    d = padd(f, g, -1)
                    if not d:
                        return v
                    if self.prove(st, padd({(): Fraction(-1)}, d)) or self.prove(st, padd({(): Fraction(-1)}, d, -1)):
                        continue
                break
            if len(lps) == 1 and lps[0].var is not None and o is lps[0].var and f is not None and is_const(lps[0].step) and cval(lps[0].step) == 1:
                g = poly(lps[0].init)
                if g is not None and self.prove(st, padd(f, g, -1)) and all(self.prove(st, psub(c, lps[0].var, off)) for c in lps[0].cond):
                    return subst(v, {lps[0].var: off})
            break
        if base.op == "cdata":
            rc = self.rowcol(st, p)
            if rc is not None:
                return mk("cload", base.args[0], rc[0], rc[1])
        return mk("cload", base, off, const(0))

    def rowcol(self, st, p, proven=True):
        """(row, column) of an access to a two-dimensional contiguous array, by splitting the offset at its row length"""
        o = p.args[0].args[0]
        m = self.qdim(st, o, 1)
        fm = poly(m)
        parts = list(p.args[1])
        flat = []

        def fl(t, k):
            if t.op == "add":
                fl(t.args[0], k), fl(t.args[1], k)
            elif t.op == "sub":
                fl(t.args[0], k), fl(t.args[1], -k)
            elif t.op == "neg":
                fl(t.args[0], -k)
            else:
                flat.append(t if k == 1 else mk("neg", t))

        def split(ts):
            row, col = {}, {}
            rt, ct = [], []
            for t in ts:
                f = poly(t)
                if f is None:
                    return None
                q = divide(f, fm)
                if q is not None and f:
                    row = padd(row, q)
                    rt.append(unpoly(q))
                else:
                    col = padd(col, f)
                    ct.append(t)
            return row, col, rt, ct
        for ts in (parts, None):
            if ts is None:
                for x in parts:
                    fl(x, 1)
                ts = flat
            r = split(ts)
            if r is None:
                return None
            row, col, rt, ct = r
            for k in (0, -1, 1):
                rr = padd(row, {(): Fraction(k)})
                cc = padd(col, fm, -k)
                n0 = self.qdim(st, o, 0)
                if not proven and rt or self.inside(st, rr, poly(n0)) and self.inside(st, cc, fm):
                    return (rt[0] if len(rt) == 1 and k == 0 else unpoly(rr), ct[0] if len(ct) == 1 and k == 0 else unpoly(cc))
        return None

    def inside(self, st, f, ext):
        return self.prove(st, f) and self.prove(st, padd(padd(ext, f, -1), {(): Fraction(-1)}))

    def qdim(self, st, o, i):
        a = st.arr.get(o, {})
        if "dims" in a and i < len(a["dims"]):
            return a["dims"][i]
        return mk("cdim", a.get("like", o), i)

    def check(self, st, p, n, what):
        base = p.args[0]
        self.accesses += 1
        if base.op == "cblk":
            if base in st.freed:
                self.ev("afterfree", n, st, obj=base)
            if st.null.get(base) is None:
                self.ev("unchecked", n, st, obj=base)
            elif st.null.get(base):
                self.ev("null", n, st, obj=base)
            size = poly(base.args[1])
            es = self.sizeof(n["type"]["qualType"]) or 8
            f = poly(self.offset(p))
            if size is None or f is None:
                self.ev("undecided", n, st, what=what)
                return
            ext = {m: c / es for m, c in size.items()}
            if not self.inside(st, f, ext):
                self.ev("bounds", n, st, what=what, index=self.offset(p), extent=unpoly(ext))
            else:
                self.ev("access", n, st, what=what)
            return
        if base.op == "cdata":
            o = base.args[0]
            self.deref(st, o, n)
            a = st.arr.get(o, {})
            q = n["type"]["qualType"].replace("const ", "").strip()
            want = {"double": 12, "npy_double": 12, "npy_float64": 12, "float": 11, "npy_float32": 11, "npy_float": 11}.get(q)
            if a.get("dtype") is None or want is not None and a["dtype"] != want:
                self.ev("layout", n, st, obj=o, why=f"elements are accessed as {q} but the element type of the array is {'not known' if a.get('dtype') is None else 'another one'}")
                return
            if not a.get("contig"):
                self.ev("layout", n, st, obj=o, why="elements are accessed as contiguous memory but the array may be strided")
                return
            if a.get("nd") != 2:
                if a.get("nd") == 1:
                    f = poly(self.offset(p))
                    if f is not None and not self.inside(st, f, poly(self.qdim(st, o, 0))):
                        self.ev("bounds", n, st, what=what, index=self.offset(p), extent=self.qdim(st, o, 0))
                    return
                self.ev("undecided", n, st, what=what)
                return
            if poly(self.offset(p)) is None:
                self.ev("undecided", n, st, what=what)
            elif self.rowcol(st, p) is None:
                self.ev("bounds", n, st, what=what, index=self.offset(p), extent=mk("mul", self.qdim(st, o, 0), self.qdim(st, o, 1)))
            else:
                self.ev("access", n, st, what=what)
            return
        if base.op == "cvar":
            v = st.vars.get(base.args[0])
            f = poly(self.offset(p))
            if isinstance(v, T) and v.op == "carr" and v.args[1] is not None and f is not None:
                if not self.inside(st, f, {(): Fraction(v.args[1])}):
                    self.ev("bounds", n, st, what=what, index=self.offset(p), extent=const(v.args[1]))
                else:
                    self.ev("access", n, st, what=what)

    # assignments -----------------------------------------------------------------------------------------
    def assign(self, target, v, st, n):
        """-> [states]"""
        while target["kind"] in ("ParenExpr", "ImplicitCastExpr"):
            target = target["inner"][0]
        if target["kind"] == "DeclRefExpr":
            st = st.fork()
            st.vars[target["referencedDecl"]["id"]] = v
            return [st]
        out = []
        if target["kind"] == "ArraySubscriptExpr":
            for z, b in self.eval(target["inner"][0], st):
                for y, i in self.eval(target["inner"][1], z):
                    y = y.fork()
                    if isinstance(b, T) and b.op == "cptr" and isinstance(i, T):
                        self.store(y, self.ptradd(b, i), v, target)
                    elif b is NULL:
                        self.ev("null", target, y, what="subscript")
                    out.append(y)
            return out
        if target["kind"] == "UnaryOperator" and target["opcode"] == "*":
            for z, b in self.eval(target["inner"][0], st):
                z = z.fork()
                if isinstance(b, T) and b.op == "cptr":
                    self.store(z, b, v, target)
                elif b is NULL:
                    self.ev("null", target, z, what="dereference")
                out.append(z)
            return out
        if target["kind"] == "MemberExpr":
            for z, b in self.eval(target["inner"][0], st):
                out.append(z)
            return out
        return [st]

    def store(self, st, p, v, n):
        base = p.args[0]
        if base.op == "cdata" or base.op in ("cblk", "cvar"):
            self.check(st, p, n, "write")
        st.mem.setdefault(base, []).append(((), self.offset(p), v))
        if base.op == "cdata":
            rc = self.rowcol(st, p) or self.rowcol(st, p, False)
            self.ev("write", n, st, obj=base.args[0], rc=rc, value=v)
            if base.args[0] in st.arr and st.arr[base.args[0]].get("borrowed"):
                self.ev("inputwrite", n, st, obj=base.args[0])

    def e_BinaryOperator(self, n, st):
        op = n["opcode"]
        a, b = n["inner"]
        out = []
        if op == "=":
            for z, v in self.eval(b, st):
                out += [(y, v) for y in self.assign(a, v, z, n)]
            return out
        if op == ",":
            for z, _ in self.eval(a, st):
                out += self.eval(b, z)
            return out
        if op in ("&&", "||", "<", "<=", ">", ">=", "==", "!="):
            return [(z, const(1 if r else 0)) for z, r, _ in self.test(n, st)]
        for z, x in self.eval(a, st):
            for y, w in self.eval(b, z):
                out.append((y, self.arith(op, x, w, y, n)))
        return out

    def arith(self, op, x, w, st, n):
        if not isinstance(x, T) or not isinstance(w, T):
            return self.fresh("value")
        if x.op == "cptr" and op in ("+", "-") and w.op != "cptr":
            return self.ptradd(x, w, 1 if op == "+" else -1)
        if w.op == "cptr" and op == "+":
            return self.ptradd(w, x)
        isint = not any(k in n["type"]["qualType"] for k in ("double", "float"))
        if is_const(x) and is_const(w):
            a, b = cval(x), cval(w)
            try:
                r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: (a // b if isint else a / b), "%": lambda: a % b,
                     "|": lambda: a | b, "&": lambda: a & b, "<<": lambda: a << b, ">>": lambda: a >> b, "^": lambda: a ^ b}[op]()
                return const(int(r) if isinstance(r, float) and r == int(r) and not isint else r)
            except Exception:
                return self.fresh("value")
        if op == "/" and isint:
            q = mk("cidiv", x, w)
            f = poly(x)
            if f is not None and is_const(w) and cval(w) > 0 and self.prove(st, f):
                k = cval(w)
                g = poly(q)
                st.facts.append(padd(f, {m: c * k for m, c in g.items()}, -1))                      # x - k q >= 0
                st.facts.append(padd({m: c * k for m, c in g.items()}, padd(f, {(): Fraction(k - 1)}, -1)))   # k q - (x - (k-1)) >= 0
            return q
        name = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "&": "band", "|": "bor", "<<": "shl", ">>": "shr", "^": "xor"}.get(op)
        if name is None:
            return self.fresh("value")
        return mk(name, x, w)

    def e_CompoundAssignOperator(self, n, st):
        a, b = n["inner"]
        out = []
        for z, x in self.eval(a, st):
            for y, w in self.eval(b, z):
                v = self.arith(n["opcode"][:-1], x, w, y, n)
                out += [(q, v) for q in self.assign(a, v, y, n)]
        return out

    def e_UnaryOperator(self, n, st):
        op = n["opcode"]
        a = n["inner"][0]
        if op == "&":
            x = a
            while x["kind"] in ("ParenExpr",):
                x = x["inner"][0]
            if x["kind"] == "DeclRefExpr":
                return [(st, mk("caddr", x["referencedDecl"]["id"]))]
            if x["kind"] == "ArraySubscriptExpr":
                out = []
                for z, b in self.eval(x["inner"][0], st):
                    for y, i in self.eval(x["inner"][1], z):
                        out.append((y, self.ptradd(b, i) if isinstance(b, T) and isinstance(i, T) else self.fresh("addr")))
                return out
            return [(st, self.fresh("addr"))]
        if op == "*":
            out = []
            for z, p in self.eval(a, st):
                if isinstance(p, T) and p.op == "cptr":
                    out.append((z, self.load(z, p, n)))
                else:
                    out.append((z, self.fresh("deref")))
            return out
        if op in ("++", "--"):
            out = []
            for z, x in self.eval(a, st):
                v = self.arith("+" if op == "++" else "-", x, const(1), z, n)
                for y in self.assign(a, v, z, n):
                    out.append((y, x if n.get("isPostfix") else v))
            return out
        if op == "!":
            return [(z, const(1 if r else 0)) for z, r, _ in self.test(n, st)]
        out = []
        for z, x in self.eval(a, st):
            if op == "-" and isinstance(x, T):
                out.append((z, const(-cval(x)) if is_const(x) else mk("neg", x)))
            elif op == "+":
                out.append((z, x))
            else:
                out.append((z, self.fresh("value")))
        return out

    def e_InitListExpr(self, n, st):
        return [(st, self.fresh("init"))]

    # calls -----------------------------------------------------------------------------------------------
    def e_CallExpr(self, n, st):
        res = []
        for z, f in self.eval(n["inner"][0], st):
            cur = [(z, [])]
            for a in n["inner"][1:]:
                nxt = []
                for y, vs in cur:
                    for w, v in self.eval(a, y):
                        nxt.append((w, vs + [v]))
                cur = nxt
            for y, vs in cur:
                if isinstance(f, T) and f.op == "cfn":
                    res += self.do_call(f.args[0], vs, y, n)
                else:
                    res.append((y, self.fresh("call")))
        return res

    def newobj(self, st, kind, n, **arr):
        self.n += 1
        o = mk("cobj", f"{kind}@{n.get('_line', 0)}", self.n)
        st.own[o] = 1
        arr.setdefault("seterr", True)
        st.arr[o] = arr
        return o

    def release(self, st, o, n, maybe_null):
        if not isinstance(o, T) or o is NULL:
            if o is NULL and not maybe_null:
                self.ev("null", n, st, what="Py_DECREF")
            return
        if o.op != "cobj":
            return
        isnull = st.null.get(o)
        if isnull is True:
            if not maybe_null:
                self.ev("null", n, st, obj=o)
            return
        if isnull is None and not maybe_null:
            self.ev("unchecked", n, st, obj=o)
        if st.own.get(o, 0) <= 0:
            self.ev("overrelease", n, st, obj=o)
            return
        st.own[o] -= 1
        if st.own[o] == 0 and not st.arr.get(o, {}).get("borrowed"):
            st.freed[o] = n.get("_line", 0)

    def do_call(self, name, vs, st, n):
        if name in self.funcs:
            for v in vs:
                if isinstance(v, T) and v.op == "cobj" and v in st.freed:
                    self.ev("afterfree", n, st, obj=v)
            return [(z, v) for z, v in self.call_fn(name, vs, st, n)]
        st = st.fork()
        if name in ("PyArg_ParseTuple", "PyArg_ParseTupleAndKeywords"):
            return self.parse_args(name, vs, st, n)
        if name in ("PyArray_SimpleNew", "PyArray_ZEROS", "PyArray_EMPTY", "PyArray_Zeros"):
            nd = cval(vs[0]) if is_const(vs[0]) else None
            dims = []
            p = vs[1]
            if nd is not None and isinstance(p, T) and p.op == "cptr":
                for i in range(nd):
                    dims.append(self.load(st, self.ptradd(p, const(i)), {"kind": "x", "_line": n.get("_line", 0), "type": {"qualType": "npy_intp"}}))
            o = self.newobj(st, name, n, nd=nd, dims=tuple(dims), dtype=cval(vs[2]) if is_const(vs[2]) else None, contig=True,
                            zero=name in ("PyArray_ZEROS", "PyArray_Zeros"))
            return [(st, o)]
        if name in ("PyArray_NewLikeArray", "PyArray_NewCopy"):
            a = dict(st.arr.get(vs[0], {}))
            a.update(contig=True, like=st.arr.get(vs[0], {}).get("like", vs[0]), borrowed=False, seterr=True)
            return [(st, self.newobj(st, name, n, **a))]
        if name == "PyArray_FROMANY_":
            src = vs[0]
            a = {"like": st.arr.get(src, {}).get("like", src)}
            if "dims" in st.arr.get(src, {}):
                a["dims"] = st.arr[src]["dims"]
            lo, hi = (cval(v) if is_const(v) else 0 for v in vs[2:4])
            a["nd"] = lo if lo == hi and lo > 0 else st.arr.get(src, {}).get("nd")
            a["dtype"] = cval(vs[1]) if is_const(vs[1]) and cval(vs[1]) >= 0 else st.arr.get(src, {}).get("dtype")
            fl = cval(vs[4]) if is_const(vs[4]) else 0
            a["contig"] = bool(fl & 1) or st.arr.get(src, {}).get("contig", False)
            a["mayalias"] = True
            return [(st, self.newobj(st, "PyArray_FROMANY", n, **a))]
        if name in ("malloc", "calloc", "PyMem_Malloc", "PyMem_Calloc", "PyMem_RawMalloc"):
            self.n += 1
            size = vs[0] if len(vs) == 1 else mk("mul", vs[0], vs[1])
            b = mk("cblk", self.n, size)
            st.own[b] = 1
            st.arr[b] = {"heap": "PyMem" if name.startswith("PyMem") else "malloc", "line": n.get("_line", 0)}
            return [(st, mk("cptr", b, ()))]
        if name in ("free", "PyMem_Free", "PyMem_RawFree"):
            p = vs[0]
            if p is NULL:
                return [(st, None)]
            if isinstance(p, T) and p.op == "cptr" and p.args[0].op == "cblk":
                b = p.args[0]
                if st.null.get(b) is True:
                    return [(st, None)]
                if b in st.freed:
                    self.ev("doublefree", n, st, obj=b)
                st.freed[b] = n.get("_line", 0)
                st.own[b] = 0
            elif isinstance(p, T) and p.op == "cptr":
                self.ev("badfree", n, st, obj=p.args[0])
            return [(st, None)]
        if name in ("Py_DECREF_", "Py_XDECREF_"):
            self.release(st, vs[0], n, name == "Py_XDECREF_")
            return [(st, None)]
        if name in ("Py_INCREF_", "Py_XINCREF_", "Py_NewRef_", "Py_XNewRef_"):
            o = vs[0]
            if isinstance(o, T) and o.op == "cobj":
                if "X" not in name:
                    self.deref(st, o, n)
                st.own[o] = st.own.get(o, 0) + 1
            return [(st, o)]
        if name == "PyArray_Return":
            o = vs[0]
            self.deref_maybe(st, o, n)
            return [(st, o)]
        if name == "Py_BuildValue":
            fmt = vs[0].args[0].strip('"') if isinstance(vs[0], T) and vs[0].op == "cstr" else ""
            tup = self.newobj(st, "Py_BuildValue", n)
            its = []
            k = 1
            for ch in fmt:
                if ch in "()[]{}, ":
                    continue
                if k < len(vs):
                    o = vs[k]
                    if ch in "NOS" and isinstance(o, T) and o.op == "cobj":
                        self.deref_maybe(st, o, n)
                        if ch == "N":
                            st.own[o] = st.own.get(o, 0) - 1
                    its.append(o)
                    k += 1
            st.arr[tup]["items"] = tuple(its)
            if fmt and not fmt.startswith("(") and len(its) == 1:
                # a single value: the object itself
                st.own.pop(tup, None)
                if fmt == "N":
                    st.own[its[0]] = st.own.get(its[0], 0) + 1
                return [(st, its[0])]
            return [(st, tup)]
        if name == "PyTuple_Pack":
            t = self.newobj(st, name, n, items=tuple(vs[1:]))
            return [(st, t)]
        if name == "PyTuple_New":
            return [(st, self.newobj(st, name, n, slots={}))]
        if name in ("PyTuple_SET_ITEM", "PyTuple_SetItem"):
            o = vs[2]
            if isinstance(o, T) and o.op == "cobj":
                st.own[o] = st.own.get(o, 0) - 1
            t = vs[0]
            if is_const(vs[1]) and t in st.arr:
                sl = dict(st.arr[t].get("slots", {}))
                sl[cval(vs[1])] = o
                st.arr[t]["slots"] = sl
                st.arr[t]["items"] = tuple(sl[k] for k in sorted(sl))
            return [(st, const(0))]
        if name in ("PyFloat_FromDouble", "PyLong_FromLong"):
            return [(st, self.newobj(st, name, n, value=vs[0]))]
        if name == "PyErr_NoMemory" or name == "PyErr_Format":
            st.err = True
            return [(st, NULL)]
        if name in ("PyErr_SetString", "PyErr_SetNone"):
            st.err = True
            return [(st, None)]
        if name == "PyErr_Clear":
            st.err = False
            return [(st, None)]
        if name == "PyErr_WarnEx":
            a, b = st.fork(), st.fork()
            b.err = True
            return [(a, const(0)), (b, const(-1))]
        if name in ("exit", "_exit", "abort", "Py_Exit", "Py_FatalError", "quick_exit"):
            self.ev("exit", n, st, what=name)
            return []
        if name == "PyArray_NDIM_":
            self.deref_maybe(st, vs[0], n)
            nd = st.arr.get(vs[0], {}).get("nd")
            return [(st, const(nd) if nd is not None else mk("cnd", vs[0]))]
        if name == "PyArray_DIM_":
            self.deref_maybe(st, vs[0], n)
            return [(st, self.dim(st, vs[0], cval(vs[1]), n) if is_const(vs[1]) else self.fresh("dim"))]
        if name == "PyArray_DIMS_":
            self.deref_maybe(st, vs[0], n)
            return [(st, mk("cptr", mk("cdims", vs[0]), ()))]
        if name == "PyArray_DATA_":
            self.deref_maybe(st, vs[0], n)
            return [(st, mk("cptr", mk("cdata", vs[0]), ()))]
        if name == "PyArray_TYPE_":
            d = st.arr.get(vs[0], {}).get("dtype")
            return [(st, const(d) if d is not None else mk("ctype", vs[0]))]
        if name in ("PyArray_ISCONTIGUOUS", "PyArray_IS_C_CONTIGUOUS", "PyArray_ISCARRAY_RO"):
            c = st.arr.get(vs[0], {}).get("contig")
            return [(st, const(1) if c else mk("ccontig", vs[0]))]
        if name == "PyArray_GETPTR2_":
            self.deref_maybe(st, vs[0], n)
            a = st.arr.get(vs[0], {})
            # honours the strides, so only the indices matter: model it as row * row length + column
            return [(st, mk("cptr", mk("cdata", vs[0]), (mk("mul", vs[1], self.qdim(st, vs[0], 1)), vs[2])))]
        if name in ("sqrt", "fabs", "floor", "ceil", "log", "exp", "cbrt", "sqrtf"):
            return [(st, mk("call", "c." + name, tuple(vs), ()))]
        if name in ("pow", "powf"):
            return [(st, mk("pow", vs[0], vs[1]) if all(isinstance(v, T) for v in vs) else self.fresh("pow"))]
        if name in ("fmin", "fmax"):
            return [(st, mk("call", "c." + name, tuple(vs), ()))]
        if name in ("memset", "memcpy", "memmove"):
            self.ev("memop", n, st, what=name, args=vs)
            return [(st, vs[0])]
        return [(st, self.fresh("ret_" + name))]

    def deref_maybe(self, st, o, n):
        if o is NULL:
            self.ev("null", n, st, what="call")
        elif isinstance(o, T) and o.op == "cobj":
            self.deref(st, o, n)

    def parse_args(self, name, vs, st, n):
        k = 1 if name == "PyArg_ParseTuple" else 2
        fmt = vs[k].args[0].strip('"') if isinstance(vs[k], T) and vs[k].op == "cstr" else None
        fail = st.fork()
        fail.err = True
        rest = vs[k + 1:] if name == "PyArg_ParseTuple" else vs[k + 2:]
        if fmt is None:
            return [(st, const(1)), (fail, const(0))]
        fmt = fmt.split(":")[0].split(";")[0]
        i = j = 0
        pos = 0
        while i < len(fmt):
            ch = fmt[i]
            i += 1
            if ch in "|$ ":
                continue
            nxt = fmt[i] if i < len(fmt) else ""
            typ = None
            if ch == "O" and nxt == "!":
                i += 1
                typ = rest[j]
                j += 1
            elif ch == "O" and nxt == "&":
                i += 1
                j += 1
            if j >= len(rest):
                break
            tgt = rest[j]
            j += 1
            if isinstance(tgt, T) and tgt.op == "caddr":
                if ch == "O":
                    o = mk("cobj", f"argument {pos}")
                    st.null[o] = False
                    st.arr[o] = {"borrowed": True}
                    st.vars[tgt.args[0]] = o
                else:
                    st.vars[tgt.args[0]] = sym(f"argument {pos}", "int" if ch in "ilnhIkLb" else "float")
            pos += 1
        return [(st, const(1)), (fail, const(0))]


def atoms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            stack.extend(x.args)
    return seen


def psub(f, var, term):
    """substitute a variable in a form"""
    g = poly(term)
    r = {}
    for m, c in f.items():
        q = {(): c}
        for a in m:
            q = pmul(q, g if a is var else {(a,): Fraction(1)})
        r = padd(r, q)
    return r


def divide(f, m):
    """f / m when m is a single atom dividing every monomial"""
    if len(m) != 1:
        return None
    (mono, c), = m.items()
    if c != 1 or len(mono) != 1:
        return None
    a = mono[0]
    r = {}
    for k, v in f.items():
        if a not in k:
            return None
        k = list(k)
        k.remove(a)
        r[tuple(k)] = v
    return r


def unpoly(f):
    t = None
    for m, c in sorted(f.items(), key=lambda q: (len(q[0]), show(mk("k", *q[0])))):
        x = None
        for a in m:
            x = a if x is None else mk("mul", x, a)
        k = int(c) if c == int(c) else float(c)
        if x is None:
            x = const(k)
        elif k != 1:
            x = mk("mul", const(k), x)
        t = x if t is None else mk("add", t, x)
    return t if t is not None else const(0)
