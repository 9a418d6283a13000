"""Path-sensitive interprocedural dataflow over a value-numbering domain.

The engine never executes repository code.  It propagates abstract values (hash-consed
terms over entry symbols) through the syntax tree of a function and of every repository
function it calls, keeping the outcomes of undecided branch conditions correlated (the same
condition is never assumed true and false on one path).  Loops over statically unknown
collections are summarised by one generic iteration.  Entry states are partitioned over
finite configuration domains by the individual checks.
"""
import ast
import builtins as _b
import os
import re
import string

from .project import AnalysisBroken, FuncInfo, Project
from .terms import (FALSE, NONE, TRUE, T, const, cval, is_const, mk, show, strip_ids, subst, subterms, sym, tup)

BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv", ast.Mod: "mod",
          ast.Pow: "pow", ast.MatMult: "matmul", ast.BitAnd: "bitand", ast.BitOr: "bitor", ast.BitXor: "bitxor",
          ast.LShift: "lshift", ast.RShift: "rshift"}
CMPS = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Is: "is",
        ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}
ARITH = {"add", "sub", "mul", "div", "floordiv", "mod", "pow", "matmul", "bitand", "bitor", "bitxor", "lshift", "rshift"}

# ndarray methods that are the same as the numpy function of that name
ND_METHODS = {"mean", "std", "var", "min", "max", "sum", "any", "all", "reshape", "transpose", "swapaxes", "ravel",
              "squeeze", "take", "clip", "round", "dot", "prod", "argmax", "argmin", "cumsum", "repeat", "nonzero",
              "flatten", "copy", "astype", "view", "conj", "trace", "ptp", "searchsorted", "diagonal", "argsort"}
ND_MUTATORS = {"sort", "fill", "put", "itemset", "resize", "partition", "setfield", "setflags", "byteswap",
               "__iadd__", "__isub__", "__imul__", "__itruediv__", "__setitem__",
               "add_", "sub_", "mul_", "div_", "clamp_", "fill_", "copy_", "zero_", "abs_"}
# numpy functions mutating an argument: name -> index
NP_MUTATORS = {"numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.fill_diagonal": 0,
               "numpy.put_along_axis": 0, "numpy.random.shuffle": 0, "numpy.add.at": 0, "numpy.subtract.at": 0,
               "numpy.multiply.at": 0, "numpy.maximum.at": 0, "numpy.minimum.at": 0, "random.shuffle": 0}
LIST_MUT = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear"}
DICT_MUT = {"pop", "update", "setdefault", "clear", "popitem"}
SET_MUT = {"add", "discard", "remove", "update", "clear", "pop"}
ALLOC = {"numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full", "numpy.zeros_like", "numpy.empty_like",
         "numpy.ones_like", "numpy.full_like"}
# external calls whose result may share memory with an argument (index)
ALIASING = {"numpy.asarray": 0, "numpy.asanyarray": 0, "numpy.ascontiguousarray": 0, "numpy.asfortranarray": 0,
            "numpy.atleast_1d": 0, "numpy.atleast_2d": 0, "numpy.atleast_3d": 0, "numpy.ravel": 0, "numpy.reshape": 0,
            "numpy.squeeze": 0, "numpy.transpose": 0, "numpy.swapaxes": 0, "numpy.moveaxis": 0, "numpy.rollaxis": 0,
            "numpy.rot90": 0, "numpy.flip": 0, "numpy.flipud": 0, "numpy.fliplr": 0, "numpy.real": 0, "numpy.imag": 0,
            "numpy.broadcast_to": 0, "numpy.view": 0, "numpy.expand_dims": 0, "torch.from_numpy": 0, "torch.as_tensor": 0,
            "numpy.diagonal": 0, "numpy.nan_to_num?": 0, "numpy.require": 0, "numpy.lib.stride_tricks.as_strided": 0,
            "numpy.lib.stride_tricks.sliding_window_view": 0, "numpy.split": 0, "numpy.array_split": 0,
            "numpy.ma.getdata": 0, "numpy.ma.masked_array": 0, "numpy.ma.array": 0, "numpy.ma.masked_where": 1,
            "numpy.squeeze_": 0}
MCALL_ALIAS = {"view", "numpy", "cpu", "detach", "unsqueeze", "permute", "squeeze", "reshape", "transpose", "swapaxes",
               "ravel", "__array__", "T", "contiguous", "to", "float", "expand"}
NONDET_PREFIX = ("numpy.random.", "random.", "secrets.", "uuid.", "time.", "os.getpid", "os.urandom", "torch.rand",
                 "torch.randn", "torch.randint", "numpy.random", "builtins.id", "builtins.hash", "datetime.")


_EXACT_DT = {"float64", "float32", "float16", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "bool"}


class Limit(AnalysisBroken):
    pass


class HObj:
    __slots__ = ("kind", "cls", "items", "rest", "attrs", "owner", "site")

    def __init__(self, kind, cls=None, items=None, rest=None, attrs=None, owner="fresh", site=None):
        self.kind, self.cls, self.rest, self.owner, self.site = kind, cls, rest, owner, site
        self.items = items if items is not None else ([] if kind in ("list", "set") else {})
        self.attrs = attrs if attrs is not None else {}

    def copy(self):
        h = HObj(self.kind, self.cls, self.items.copy(), self.rest, self.attrs.copy(), self.owner, self.site)
        return h

    def sig(self):
        it = tuple(self.items.items()) if isinstance(self.items, dict) else tuple(self.items)
        return (self.kind, self.cls, it, self.rest, tuple(self.attrs.items()), self.owner)


_OBJ_DUNDERS = {"__repr__", "__hash__", "__module__", "__sizeof__", "__reduce__", "__format__", "__dir__", "__weakref__"}


class St:
    __slots__ = ("envs", "heap", "events", "conds")

    def __init__(self, envs=None, heap=None, events=None, conds=None):
        self.envs = envs or {}
        self.heap = heap or {}
        self.events = events or []
        self.conds = conds or {}

    def fork(self):
        return St(self.envs.copy(), self.heap.copy(), self.events.copy(), self.conds.copy())

    def setvar(self, fid, name, val):
        e = self.envs[fid].copy()
        e[name] = val
        self.envs[fid] = e

    def delvar(self, fid, name):
        e = self.envs[fid].copy()
        e.pop(name, None)
        self.envs[fid] = e

    def h(self, ref):
        return self.heap[ref.args[0]]

    def hw(self, ref):
        o = self.heap[ref.args[0]].copy()
        self.heap[ref.args[0]] = o
        return o


class Fr:
    __slots__ = ("fi", "mod", "fid", "chain", "cls", "selfval", "depth", "stack", "path")

    def __init__(self, fi, mod, fid, chain, cls, selfval, depth, stack, path):
        self.fi, self.mod, self.fid, self.chain = fi, mod, fid, chain
        self.cls, self.selfval, self.depth, self.stack, self.path = cls, selfval, depth, stack, path


class Out:
    __slots__ = ("normal", "ret", "brk", "cont")

    def __init__(self):
        self.normal, self.ret, self.brk, self.cont = [], [], [], []


class Ev:
    """One recorded event on a path."""
    __slots__ = ("kind", "a", "loc", "loops")

    def __init__(self, kind, a, loc, loops):
        self.kind, self.a, self.loc, self.loops = kind, a, loc, loops

    def __repr__(self):
        return f"{self.kind}{self.a} @{self.loc}"


class Config:
    def __init__(self, facts=None, ndims=None, opaque=(), sinks=(), maxpaths=6000, dtypes=None, types=None, kwabsent=False,
                 opaque_pred=None, nonempty=True, ndim_fn=None, dtype_fn=None, isinst_fn=None, iter_fn=None):
        self.facts = facts or (lambda t: None)
        self.ndims = ndims or {}
        self.opaque = set(opaque)
        self.sinks = set(sinks)
        self.maxpaths = maxpaths
        self.dtypes = dtypes or {}
        self.kwabsent = kwabsent
        self.opaque_pred = opaque_pred
        self.nonempty = nonempty
        self.ndim_fn = ndim_fn
        self.dtype_fn = dtype_fn
        self.isinst_fn = isinst_fn
        self.iter_fn = iter_fn


class Engine:
    def __init__(self, project=None):
        self.p = project or Project()
        self.cfg = Config()
        self.counter = 0
        self.excs = [[]]
        self.loops = []
        self.closures = {}
        self.base = St()
        self.loaded = set()
        self.notes = []
        self.inlined = set()
        self.analysed_calls = 0
        for name in list(self.p.modules):
            self._load_module(name)

    # ------------------------------------------------------------------ modules
    def _load_module(self, name):
        if name in self.loaded or name not in self.p.modules:
            return
        self.loaded.add(name)
        fid = ("mod", name)
        self.base.envs[fid] = {"__name__": const(name)}
        m = self.p.modules[name]
        fr = Fr(None, name, fid, (), None, None, 0, (), ())
        # module-level code: take the first normal continuation
        st = self.base
        for stmt in m.tree.body:
            if isinstance(stmt, ast.If) and "__name__" in ast.unparse(stmt.test):
                continue
            try:
                outs = self.exec_block([stmt], fr, st)
            except Limit:
                continue
            if outs.normal:
                st = outs.normal[0]
                st.conds = {}
                st.events = []
        self.base = st

    def start(self):
        st = self.base.fork()
        st.conds, st.events = {}, []
        return st

    def new_id(self):
        self.counter += 1
        return self.counter

    def alloc(self, st, obj):
        i = self.new_id()
        st.heap[i] = obj
        return mk("ref", i)

    def new_list(self, st, items, owner="fresh", rest=None):
        return self.alloc(st, HObj("list", items=list(items), owner=owner, rest=rest))

    def new_dict(self, st, items=None, rest=None, owner="fresh"):
        return self.alloc(st, HObj("dict", items=dict(items or {}), rest=rest, owner=owner))

    # ------------------------------------------------------------------ events
    def loc(self, fr, node):
        m = self.p.modules.get(fr.mod)
        return (m.rel if m else fr.mod, getattr(node, "lineno", 0), fr.fi.qual if fr.fi else "<module>")

    def event(self, st, kind, fr, node, *a):
        st.events.append(Ev(kind, a, self.loc(fr, node), tuple(self.loops)))

    def raise_(self, st, exc):
        self.excs[-1].append((st, exc))
        if sum(len(x) for x in self.excs) > self.cfg.maxpaths:
            raise Limit("too many exceptional paths")

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, fr, st):
        out = Out()
        cur = [st]
        for s in stmts:
            nxt = []
            for c in cur:
                o = self.exec_stmt(s, fr, c)
                nxt.extend(o.normal)
                out.ret.extend(o.ret)
                out.brk.extend(o.brk)
                out.cont.extend(o.cont)
            cur = self.merge(nxt)
            if len(cur) > self.cfg.maxpaths:
                raise Limit(f"too many paths in {fr.fi.label if fr.fi else fr.mod}")
            if not cur:
                break
        out.normal = cur
        return out

    def merge(self, sts):
        """Join states that agree on everything but the branch conditions."""
        if len(sts) < 2:
            return sts
        res = []
        idx = {}
        for s in sts:
            key = (len(s.events), s.events[-1].kind if s.events else None)
            found = False
            for r in idx.get(key, []):
                if self._same(r, s):
                    r.conds = {k: v for k, v in r.conds.items() if k in s.conds and s.conds[k] == v}
                    found = True
                    break
            if not found:
                idx.setdefault(key, []).append(s)
                res.append(s)
        return res

    @staticmethod
    def _same(a, b):
        if len(a.events) != len(b.events):
            return False
        if a.envs.keys() != b.envs.keys():
            return False
        for k, v in a.envs.items():
            w = b.envs[k]
            if v is not w and v != w:
                return False
        for e, f in zip(a.events, b.events):
            if e is not f and not (e.kind == f.kind and e.a == f.a and e.loc == f.loc):
                return False
        if a.heap.keys() != b.heap.keys():
            return False
        for k, v in a.heap.items():
            w = b.heap[k]
            if v is not w and v.sig() != w.sig():
                return False
        return True

    def exec_stmt(self, s, fr, st):
        m = getattr(self, "x_" + type(s).__name__, None)
        out = Out()
        if m is None:
            self.notes.append(f"unsupported statement {type(s).__name__} at {self.loc(fr, s)}")
            out.normal.append(st)
            return out
        r = m(s, fr, st, out)
        return r or out

    def x_Pass(self, s, fr, st, out):
        out.normal.append(st)

    def x_Expr(self, s, fr, st, out):
        for st2, _ in self.ev(s.value, fr, st):
            out.normal.append(st2)

    def x_Assign(self, s, fr, st, out):
        for st2, v in self.ev(s.value, fr, st):
            sts = [st2]
            for t in s.targets:
                sts = [z for y in sts for z in self.assign(t, v, fr, y)]
            out.normal.extend(sts)

    def x_AnnAssign(self, s, fr, st, out):
        if s.value is None:
            out.normal.append(st)
            return
        for st2, v in self.ev(s.value, fr, st):
            out.normal.extend(self.assign(s.target, v, fr, st2))

    def x_AugAssign(self, s, fr, st, out):
        load = _load(s.target)
        op = BINOPS[type(s.op)]
        for st1, cur in self.ev(load, fr, st):
            for st2, v in self.ev(s.value, fr, st1):
                inplace = False
                if cur.op == "ref" and st2.h(cur).kind in ("list", "set", "dict"):
                    inplace = True
                elif self.is_arr(cur) or self.maybe_mut(cur):
                    inplace = True
                if inplace:
                    self.event(st2, "mutate", fr, s, cur, "augmented assignment")
                    if cur.op == "ref" and st2.h(cur).kind == "list":
                        o = st2.hw(cur)
                        o.items.extend(self.iter_items(v, st2) or [mk("starof", self.freeze(v, st2))])
                        out.normal.append(st2)
                        continue
                nv = self.binop(op, cur, v, st2)
                if isinstance(s.target, ast.Subscript) and (self.is_arr(cur)):
                    # a[...] op= v on arrays: the same as storing the result
                    pass
                if inplace and self.is_arr(cur) and not isinstance(s.target, ast.Subscript):
                    # the object keeps its identity: other names see the new contents too
                    if self.roots(cur) == frozenset([cur]):
                        self.replace(st2, cur, nv)
                out.normal.extend(self.assign(s.target, nv, fr, st2))

    def maybe_mut(self, t):
        """Could be a mutable caller object (so += may work in place)?"""
        if t.op == "kwget":
            return True
        if t.op == "sym" and t.args[1] in ("any", "array", "list"):
            return True
        return False

    def replace(self, st, old, new):
        for k, e in list(st.envs.items()):
            if any(v is old for v in e.values()):
                st.envs[k] = {n: (new if v is old else v) for n, v in e.items()}
        for k, o in list(st.heap.items()):
            its = o.items.values() if isinstance(o.items, dict) else o.items
            if any(v is old for v in its) or any(v is old for v in o.attrs.values()):
                c = o.copy()
                if isinstance(c.items, dict):
                    c.items = {n: (new if v is old else v) for n, v in c.items.items()}
                else:
                    c.items = [new if v is old else v for v in c.items]
                c.attrs = {n: (new if v is old else v) for n, v in c.attrs.items()}
                st.heap[k] = c

    def x_Return(self, s, fr, st, out):
        if s.value is None:
            out.ret.append((st, NONE))
            return
        for st2, v in self.ev(s.value, fr, st):
            out.ret.append((st2, v))

    def x_Raise(self, s, fr, st, out):
        if s.exc is None:
            self.raise_(st, mk("reraise"))
            return
        for st2, v in self.ev(s.exc, fr, st):
            self.event(st2, "raise", fr, s, v)
            self.raise_(st2, v)

    def x_Assert(self, s, fr, st, out):
        for st2, b in self.test(s.test, fr, st):
            if b:
                out.normal.append(st2)
            else:
                self.raise_(st2, mk("ext", "builtins.AssertionError"))

    def x_If(self, s, fr, st, out):
        for st2, b in self.test(s.test, fr, st):
            o = self.exec_block(s.body if b else s.orelse, fr, st2)
            out.normal.extend(o.normal)
            out.ret.extend(o.ret)
            out.brk.extend(o.brk)
            out.cont.extend(o.cont)

    def x_Global(self, s, fr, st, out):
        out.normal.append(st)

    x_Nonlocal = x_Global

    def x_Break(self, s, fr, st, out):
        out.brk.append(st)

    def x_Continue(self, s, fr, st, out):
        out.cont.append(st)

    def x_Delete(self, s, fr, st, out):
        cur = [st]
        for t in s.targets:
            nxt = []
            for c in cur:
                if isinstance(t, ast.Name):
                    self.delname(t.id, fr, c)
                    nxt.append(c)
                elif isinstance(t, ast.Subscript):
                    for s1, b in self.ev(t.value, fr, c):
                        for s2, i in self.ev(t.slice, fr, s1):
                            self.event(s2, "mutate", fr, t, b, "del item")
                            if b.op == "ref":
                                o = s2.hw(b)
                                if o.kind == "dict":
                                    o.items.pop(i, None)
                            nxt.append(s2)
                elif isinstance(t, ast.Attribute):
                    for s1, b in self.ev(t.value, fr, c):
                        if b.op == "ref":
                            s1.hw(b).attrs.pop(t.attr, None)
                        self.event(s1, "setattr", fr, t, b, t.attr, mk("deleted"))
                        nxt.append(s1)
                else:
                    nxt.append(c)
            cur = nxt
        out.normal.extend(cur)

    def x_FunctionDef(self, s, fr, st, out):
        if fr.fi is None:
            v = mk("func", fr.mod, s.name)
            for d in s.decorator_list:
                pass
        else:
            fi = self.p.funcs.get((fr.mod, fr.fi.qual + ".<locals>." + s.name))
            if fi is None:
                fi = FuncInfo(fr.mod, fr.fi.qual + ".<locals>." + s.name, s, None, fr.fi)
            cid = self.new_id()
            self.closures[cid] = (fi, (fr.fid,) + fr.chain, self.eval_defaults(s, fr, st))
            v = mk("closure", cid)
        # evaluate defaults only for their effects on ownership; handled at bind time
        out.normal.extend(self.assign(ast.Name(s.name, ast.Store()), v, fr, st))

    x_AsyncFunctionDef = x_FunctionDef

    def eval_defaults(self, node, fr, st):
        res = {}
        a = node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        for n, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
                [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            r = self.ev(d, fr, st)
            if r:
                res[n] = r[0][1]
        return res

    def x_ClassDef(self, s, fr, st, out):
        out.normal.extend(self.assign(ast.Name(s.name, ast.Store()), mk("class", fr.mod, s.name), fr, st))
        if fr.fi is None:
            ci = self.p.classes.get((fr.mod, s.name))
            if ci is not None:
                for b in s.bases:
                    r = self.ev(b, fr, st)
                    if r:
                        ci.bases.append(r[0][1])
                for n in s.body:
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                        r = self.ev(n.value, fr, st)
                        if r:
                            ci.attrs[n.targets[0].id] = r[0][1]
                    elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                        r = self.ev(n.value, fr, st)
                        if r:
                            ci.attrs[n.target.id] = r[0][1]

    def x_Import(self, s, fr, st, out):
        for al in s.names:
            if al.asname:
                v = self.modterm(al.name)
                self.setname(al.asname, v, fr, st)
            else:
                self.setname(al.name.split(".")[0], self.modterm(al.name.split(".")[0]), fr, st)
                self.modterm(al.name)
        out.normal.append(st)

    def modterm(self, name):
        if name in self.p.modules:
            self._load_lazy(name)
            return mk("module", name)
        return mk("ext", name)

    def _load_lazy(self, name):
        if name not in self.loaded:
            # executed in the shared base state (imports have no other effects)
            saved = self.base
            self._load_module(name)

    def x_ImportFrom(self, s, fr, st, out):
        base = s.module or ""
        if s.level:
            m = self.p.modules[fr.mod]
            parts = fr.mod.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        if base in self.p.modules:
            self._load_lazy(base)
            env = self.base.envs.get(("mod", base), {})
            for al in s.names:
                if al.name == "*":
                    allv = env.get("__all__")
                    names = [n for n in env if not n.startswith("_")]
                    if allv is not None:
                        its = self.seq_items(allv, self.base) or self.seq_items(allv, st)
                        if its:
                            names = [cval(x) for x in its if is_const(x)]
                    for n in names:
                        if n in env:
                            self.setname(n, env[n], fr, st)
                    continue
                v = env.get(al.name)
                if v is None:
                    sub = base + "." + al.name
                    if sub in self.p.modules:
                        self._load_lazy(sub)
                        v = mk("module", sub)
                    else:
                        v = mk("ext", base + "." + al.name)
                # objects created at module level must exist in this state
                self.setname(al.asname or al.name, v, fr, st)
            for k, o in self.base.heap.items():
                st.heap.setdefault(k, o)
            for k, e in self.base.envs.items():
                st.envs.setdefault(k, e)
        else:
            for al in s.names:
                if al.name != "*":
                    self.setname(al.asname or al.name, mk("ext", f"{base}.{al.name}"), fr, st)
        out.normal.append(st)

    # ---- with / try / match / loops
    def x_With(self, s, fr, st, out, k=0):
        if k == len(s.items):
            o = self.exec_block(s.body, fr, st)
            out.normal.extend(o.normal)
            out.ret.extend(o.ret)
            out.brk.extend(o.brk)
            out.cont.extend(o.cont)
            return
        item = s.items[k]
        for st1, v in self.ev(item.context_expr, fr, st):
            bound = v
            isfile = v.op == "ref" and st1.h(v).kind == "file"
            self.event(st1, "enter", fr, s, v)
            if not isfile and v.op == "ref" and st1.h(v).kind == "inst":
                bound = mk("entered", v)
            if item.optional_vars is not None:
                sts = self.assign(item.optional_vars, bound, fr, st1)
            else:
                sts = [st1]
            for s2 in sts:
                o = Out()
                self.excs.append([])
                self.x_With(s, fr, s2, o, k + 1)
                ex = self.excs.pop()
                for lst in (o.normal, o.brk, o.cont):
                    for z in lst:
                        self.event(z, "exit", fr, s, v)
                for z, _ in o.ret:
                    self.event(z, "exit", fr, s, v)
                for z, e in ex:
                    self.event(z, "exit", fr, s, v)
                    self.raise_(z, e)
                out.normal.extend(o.normal)
                out.ret.extend(o.ret)
                out.brk.extend(o.brk)
                out.cont.extend(o.cont)

    def x_Try(self, s, fr, st, out):
        entry = st.fork()
        self.excs.append([])
        o = self.exec_block(s.body, fr, st)
        raised = self.excs.pop()
        self.excs.append([])   # collects what leaves the whole try (before finally)
        if s.orelse:
            norm = []
            for z in o.normal:
                p = self.exec_block(s.orelse, fr, z)
                norm.extend(p.normal)
                o.ret.extend(p.ret)
                o.brk.extend(p.brk)
                o.cont.extend(p.cont)
            o.normal = norm
        todo = []
        if s.handlers:
            for z, e in raised:
                todo.append((z, e, False))
            # a statement of the body may fail on its own: enter every handler from the entry state
            safe = self._known_lookups(s.body, entry, o.normal)
            for h in s.handlers:
                if safe and self._keyerror_only(h):
                    continue
                z = entry.fork()
                todo.append((z, h, True))
        else:
            for z, e in raised:
                self.raise_(z, e)
        for z, e, implicit in todo:
            hs = [e] if implicit else s.handlers
            done = False
            for h in hs:
                if not implicit:
                    match = self.exc_matches(e, h, fr, z)
                    if match is False:
                        continue
                else:
                    match = True
                z2 = z.fork() if match is None else z
                if h.name:
                    z2.setvar(fr.fid, h.name, mk("exc") if implicit else e)
                self.event(z2, "handler", fr, h, implicit)
                self.excs.append([])
                p = self.exec_block(h.body, fr, z2)
                sub = self.excs.pop()
                for y, x in sub:
                    self.raise_(y, (mk("exc") if implicit else e) if x.op == "reraise" else x)
                o.normal.extend(p.normal)
                o.ret.extend(p.ret)
                o.brk.extend(p.brk)
                o.cont.extend(p.cont)
                if match:
                    done = True
                    break
            if not done and not implicit:
                self.raise_(z, e)
        esc = self.excs.pop()
        if s.finalbody:
            def fin(lst, pair):
                res = []
                for x in lst:
                    z = x[0] if pair else x
                    self.event(z, "finally", fr, s)
                    p = self.exec_block(s.finalbody, fr, z)
                    for y in p.normal:
                        res.append((y, x[1]) if pair else y)
                    out.ret.extend(p.ret)
                return res
            o.normal = fin(o.normal, False)
            o.brk = fin(o.brk, False)
            o.cont = fin(o.cont, False)
            o.ret = fin(o.ret, True)
            esc = fin(esc, True)
        for z, e in esc:
            self.raise_(z, e)
        out.normal.extend(o.normal)
        out.ret.extend(o.ret)
        out.brk.extend(o.brk)
        out.cont.extend(o.cont)

    x_TryStar = x_Try

    @staticmethod
    def _keyerror_only(h):
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return all(isinstance(t, ast.Name) and t.id in ("KeyError", "LookupError", "IndexError") for t in ts)

    @staticmethod
    def _known_lookups(body, entry, normal):
        """the body only assigns names from constant keys, each found in a known dictionary (missing keys raise explicitly)"""
        n = 0
        for b in body:
            if not (isinstance(b, ast.Assign) and all(isinstance(t, ast.Name) for t in b.targets) and isinstance(b.value, ast.Subscript) and isinstance(b.value.slice, ast.Constant)):
                return False
            v = b.value.value
            while isinstance(v, ast.Attribute):
                v = v.value
            if not isinstance(v, ast.Name):
                return False
            n += 1
        for z in normal:
            ds = [ev for ev in z.events[len(entry.events):] if ev.kind == "dread"]
            if len(ds) != n or any(d.a[0].args[0] not in z.heap or d.a[1] not in z.h(d.a[0]).items for d in ds):
                return False
        return n > 0

    def exc_matches(self, e, h, fr, st):
        if h.type is None:
            return True
        n = self.exc_name(e)
        r = self.ev(h.type, fr, st)
        if not r:
            return None
        t = r[0][1]
        ts = list(t.args) if t.op == "tuple" else [t]
        res = False
        for x in ts:
            hn = self.exc_name(x)
            if n is None or hn is None:
                res = None
                continue
            if n == hn:
                return True
            a, b = getattr(_b, n, None), getattr(_b, hn, None)
            if isinstance(a, type) and isinstance(b, type):
                if issubclass(a, b):
                    return True
            elif hn in ("Exception", "BaseException"):
                return True
            elif n is not None and a is None:
                res = None if res is False else res
        return res

    def exc_name(self, e):
        """Name of the exception class a raise produces."""
        if e.op == "ext":
            return e.args[0].split(".")[-1]
        if e.op == "call" and isinstance(e.args[0], str):
            return e.args[0].split(".")[-1]
        if e.op == "class":
            return e.args[1]
        if e.op == "excinst":
            return e.args[0]
        return None

    def exc_is(self, e, name):
        """Is exception e an instance of builtin class `name`?"""
        n = self.exc_name(e)
        if n is None:
            return None
        if n == name:
            return True
        a, b = getattr(_b, n, None), getattr(_b, name, None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        if n == "AxisError":
            return name in ("ValueError", "IndexError", "Exception", "LookupError")
        for (m, c), ci in self.p.classes.items():
            if c == n:
                for b2 in ci.bases:
                    if self.exc_is(b2, name):
                        return True
        return False

    def x_Match(self, s, fr, st, out):
        for st1, subj in self.ev(s.subject, fr, st):
            pending = [st1]
            for case in s.cases:
                nxt = []
                for z in pending:
                    for z2, b in self.pattern(case.pattern, subj, fr, z):
                        if not b:
                            nxt.append(z2)
                            continue
                        if case.guard is not None:
                            for z3, g in self.test(case.guard, fr, z2):
                                if g:
                                    self._absorb(out, self.exec_block(case.body, fr, z3))
                                else:
                                    nxt.append(z3)
                        else:
                            self._absorb(out, self.exec_block(case.body, fr, z2))
                pending = nxt
            out.normal.extend(pending)

    @staticmethod
    def _absorb(out, o):
        out.normal.extend(o.normal)
        out.ret.extend(o.ret)
        out.brk.extend(o.brk)
        out.cont.extend(o.cont)

    def pattern(self, p, subj, fr, st):
        """-> list of (state, matched)."""
        if isinstance(p, ast.MatchValue):
            res = []
            for s1, v in self.ev(p.value, fr, st):
                res.extend(self.branch(s1, self.cmp("eq", subj, v, s1)))
            return res
        if isinstance(p, ast.MatchSingleton):
            return self.branch(st, self.cmp("is", subj, const(p.value), st))
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.setname(p.name, subj, fr, st)
                return [(st, True)]
            res = []
            for s1, b in self.pattern(p.pattern, subj, fr, st):
                if b and p.name:
                    self.setname(p.name, subj, fr, s1)
                res.append((s1, b))
            return res
        if isinstance(p, ast.MatchOr):
            pend, res = [st], []
            for q in p.patterns:
                nxt = []
                for z in pend:
                    for z2, b in self.pattern(q, subj, fr, z):
                        (res if b else nxt).append((z2, True) if b else z2)
                pend = nxt
            return self._merge_pairs(res) + [(z, False) for z in pend]
        if isinstance(p, ast.MatchClass):
            res = []
            for s1, c in self.ev(p.cls, fr, st):
                res.extend(self.branch(s1, mk("isinstance", subj, c)))
            return res
        if isinstance(p, ast.MatchSequence):
            its = self.seq_items(subj, st) if not self.is_arr(subj) else None
            if its is not None and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                if len(its) != len(p.patterns):
                    return [(st, False)]
                pend, res = [st], []
                for q, x in zip(p.patterns, its):
                    nxt = []
                    for z in pend:
                        for z2, b in self.pattern(q, x, fr, z):
                            if b:
                                nxt.append(z2)
                            else:
                                res.append((z2, False))
                    pend = nxt
                return [(z, True) for z in pend] + res
            if self.is_arr(subj) or is_const(subj) or (subj.op == "sym" and subj.args[1] in ("int", "str", "array", "num", "bool")):
                return [(st, False)]
            return self.branch(st, mk("seqmatch", subj, ast.unparse(p)))
        return self.branch(st, mk("patmatch", subj, ast.unparse(p)))

    def _merge_pairs(self, res):
        sts = self.merge([z for z, _ in res])
        return [(z, True) for z in sts]

    def x_While(self, s, fr, st, out):
        self._loop(s, fr, st, out, None, s.test)

    def x_For(self, s, fr, st, out):
        for st1, it in self.ev(s.iter, fr, st):
            items = self.concrete_iter(it, st1)
            if items is not None and len(items) <= 40:
                cur = [st1]
                for x in items:
                    nxt = []
                    for c in cur:
                        for c2 in self.assign(s.target, x, fr, c):
                            o = self.exec_block(s.body, fr, c2)
                            nxt.extend(o.normal)
                            nxt.extend(o.cont)
                            out.normal.extend(o.brk)
                            out.ret.extend(o.ret)
                    cur = self.merge(nxt)
                    if len(cur) > self.cfg.maxpaths:
                        raise Limit("too many paths (unrolled loop)")
                for c in cur:
                    self._absorb(out, self.exec_block(s.orelse, fr, c))
                continue
            self._loop(s, fr, st1, out, it, None)

    def concrete_iter(self, it, st):
        if self.cfg.iter_fn is not None and it.op not in ("tuple", "ref", "const"):
            r = self.cfg.iter_fn(it)
            if r is not None:
                return r
        if it.op == "tuple":
            return list(it.args)
        if it.op == "ref":
            o = st.h(it)
            if o.kind in ("list", "set") and o.rest is None and not any(x.op in ("each", "starof") for x in o.items):
                return list(o.items)
            if o.kind == "dict" and o.rest is None and not any(k.op == "each" for k in o.items):
                return list(o.items)
            return None
        if it.op == "call" and it.args[0] == "builtins.range" and all(is_const(x) and isinstance(cval(x), int) for x in it.args[1]):
            try:
                r = range(*[cval(x) for x in it.args[1]])
            except (TypeError, ValueError):
                return None
            return [const(i) for i in r] if len(r) <= 40 else None
        if it.op == "zipv":
            cols = [self.concrete_iter(x, st) for x in it.args[0]]
            if all(c is not None for c in cols):
                return [tup(*row) for row in zip(*cols)]
            return None
        if it.op == "enumv":
            c = self.concrete_iter(it.args[0], st)
            if c is not None and is_const(it.args[1]) and isinstance(cval(it.args[1]), int):
                return [tup(const(i + cval(it.args[1])), x) for i, x in enumerate(c)]
            return None
        if it.op == "const" and isinstance(cval(it), str) and len(cval(it)) <= 40:
            return [const(ch) for ch in cval(it)]
        if it.op == "dictkeys" and it.args[0].op == "ref":
            return self.concrete_iter(it.args[0], st)
        if it.op == "dictitems":
            o = st.h(it.args[0]) if it.args[0].op == "ref" else None
            if o is not None and o.rest is None and not any(k.op == "each" for k in o.items):
                return [tup(k, v) for k, v in o.items.items()]
            return None
        if it.op == "listv" and not any(isinstance(x, T) and x.op in ("each", "starof") for x in it.args):
            return list(it.args)
        if it.op == "shape":
            n = self.ndim(it.args[0])
            if n is not None:
                return [self.dim(it.args[0], i) for i in range(n)]
        return None

    def elem(self, it, st=None):
        """Generic element of an iterable."""
        if it.op == "zipv":
            return tup(*[self.elem(x, st) for x in it.args[0]])
        if it.op == "enumv":
            i = mk("idx", it.args[0])
            if not is_const(it.args[1], 0):
                i = mk("add", i, it.args[1])
            return tup(i, self.elem(it.args[0], st))
        if it.op == "dictitems":
            return tup(mk("elemkey", it.args[0]), mk("elemval", it.args[0]))
        if it.op == "comp":
            return it.args[2]
        if it.op == "ref" and st is not None:
            o = st.h(it)
            if o.kind == "list" and len(o.items) == 1 and o.items[0].op == "each":
                return mk("elem", o.items[0])
            return mk("elem", it)
        if it.op == "call" and it.args[0] == "builtins.reversed":
            return mk("elem", it)
        return mk("elem", it)

    def _loop(self, s, fr, st, out, it, test):
        key = (fr.mod, s.lineno, s.col_offset) + fr.path
        assigned = set()
        for n in _scope(s.body):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                assigned.add(n.id)
        # objects reachable before the loop whose contents the loop may change become generic inside
        itf = self.freeze(it, st) if it is not None else mk("while", ast.unparse(test))
        pre = st.fork()
        env = st.envs[fr.fid]
        for n in sorted(assigned):
            if n in env and fr.fi is not None and n not in fr.fi.globals:
                st.setvar(fr.fid, n, mk("phi", key, n, env[n]))
        self.event(st, "loop", fr, s, itf)
        self.loops.append(itf)
        try:
            starts = []
            if it is not None:
                starts = self.assign(s.target, self.elem(it, st), fr, st)
            else:
                for z, b in self.test(test, fr, st):
                    if b:
                        starts.append(z)
                    else:
                        out.normal.append(z)
            ends = []
            for z in starts:
                o = self.exec_block(s.body, fr, z)
                ends.extend(o.normal)
                ends.extend(o.cont)
                for y in o.brk:
                    out.normal.append(self._loop_post(y, pre, fr, itf, assigned, key))
                out.ret.extend(o.ret)
        finally:
            self.loops.pop()
        ends = self.merge(ends)
        for z in ends:
            for n in sorted(assigned & set(env)):
                v = z.envs[fr.fid].get(n)
                if v is not None:
                    self.event(z, "step", fr, s, mk("phi", key, n, env[n]), v)
        post = [self._loop_post(z, pre, fr, itf, assigned, key) for z in ends]
        if not self.cfg.nonempty or not post:
            post.append(pre)
        for z in self.merge(post):
            self._absorb(out, self.exec_block(s.orelse, fr, z))

    def _loop_post(self, z, pre, fr, itf, assigned, key):
        for oid, o in list(z.heap.items()):
            p = pre.heap.get(oid)
            if p is None or p is o:
                continue
            if o.kind in ("list", "set") and len(o.items) >= len(p.items) and o.items[:len(p.items)] == p.items:
                new = o.items[len(p.items):]
                if new:
                    c = o.copy()
                    c.items = p.items + [x if x.op == "each" and x.args[0] is itf else mk("each", itf, x) for x in new]
                    z.heap[oid] = c
            elif o.kind == "dict":
                c = o.copy()
                c.items = {}
                for k, v in o.items.items():
                    if k in p.items and p.items[k] is v:
                        c.items[k] = v
                    elif k.op == "const":
                        c.items[k] = mk("each", itf, v)
                    else:
                        c.items[mk("each", itf, k)] = mk("each", itf, v)
                z.heap[oid] = c
        env = z.envs[fr.fid]
        penv = pre.envs[fr.fid]
        ne = env.copy()
        for n in assigned:
            v = env.get(n)
            if v is None:
                continue
            if n in penv:
                if v.op == "phi" and v.args[0] == key and v.args[1] == n:
                    ne[n] = penv[n]
                elif v is not penv[n]:
                    ne[n] = mk("loopout", key, itf, penv[n], v) if v.op != "ref" else v
            else:
                ne[n] = mk("last", itf, v) if v.op not in ("ref", "const") else v
        z.envs[fr.fid] = ne
        return z

    # ------------------------------------------------------------------ names and targets
    def setname(self, name, v, fr, st):
        if fr.fi is None:
            st.setvar(fr.fid, name, v)
            return
        if name in fr.fi.globals:
            st.setvar(("mod", fr.mod), name, v)
            return
        if name in fr.fi.nonlocals:
            for fid in fr.chain:
                if name in st.envs.get(fid, {}):
                    st.setvar(fid, name, v)
                    return
        st.setvar(fr.fid, name, v)

    def delname(self, name, fr, st):
        if fr.fi is not None and name in fr.fi.globals:
            st.delvar(("mod", fr.mod), name)
        else:
            st.delvar(fr.fid, name)

    def assign(self, t, v, fr, st):
        """-> list of states"""
        if isinstance(t, ast.Name):
            if fr.fi is not None and t.id in fr.fi.globals:
                self.event(st, "gwrite", fr, t, fr.mod, t.id, v)
            self.setname(t.id, v, fr, st)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, v, fr, st)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, fr, st)
        if isinstance(t, ast.Attribute):
            res = []
            for s1, b in self.ev(t.value, fr, st):
                if b.op == "ref":
                    s1.hw(b).attrs[t.attr] = v
                self.event(s1, "setattr", fr, t, b, t.attr, v, *(("temp",) if isinstance(t.value, ast.Call) else ()))
                if b.op == "module":
                    s1.setvar(("mod", b.args[0]), t.attr, v)
                if b.op == "class":
                    s1.envs.setdefault(("cls",) + b.args, {})
                    s1.setvar(("cls",) + b.args, t.attr, v)
                res.append(s1)
            return res
        if isinstance(t, ast.Subscript):
            res = []
            for s1, b in self.ev(t.value, fr, st):
                for s2, i in self.ev(t.slice, fr, s1):
                    self.store(b, i, v, fr, s2, t)
                    res.append(s2)
            return res
        self.notes.append(f"unsupported target {type(t).__name__}")
        return [st]

    def store(self, b, i, v, fr, st, node):
        self.event(st, "setitem", fr, node, b, i, v)
        if b.op == "ref":
            o = st.h(b)
            if o.kind == "dict":
                self.event(st, "mutate", fr, node, b, "item assignment")
                st.hw(b).items[i] = v
                return
            if o.kind == "list":
                self.event(st, "mutate", fr, node, b, "item assignment")
                if is_const(i) and isinstance(cval(i), int) and -len(o.items) <= cval(i) < len(o.items):
                    st.hw(b).items[cval(i)] = v
                else:
                    o2 = st.hw(b)
                    o2.items = [mk("maybe", x, v) for x in o2.items]
                return
            return
        self.event(st, "mutate", fr, node, b, "item assignment")
        if self.roots(b) == frozenset([b]) or b.op in ("alloc", "store"):
            nv = mk("store", b, i, self.freeze(v, st))
            self.replace(st, b, nv)

    def unpack(self, elts, v, fr, st):
        n = len(elts)
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.iter_items(v, st)
        if items is None and v.op == "shape":
            nd = self.ndim(v.args[0])
            if nd is not None:
                items = [self.dim(v.args[0], k) for k in range(nd)]
        cur = [st]
        if items is not None and not star and len(items) != n:
            # wrong arity: ValueError at run time
            self.event(st, "unpack-mismatch", fr, elts[0], v, n)
            self.raise_(st, mk("excinst", "ValueError"))
            return []
        for k, e in enumerate(elts):
            if items is not None:
                if star:
                    a, b = star[0], len(elts) - star[0] - 1
                    if k < a:
                        x = items[k]
                    elif k == a:
                        x = tup(*items[a:len(items) - b])
                    else:
                        x = items[len(items) - (n - k)]
                else:
                    x = items[k]
            else:
                x = self.getitem(v, const(k), st) if not star else mk("unpack", v, k)
            cur = [z for c in cur for z in self.assign(e, x, fr, c)]
        return cur

    def iter_items(self, v, st):
        r = self.seq_items(v, st)
        if r is None and v.op in ("zipv", "enumv", "dictkeys", "dictitems"):
            r = self.concrete_iter(v, st)
        return r

    def seq_items(self, v, st):
        if v.op == "tuple":
            return list(v.args)
        if v.op == "listv":
            if any(isinstance(x, T) and x.op in ("each", "starof") for x in v.args):
                return None
            return list(v.args)
        if self.cfg.iter_fn is not None and v.op not in ("ref", "const"):
            r = self.cfg.iter_fn(v)
            if r is not None:
                return r
        if v.op == "ref" and v.args[0] in st.heap:
            o = st.h(v)
            if o.kind == "list" and o.rest is None and not any(x.op in ("each", "starof") for x in o.items):
                return list(o.items)
            if o.kind == "set" and o.rest is None:
                return list(o.items)
        return None

    # ------------------------------------------------------------------ conditions
    def norm(self, t):
        pol = True
        while True:
            if t.op == "not":
                t, pol = t.args[0], not pol
            elif t.op == "ne":
                t, pol = mk("eq", *t.args), not pol
            elif t.op == "isnot":
                t, pol = mk("is", *t.args), not pol
            elif t.op == "notin":
                t, pol = mk("in", *t.args), not pol
            elif t.op == "gt":
                t = mk("lt", t.args[1], t.args[0])
            elif t.op == "ge":
                t, pol = mk("lt", *t.args), not pol
            elif t.op == "le":
                t, pol = mk("lt", t.args[1], t.args[0]), not pol
            elif t.op == "call" and t.args[0] == "builtins.bool" and len(t.args[1]) == 1:
                t = t.args[1][0]
            else:
                break
        if t.op in ("eq", "is"):
            a, b = t.args
            if a.n > b.n:
                t = mk(t.op, b, a)
        return t, pol

    def decide(self, st, t):
        """Truth value of a term on this path, or None."""
        if t.op == "const":
            return bool(cval(t))
        key, pol = self.norm(t)
        v = st.conds.get(key)
        if v is None:
            v = self.cfg.facts(key)
        if v is None:
            v = self._decide(st, key)
        if v is None:
            return None
        return v if pol else not v

    def _decide(self, st, t):
        o = t.op
        if o == "const":
            return bool(cval(t))
        if o == "and":
            vs = [self.decide(st, x) for x in t.args]
            if any(v is False for v in vs):
                return False
            return True if all(v is True for v in vs) else None
        if o == "or":
            vs = [self.decide(st, x) for x in t.args]
            if any(v is True for v in vs):
                return True
            return False if all(v is False for v in vs) else None
        if o == "tuple":
            return len(t.args) > 0
        if o in ("rematch", "repat"):
            return True
        if o == "listv" or o == "setv" or o == "dictv":
            return len(t.args) > 0 if not any(isinstance(x, T) and x.op in ("each", "starof") for x in t.args) else None
        if o == "ref":
            h = st.h(t)
            if h.kind in ("list", "dict", "set"):
                if h.items and not all((x.op in ("each", "starof")) for x in h.items):
                    return True
                if not h.items and h.rest is None:
                    return False
                return None
            return True
        if o in ("func", "class", "closure", "bound", "module"):
            return True
        if o == "eq":
            return self._eq(st, *t.args)
        if o == "lt":
            a, b = t.args
            if is_const(a) and is_const(b):
                try:
                    return bool(cval(a) < cval(b))
                except TypeError:
                    return None
            return None
        if o == "is":
            a, b = t.args
            if a is b and a.op != "const":
                return True
            if is_const(a) and is_const(b):
                return cval(a) is cval(b) or (cval(a) == cval(b) and type(cval(a)) is type(cval(b)))
            for x, y in ((a, b), (b, a)):
                if is_const(x, None):
                    if self.nonnull(y, st):
                        return False
                    if y.op == "kwget":
                        e = st.conds.get(mk("haskw", y.args[0], y.args[1]))
                        if e is False:
                            return is_const(y.args[2], None)
            ta, tb = _tyterm(a), _tyterm(b)
            if ta and tb:
                return ta == tb
            if a.op in ("ext", "class", "func") and b.op in ("ext", "class", "func"):
                return a is b
            # identity with a constant of another kind
            for x, y in ((a, b), (b, a)):
                if is_const(x, True, False) and y.op == "sym" and y.args[1] not in ("any", "bool"):
                    return False
            return None
        if o == "in":
            return self._in(st, *t.args)
        if o == "isinstance":
            return self.isinst(t.args[0], t.args[1], st)
        if o == "call" and t.args[0] in ("builtins.issubclass", "numpy.issubdtype") and len(t.args[1]) == 2:
            return self._subdtype(t.args[1][0], t.args[1][1])
        if o == "sym" and t.args[1] == "true":
            return True
        if o == "haskw":
            if self.cfg.kwabsent:
                return False
        if o == "ext":
            return True
        return None

    def _subdtype(self, x, k):
        if x.op == "attr" and x.args[1] == "type":
            x = x.args[0]
        if not (x.op == "attr" and x.args[1] == "dtype"):
            return None
        d = self.dtype(x.args[0])
        fam = {"float": "f", "pyfloat": "f"}.get(d) or (("u" if d.startswith("uint") else "i" if d.startswith("int") else "f" if d.startswith("float")
                                                      else "b") if d in _EXACT_DT else None)
        if fam is None:
            return None
        if k.op in ("tuple", "listv"):
            r = [self._subdtype(x, q) for q in k.args]
            return True if any(v is True for v in r) else None if any(v is None for v in r) else False
        if k.op != "ext":
            return None
        n = k.args[0].split(".")[-1]
        table = {"integer": "iu", "signedinteger": "i", "unsignedinteger": "u", "floating": "f", "inexact": "f", "number": "iuf", "generic": "iufb",
                 "bool_": "b", "complexfloating": ""}
        if n in table:
            return fam in table[n]
        if n in _EXACT_DT and d in _EXACT_DT:
            return n == d
        return None

    def nonnull(self, y, st):
        if y.op in ("tuple", "ref", "func", "class", "closure", "ext", "module", "view", "listv", "dictv", "setv", "shape",
                    "dim", "alloc", "store", "comp", "fstr", "each", "idx", "slice", "bound", "zipv", "enumv", "join", "rematch",
                    "repat"):
            return True
        if y.op in ARITH or y.op in ("neg",):
            return True
        if y.op == "const":
            return cval(y) is not None
        if y.op == "sym":
            return y.args[1] not in ("any", "opt")
        if y.op == "call" and isinstance(y.args[0], str):
            n = y.args[0]
            if n.startswith(("numpy.", "torch.", "scipy.", "skimage.", "piq.", "os.path.")) or n in (
                    "builtins.float", "builtins.int", "builtins.str", "builtins.len", "builtins.sum", "builtins.abs",
                    "builtins.sorted"):
                return True
        if y.op in ("attr",) and y.args[1] in ("dtype", "shape", "ndim", "size"):
            return True
        return False

    def _eq(self, st, a, b):
        if a is b:
            return None if self.is_arr(a) else True
        if is_const(a) and is_const(b):
            try:
                return bool(cval(a) == cval(b))
            except Exception:
                return None
        if a.op in ("tuple", "listv") and b.op == a.op:
            if len(a.args) != len(b.args):
                return False
            r = [self.decide(st, mk("eq", x, y)) if x is not y else True for x, y in zip(a.args, b.args)]
            if all(x is True for x in r):
                return True
            if any(x is False for x in r):
                return False
            return None
        if a.op == "ext" and b.op == "ext":
            return a.args[0] == b.args[0]
        if a.op == "attr" and b.op == "attr" and a.args[1] == "dtype" and b.args[1] == "dtype":
            da, db = self.dtype(a.args[0]), self.dtype(b.args[0])
            if da in _EXACT_DT and db in _EXACT_DT:
                return da == db
        if a.op in ("shape", "tuple") and b.op in ("shape", "tuple"):
            da, db = self.shape_items(a), self.shape_items(b)
            if da is not None and db is not None:
                return self._eq(st, tup(*da), tup(*db))
        for x, y in ((a, b), (b, a)):
            if is_const(y):
                for k, v in st.conds.items():
                    if v and k.op == "eq" and x in k.args:
                        z = k.args[0] if k.args[1] is x else k.args[1]
                        if is_const(z) and cval(z) != cval(y):
                            return False
                if x.op in ("tuple", "ref", "listv", "func", "class", "view"):
                    if not self.is_arr(x):
                        return False
                if is_const(y, None) and self.nonnull(x, st) and not self.is_arr(x):
                    return False
                if isinstance(cval(y), str) and x.op == "sym" and x.args[1] in ("int", "num", "bool"):
                    return False
                if x.op == "shape" and not is_const(y):
                    return None
            if x.op == "attr" and x.args[1] == "dtype" and (y.op == "ext" or is_const(y)):
                d = self.dtype(x.args[0])
                yn = y.args[0].split(".")[-1] if y.op == "ext" else cval(y)
                if d in _EXACT_DT and isinstance(yn, str):
                    return d == {"bool_": "bool", "double": "float64", "single": "float32"}.get(yn, yn)
        return None

    def shape_items(self, t):
        if t.op == "tuple":
            return list(t.args)
        n = self.ndim(t.args[0])
        return None if n is None else [self.dim(t.args[0], i) for i in range(n)]

    def _in(self, st, x, c):
        if c.op == "dictkeys" and c.args[0].op == "ref" and c.args[0].args[0] in st.heap:
            c = c.args[0]
        items = self.seq_items(c, st) if c.op != "setv" else list(c.args)
        if items is None and c.op == "ref" and st.h(c).kind == "dict":
            h = st.h(c)
            if x in h.items:
                return True
            if is_const(x):
                if h.rest is None:
                    return False if all(is_const(k) for k in h.items) else None
                k = self.restkey(h.rest, x)
                if k is None:
                    return False
                return self.decide(st, k)
            if h.rest is None and not any(k.op == "each" for k in h.items):
                rs = [self.decide(st, mk("eq", x, k)) for k in h.items]
                return True if any(r is True for r in rs) else False if all(r is False for r in rs) else None
            return None
        if items is None:
            if c.op == "dictv":
                ks = [p[0] for p in c.args]
                if x in ks:
                    return True
            return None
        rs = []
        for i in items:
            k, pol = self.norm(mk("eq", x, i))
            r = True if x is i and not self.is_arr(x) else self.decide(st, mk("eq", x, i))
            rs.append(r)
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None

    def restkey(self, rest, key):
        """Condition term 'the unknown keyword set contains key' (None = certainly not)."""
        if rest.op == "minus":
            if is_const(key) and cval(key) in rest.args[1]:
                return None
            return mk("haskw", rest.args[0], cval(key))
        return mk("haskw", rest, cval(key)) if is_const(key) else None

    def isinst(self, x, c, st):
        cs = list(c.args) if c.op == "tuple" else [c]
        res = []
        for k in cs:
            res.append(self._isinst1(x, k, st))
        if any(r is True for r in res):
            return True
        if all(r is False for r in res):
            return False
        return None

    def _isinst1(self, x, k, st):
        kn = k.args[0] if k.op == "ext" else (k.args[0] + "." + k.args[1] if k.op == "class" else None)
        if kn is None:
            if k.op == "bitor":
                return self.isinst(x, tup(*k.args), st)
            return None
        short = kn.split(".")[-1]
        if self.cfg.isinst_fn is not None:
            r = self.cfg.isinst_fn(x, short, st)
            if r is not None:
                return r
        py = getattr(_b, short, None) if kn.startswith("builtins.") else None
        if is_const(x):
            if isinstance(py, type):
                return isinstance(cval(x), py)
            return False
        ty = None
        if x.op == "sym":
            ty = x.args[1]
            if ty in ("num", "int", "float", "str", "bool") and k.op == "class":
                return False
        if x.op == "tuple":
            return py is tuple if isinstance(py, type) else False
        if x.op in ("listv",):
            return py is list
        if x.op == "ref":
            h = st.h(x)
            if h.kind in ("list", "dict", "set"):
                return short == h.kind if py else (False if short in ("ndarray", "ImageArray", "Tensor", "PathLike", "Metric") else None)
            if h.kind == "inst":
                if k.op == "class":
                    return any(m == k for m in self.mro(h.cls))
                return any(m.op == "ext" and m.args[0] == kn for m in self.mro(h.cls)) if py is None or short == "object" else False
            return False
        if self.is_arr(x) or ty == "array":
            if short == "ndarray":
                return True
            if short == "ImageArray":
                return None
            if short in ("str", "PathLike", "Tensor", "list", "tuple", "dict", "int", "float", "bool"):
                return False if short != "Tensor" or not _tensorish(x) else True
            return None
        if ty in ("int", "str", "float", "bool", "num"):
            if short == {"num": "int"}.get(ty, ty) and ty != "num":
                return True
            if isinstance(py, type):
                if ty == "int":
                    return short in ("int", "object")
                if ty == "str":
                    return short in ("str", "object")
                if ty == "float":
                    return short in ("float", "object")
                return None
            if short in ("ndarray", "ImageArray", "Tensor"):
                return False
            if short == "PathLike":
                return False
            return None
        if ty == "pathlike":
            return short == "PathLike"
        if ty == "tensor":
            return short == "Tensor"
        if ty == "metric":
            return short == "Metric" or None
        return None

    def branch(self, st, t):
        """-> [(state, bool)], forking when undecided."""
        d = self.decide(st, t)
        if d is not None:
            return [(st, d)]
        key, pol = self.norm(t)
        a, b = st, st.fork()
        self.assume(a, key, pol)
        self.assume(b, key, not pol)
        return [(a, True), (b, False)]

    def assume(self, st, key, val):
        st.conds[key] = val
        if key.op == "in":
            items = self.seq_items(key.args[1], st) if key.args[1].op != "setv" else list(key.args[1].args)
            if items is not None:
                if not val:
                    for i in items:
                        k, p = self.norm(mk("eq", key.args[0], i))
                        st.conds.setdefault(k, not p)
                elif len(items) == 1:
                    k, p = self.norm(mk("eq", key.args[0], items[0]))
                    st.conds.setdefault(k, p)
            elif key.args[1].op == "ref" and st.h(key.args[1]).kind == "dict" and st.h(key.args[1]).rest is None:
                ks = list(st.h(key.args[1]).items)
                if not val or len(ks) == 1:
                    for i in ks:
                        k, p = self.norm(mk("eq", key.args[0], i))
                        st.conds.setdefault(k, p if val else not p)
            elif key.args[1].op == "ref" and st.h(key.args[1]).kind == "dict" and st.h(key.args[1]).rest is not None:
                k = self.restkey(st.h(key.args[1]).rest, key.args[0])
                if k is not None:
                    st.conds[k] = val
        if key.op == "eq" and val:
            # x == c: contradicting memberships are resolved by _in
            pass

    def test(self, node, fr, st):
        """Evaluate a condition: -> [(state, bool)] with short-circuit."""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            pend, res = [st], []
            for i, v in enumerate(node.values):
                nxt = []
                last = i == len(node.values) - 1
                for z in pend:
                    for z2, b in self.test(v, fr, z):
                        if last:
                            res.append((z2, b))
                        elif b == isand:
                            nxt.append(z2)
                        else:
                            res.append((z2, b))
                pend = nxt
            return self._merge_tests(res)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(z, not b) for z, b in self.test(node.operand, fr, st)]
        res = []
        for z, v in self.ev(node, fr, st):
            res.extend(self.branch(z, v))
        return res

    def _merge_tests(self, res):
        t = self.merge([z for z, b in res if b])
        f = self.merge([z for z, b in res if not b])
        return [(z, True) for z in t] + [(z, False) for z in f]

    # ------------------------------------------------------------------ expressions
    def ev(self, node, fr, st):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            self.notes.append(f"unsupported expression {type(node).__name__} at {self.loc(fr, node)}")
            return [(st, mk("unknown", ast.unparse(node)))]
        r = m(node, fr, st)
        if len(r) > self.cfg.maxpaths:
            raise Limit("too many paths")
        return r

    def evs(self, nodes, fr, st):
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for z, vals in cur:
                for z2, v in self.ev(n, fr, z):
                    nxt.append((z2, vals + [v]))
            cur = nxt
        return cur

    def e_Constant(self, n, fr, st):
        return [(st, const(n.value))]

    def e_Name(self, n, fr, st):
        return [(st, v) for v in [self.lookup(n.id, fr, st, n)] if v is not None]

    def lookup(self, name, fr, st, node):
        if fr.fi is not None and name in fr.fi.locals:
            v = st.envs[fr.fid].get(name)
            if v is None:
                # parameters captured by comprehension frames share fid
                self.event(st, "unbound", fr, node, name)
                self.raise_(st, mk("excinst", "UnboundLocalError"))
                return None
            return v
        for fid in fr.chain:
            e = st.envs.get(fid, {})
            if name in e:
                return e[name]
        e = st.envs.get(("mod", fr.mod), {})
        if name in e:
            if fr.fi is not None:
                m = self.p.modules[fr.mod]
                self.event(st, "gread", fr, node, fr.mod, name, e[name])
            return e[name]
        if fr.fi is None and name in st.envs.get(fr.fid, {}):
            return st.envs[fr.fid][name]
        if hasattr(_b, name):
            return mk("ext", "builtins." + name)
        if fr.chain:
            # a closure reading a variable the enclosing function has not bound
            self.event(st, "unbound", fr, node, name)
            self.raise_(st, mk("excinst", "NameError"))
            return None
        self.event(st, "unbound", fr, node, name)
        self.raise_(st, mk("excinst", "NameError"))
        return None

    def e_Tuple(self, n, fr, st):
        return self._seq(n, fr, st, lambda z, items: tup(*items))

    def _seq(self, n, fr, st, build):
        res = []
        for z, vals in self.evs([e.value if isinstance(e, ast.Starred) else e for e in n.elts], fr, st):
            items = []
            for e, v in zip(n.elts, vals):
                if isinstance(e, ast.Starred):
                    its = self.iter_items(v, z)
                    if its is None:
                        items.append(mk("starof", self.freeze(v, z)))
                    else:
                        items.extend(its)
                else:
                    items.append(v)
            res.append((z, build(z, items)))
        return res

    def e_List(self, n, fr, st):
        return self._seq(n, fr, st, lambda z, items: self.new_list(z, items))

    def e_Set(self, n, fr, st):
        return self._seq(n, fr, st, lambda z, items: mk("setv", *items))

    def e_Dict(self, n, fr, st):
        res = []
        ks = [k if k is not None else ast.Constant(None) for k in n.keys]
        for z, kv in self.evs(ks, fr, st):
            for z2, vv in self.evs(n.values, fr, z):
                d, rest = {}, None
                for kn, k, v in zip(n.keys, kv, vv):
                    if kn is None:
                        if v.op == "ref" and z2.h(v).kind == "dict":
                            h = z2.h(v)
                            d.update(h.items)
                            if h.rest is not None:
                                rest = h.rest if rest is None else mk("join", rest, h.rest)
                                # unknown keywords may override the keys given before
                                for q in list(d):
                                    if q not in h.items and is_const(q):
                                        d[q] = self.kwget(h.rest, cval(q), d[q], z2)
                        else:
                            rest = self.freeze(v, z2) if rest is None else mk("join", rest, self.freeze(v, z2))
                            for q in list(d):
                                if is_const(q):
                                    d[q] = self.kwget(v, cval(q), d[q], z2)
                    else:
                        d[k] = v
                res.append((z2, self.new_dict(z2, d, rest)))
        return res

    def kwget(self, rest, name, default, st):
        k = self.restkey(rest, const(name))
        if k is None:
            return default
        d = self.decide(st, k)
        if d is False or (d is None and self.cfg.kwabsent):
            return default
        base = rest.args[0] if rest.op == "minus" else rest
        if d is True:
            return mk("kwval", base, name)
        return mk("kwget", base, name, default)

    def e_JoinedStr(self, n, fr, st):
        res = []
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]
        for z, vals in self.evs(parts, fr, st):
            out = []
            for v, t in zip(n.values, vals):
                if isinstance(v, ast.FormattedValue):
                    spec = ""
                    if v.format_spec is not None:
                        sp = self.ev(v.format_spec, fr, z)
                        spec = ast.unparse(v.format_spec) if len(sp) != 1 else cval(sp[0][1]) if is_const(sp[0][1]) else sp[0][1]
                    out.append(self.formatted(t, spec, v.conversion, z))
                else:
                    out.append(t)
            res.append((z, fstring(out)))
        return res

    def formatted(self, t, spec, conversion, st):
        if is_const(t) and not spec and conversion in (-1, 115) and (cval(t) is None or isinstance(cval(t), (str, int))):
            return const(str(cval(t)))
        return mk("fmt", self.freeze(t, st), spec)

    def e_FormattedValue(self, n, fr, st):
        return self.ev(n.value, fr, st)

    def e_Attribute(self, n, fr, st):
        res = []
        for z, b in self.ev(n.value, fr, st):
            res.extend(self.getattr(b, n.attr, fr, z, n))
        return res

    def getattr(self, b, name, fr, st, node):
        if b.op == "module":
            e = st.envs.get(("mod", b.args[0]), {})
            if name in e:
                if fr.fi is not None:
                    self.event(st, "gread", fr, node, b.args[0], name)
                return [(st, e[name])]
            sub = b.args[0] + "." + name
            if sub in self.p.modules:
                return [(st, mk("module", sub))]
            return [(st, mk("ext", b.args[0] + "." + name))]
        if b.op == "ext":
            return [(st, mk("ext", b.args[0] + "." + name))]
        if b.op == "super":
            m = self.mro(b.args[0])
            # MRO of the instance's class after the current class
            inst = b.args[1]
            order = self.mro(st.h(inst).cls) if inst.op == "ref" and st.h(inst).cls is not None else m
            if b.args[0] in order:
                order = order[order.index(b.args[0]) + 1:]
            for c in order:
                if c.op == "class":
                    ci = self.p.classes.get(c.args)
                    if ci and name in ci.methods:
                        fi = ci.methods[name]
                        return [(st, mk("bound", inst, mk("func", fi.mod, fi.qual), c))]
            return [(st, mk("supermethod", inst, name))]
        if b.op == "class":
            ov = st.envs.get(("cls",) + b.args, {})
            if name in ov:
                self.event(st, "cread", fr, node, b, name)
                return [(st, ov[name])]
            for c in self.mro(b):
                if c.op == "class":
                    ci = self.p.classes.get(c.args)
                    if ci is None:
                        continue
                    if name in ci.methods:
                        fi = ci.methods[name]
                        return [(st, mk("func", fi.mod, fi.qual))]
                    if name in ci.attrs:
                        self.event(st, "cread", fr, node, c, name)
                        return [(st, ci.attrs[name])]
            if name == "__name__":
                return [(st, const(b.args[1]))]
            return [(st, mk("attr", b, name))]
        if b.op == "ref":
            h = st.h(b)
            if h.kind == "inst":
                if name in h.attrs:
                    self.event(st, "aread", fr, node, b, name)
                    return [(st, h.attrs[name])]
                if name == "__class__":
                    return [(st, h.cls)]
                if h.cls is not None:
                    for c in self.mro(h.cls):
                        if c.op == "class":
                            ci = self.p.classes.get(c.args)
                            if ci is None:
                                continue
                            if name in ci.methods:
                                fi = ci.methods[name]
                                f = mk("func", fi.mod, fi.qual)
                                if "property" in fi.decos or any(d.endswith("cached_property") for d in fi.decos):
                                    return self.call(mk("bound", b, f, c), [], [], None, None, fr, st, node)
                                if "staticmethod" in fi.decos:
                                    return [(st, f)]
                                if "classmethod" in fi.decos:
                                    return [(st, mk("bound", h.cls, f, c))]
                                return [(st, mk("bound", b, f, c))]
                            if name in ci.attrs:
                                self.event(st, "cread", fr, node, c, name)
                                return [(st, ci.attrs[name])]
                if name == "__str__":
                    return self.getattr(b, "__repr__", fr, st, node)
                self.event(st, "aread", fr, node, b, name)
                if name in _OBJ_DUNDERS:
                    return [(st, mk("attr", b, name))]
                if h.rest is None and name not in ("__dict__", "__doc__"):
                    self.event(st, "noattr", fr, node, b, name)
                    self.raise_(st, mk("excinst", "AttributeError"))
                    return []
                return [(st, mk("attr", b, name))]
            return [(st, mk("attr", b, name))]
        if name == "ndim":
            nd = self.ndim(b)
            if nd is not None:
                return [(st, const(nd))]
            return [(st, mk("attr", b, "ndim"))]
        if name == "shape":
            return [(st, mk("shape", b))]
        if name in ("max", "min", "bits") and b.op == "call" and b.args[0] in ("numpy.iinfo", "numpy.finfo") and len(b.args[1]) == 1:
            r = _TYPE_LIMITS.get(self.exact_dtype(b.args[1][0]))
            if r is not None:
                return [(st, const(r[("min", "max", "bits").index(name)]))]
        if name == "T":
            nd = self.ndim(b)
            if nd is not None:
                return [(st, self.permute(b, tuple(reversed(range(nd)))))]
        if b.op == "sym" and b.args[1] in ("str", "int"):
            return [(st, mk("attr", b, name))]
        if b is fr.selfval and fr.cls is not None and not name.startswith("__"):
            # a method of the class whose method is analysed with an opaque self
            for c in self.mro(fr.cls):
                ci = self.p.classes.get(c.args) if c.op == "class" else None
                if ci is not None and name in ci.methods and not ci.methods[name].decos:
                    fi = ci.methods[name]
                    return [(st, mk("bound", b, mk("func", fi.mod, fi.qual), c))]
        self.event(st, "tread", fr, node, b, name)
        return [(st, mk("attr", b, name))]

    def mro(self, c):
        res = []

        def go(x):
            if x in res:
                return
            res.append(x)
            if x.op == "class":
                ci = self.p.classes.get(x.args)
                if ci:
                    for b in ci.bases:
                        go(b)
        go(c)
        # C3 for this repo's simple hierarchies: DFS order is adequate, but bases shared late go last
        return res

    def e_Subscript(self, n, fr, st):
        res = []
        for z, b in self.ev(n.value, fr, st):
            for z2, i in self.ev(n.slice, fr, z):
                if b.op == "ref" and z2.h(b).kind == "dict":
                    h = z2.h(b)
                    self.event(z2, "dread", fr, n, b, i)
                    if i in h.items:
                        res.append((z2, h.items[i]))
                        continue
                    same = [k for k in h.items if k.op != "each" and self.decide(z2, mk("eq", i, k)) is True] if not is_const(i) else []
                    if same:
                        res.append((z2, h.items[same[-1]]))
                        continue
                    if h.rest is None and is_const(i) and all(is_const(k) for k in h.items):
                        self.event(z2, "keyerror", fr, n, b, i)
                        self.raise_(z2, mk("excinst", "KeyError"))
                        continue
                    if h.rest is not None and is_const(i):
                        k = self.restkey(h.rest, i)
                        if k is None:
                            self.event(z2, "keyerror", fr, n, b, i)
                            self.raise_(z2, mk("excinst", "KeyError"))
                            continue
                        base = h.rest.args[0] if h.rest.op == "minus" else h.rest
                        res.append((z2, mk("kwval", base, cval(i))))
                        continue
                    res.append((z2, mk("getitem", self.freeze(b, z2), self.freeze(i, z2))))
                    continue
                if is_const(b, None):
                    self.raise_(z2, mk("excinst", "TypeError"))
                    continue
                if b.op == "ref":
                    self.event(z2, "lread", fr, n, b, i)
                res.append((z2, self.getitem(b, i, z2)))
        return res

    def e_Slice(self, n, fr, st):
        res = []
        parts = [p if p is not None else ast.Constant(None) for p in (n.lower, n.upper, n.step)]
        for z, (a, b, c) in self.evs(parts, fr, st):
            res.append((z, mk("slice", a, b, c)))
        return res

    def e_Starred(self, n, fr, st):
        return [(z, mk("starof", self.freeze(v, z))) for z, v in self.ev(n.value, fr, st)]

    def e_UnaryOp(self, n, fr, st):
        res = []
        for z, v in self.ev(n.operand, fr, st):
            if isinstance(n.op, ast.Not):
                d = self.decide(z, v)
                res.append((z, const(not d) if d is not None else mk("not", v)))
            elif isinstance(n.op, ast.USub):
                if is_const(v) and isinstance(cval(v), (int, float, complex)):
                    res.append((z, const(-cval(v))))
                else:
                    res.append((z, mk("neg", v)))
            elif isinstance(n.op, ast.UAdd):
                res.append((z, v))
            else:
                res.append((z, mk("invert", v)))
        return res

    def e_BinOp(self, n, fr, st):
        res = []
        for z, (a, b) in self.evs([n.left, n.right], fr, st):
            op = BINOPS[type(n.op)]
            v = self.binop(op, a, b, z)
            self.event(z, "binop", fr, n, op, self.freeze(a, z), self.freeze(b, z), v)
            res.append((z, v))
        return res

    def binop(self, op, a, b, st):
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            if isinstance(x, (int, float, str, complex)) and isinstance(y, (int, float, str, complex)):
                try:
                    r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "div": lambda: x / y,
                         "floordiv": lambda: x // y, "mod": lambda: x % y,
                         "pow": lambda: x ** y if abs(y) < 128 else None}.get(op, lambda: None)()
                    if r is not None and (not isinstance(r, str) or len(r) < 2000):
                        return const(r)
                except Exception:
                    pass
        if op == "add":
            xs, ys = self.seq_items(a, st), self.seq_items(b, st)
            if a.op == "tuple" and b.op == "tuple":
                return tup(*(a.args + b.args))
            if a.op == "ref" and b.op == "ref" and st.h(a).kind == "list" and st.h(b).kind == "list":
                return self.new_list(st, st.h(a).items + st.h(b).items)
            if a.op == "ref" and st.h(a).kind == "list":
                return self.new_list(st, st.h(a).items + (ys if ys is not None else [mk("starof", self.freeze(b, st))]))
            if b.op == "ref" and st.h(b).kind == "list":
                return self.new_list(st, [mk("starof", self.freeze(a, st))] + st.h(b).items)
            if _strish(a) and _strish(b):
                return _concat(a, b)
        if op == "mul":
            for p, q in ((a, b), (b, a)):
                if p.op == "ref" and st.h(p).kind == "list" and is_const(q) and isinstance(cval(q), int) and cval(q) <= 16:
                    return self.new_list(st, st.h(p).items * cval(q))
                if p.op == "tuple" and is_const(q) and isinstance(cval(q), int) and cval(q) <= 16:
                    return tup(*(p.args * cval(q)))
        if op == "mod" and is_const(a) and isinstance(cval(a), str):
            parts = re.split(r"(%%|%s|%d|%i|%\.[0-9]+f|%[a-zA-Z])", cval(a))
            items = list(b.args) if b.op == "tuple" else [b]
            if sum(x not in ("%%",) and x.startswith("%") for x in parts[1::2]) == len(items) and all(re.fullmatch(r"%%|%s|%d|%i|%\.[0-9]+f", x) for x in parts[1::2]) \
                    and not any("%" in x for x in parts[::2]):
                out = []
                for x in parts:
                    out.append(const("%") if x == "%%" else self.formatted(items.pop(0), x[1:] if x.endswith("f") else "", -1, st) if x.startswith("%") else const(x))
                return fstring([x for x in out if not is_const(x, "")])
        return mk(op, self.freeze(a, st), self.freeze(b, st))

    def cmp(self, op, a, b, st):
        t = mk(op, self.freeze_cmp(a, st), self.freeze_cmp(b, st))
        d = self.decide(st, t)
        return const(d) if d is not None else t

    def freeze_cmp(self, v, st):
        if v.op == "ref" and st.h(v).kind == "dict":
            return v
        if v.op == "ref" and st.h(v).kind in ("list", "set"):
            return self.freeze(v, st)
        return v

    def e_Compare(self, n, fr, st):
        res = []
        for z, vals in self.evs([n.left] + n.comparators, fr, st):
            terms = [self.cmp(CMPS[type(o)], vals[i], vals[i + 1], z) for i, o in enumerate(n.ops)]
            for i, o in enumerate(n.ops):
                self.event(z, "cmp", fr, n, CMPS[type(o)], vals[i], vals[i + 1])
            if len(terms) == 1:
                res.append((z, terms[0]))
            else:
                t = mk("and", *terms)
                d = self.decide(z, t)
                res.append((z, const(d) if d is not None else t))
        return res

    def e_BoolOp(self, n, fr, st):
        isand = isinstance(n.op, ast.And)
        pend, res = [st], []
        for i, v in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for z in pend:
                for z2, val in self.ev(v, fr, z):
                    if last:
                        res.append((z2, val))
                        continue
                    for z3, b in self.branch(z2, val):
                        if b == isand:
                            nxt.append(z3)
                        else:
                            # a decided boolean comparison is worth its truth value
                            res.append((z3, const(b) if val.op in ("eq", "ne", "lt", "le", "gt", "ge", "is", "isnot", "in", "notin", "not", "isinstance", "and", "or") else val))
            pend = nxt
        return res

    def e_IfExp(self, n, fr, st):
        res = []
        for z, b in self.test(n.test, fr, st):
            res.extend(self.ev(n.body if b else n.orelse, fr, z))
        return res

    def e_NamedExpr(self, n, fr, st):
        res = []
        for z, v in self.ev(n.value, fr, st):
            for z2 in self.assign(n.target, v, fr, z):
                res.append((z2, v))
        return res

    def e_Lambda(self, n, fr, st):
        fi = FuncInfo(fr.mod, (fr.fi.qual if fr.fi else "<module>") + ".<lambda>", n, None, fr.fi)
        cid = self.new_id()
        self.closures[cid] = (fi, ((fr.fid,) + fr.chain) if fr.fi else (), self.eval_defaults(n, fr, st))
        return [(st, mk("closure", cid))]

    def e_Await(self, n, fr, st):
        return self.ev(n.value, fr, st)

    def e_Yield(self, n, fr, st):
        return [(st, NONE)]

    # comprehensions
    def e_ListComp(self, n, fr, st):
        return self._comp(n, fr, st, "list")

    def e_SetComp(self, n, fr, st):
        return self._comp(n, fr, st, "set")

    def e_GeneratorExp(self, n, fr, st):
        return self._comp(n, fr, st, "gen")

    def e_DictComp(self, n, fr, st):
        return self._comp(n, fr, st, "dict")

    def _comp(self, n, fr, st, kind):
        # nested scope: temporarily bind targets in the current frame, then restore
        tnames = set()
        for g in n.generators:
            for m in ast.walk(g.target):
                if isinstance(m, ast.Name):
                    tnames.add(m.id)
        extra = tnames - (fr.fi.locals if fr.fi else set())
        if fr.fi is not None:
            fr.fi.locals |= extra
        saved = {k: st.envs[fr.fid].get(k) for k in tnames}
        res = self._gen(n, fr, st, kind, 0)
        if fr.fi is not None:
            fr.fi.locals -= extra
        final = []
        for z, acc in res:
            e = z.envs[fr.fid].copy()
            for k in tnames:
                if saved[k] is None:
                    e.pop(k, None)
                else:
                    e[k] = saved[k]
            z.envs[fr.fid] = e
            if kind == "list":
                v = self.new_list(z, acc)
            elif kind == "dict":
                d = {}
                for x in acc:
                    if x.op == "each":
                        d[mk("each", x.args[0], x.args[1].args[0])] = mk("each", x.args[0], x.args[1].args[1])
                    else:
                        d[x.args[0]] = x.args[1]
                v = self.new_dict(z, d)
            elif kind == "set":
                v = mk("setv", *acc)
            else:
                v = mk("listv", *acc)
            final.append((z, v))
        return final

    def _gen(self, n, fr, st, kind, k):
        """-> list of (state, [items])."""
        if k == len(n.generators):
            if kind == "dict":
                return [(z, [tup(a, b)]) for z, (a, b) in self.evs([n.key, n.value], fr, st)]
            return [(z, [v]) for z, v in self.ev(n.elt, fr, st)]
        g = n.generators[k]
        res = []
        for z, it in self.ev(g.iter, fr, st):
            items = self.concrete_iter(it, z)
            if items is not None and len(items) <= 40:
                cur = [(z, [])]
                for x in items:
                    nxt = []
                    for c, acc in cur:
                        for c2 in self.assign(g.target, x, fr, c):
                            for c3, ok in self._ifs(g.ifs, fr, c2):
                                if not ok:
                                    nxt.append((c3, acc))
                                else:
                                    for c4, sub in self._gen(n, fr, c3, kind, k + 1):
                                        nxt.append((c4, acc + sub))
                    cur = nxt
                    if len(cur) > self.cfg.maxpaths:
                        raise Limit("comprehension")
                res.extend(cur)
                continue
            itf = self.freeze(it, z)
            self.loops.append(itf)
            try:
                for c2 in self.assign(g.target, self.elem(it, z), fr, z):
                    filt = []
                    pend = [c2]
                    outs = []
                    for c3, ok in self._ifs(g.ifs, fr, c2, filt):
                        if not ok:
                            if not self.cfg.nonempty:
                                outs.append((c3, []))
                            continue
                        for c4, sub in self._gen(n, fr, c3, kind, k + 1):
                            outs.append((c4, [mk("each", mk("filtered", itf, *filt) if filt else itf, x) for x in sub]))
                    if not outs:
                        outs = [(c2, [])]
                    res.extend(outs)
            finally:
                self.loops.pop()
        return res

    def _ifs(self, ifs, fr, st, filt=None):
        cur = [(st, True)]
        for c in ifs:
            nxt = []
            for z, ok in cur:
                if not ok:
                    nxt.append((z, False))
                    continue
                for z1, v in self.ev(c, fr, z):
                    d = self.decide(z1, v)
                    if d is None:
                        if filt is not None:
                            # element-dependent filter: keep it symbolic instead of forking the path
                            filt.append(self.freeze(v, z1))
                            nxt.append((z1, True))
                        else:
                            nxt.extend(self.branch(z1, v))
                    else:
                        nxt.append((z1, d))
            cur = nxt
        return cur

    # ------------------------------------------------------------------ freezing mutable values
    def freeze(self, v, st, depth=0):
        if not isinstance(v, T):
            return v
        if v.op == "ref" and v.args[0] in st.heap and depth < 6:
            h = st.h(v)
            if h.kind == "list":
                return mk("listv", *[self.freeze(x, st, depth + 1) for x in h.items], *( [mk("starof", h.rest)] if h.rest is not None else []))
            if h.kind == "set":
                return mk("setv", *[self.freeze(x, st, depth + 1) for x in h.items])
            if h.kind == "dict":
                items = [tup(self.freeze(k, st, depth + 1), self.freeze(x, st, depth + 1)) for k, x in h.items.items()]
                if h.rest is not None:
                    items.append(mk("starof", h.rest))
                return mk("dictv", *items)
            return v
        if v.op in ("tuple", "each", "slice") and any(isinstance(x, T) and _hasref(x) for x in v.args):
            return T(v.op, tuple(self.freeze(x, st, depth + 1) for x in v.args))
        return v

    # ------------------------------------------------------------------ arrays
    def is_arr(self, t):
        if t.op == "sym":
            return t.args[1] == "array"
        if t.op in ("view", "alloc", "store"):
            return True
        if t.op in ARITH or t.op in ("neg", "invert", "lt", "le", "gt", "ge", "eq", "ne"):
            return any(isinstance(x, T) and self.is_arr(x) for x in t.args)
        if t.op == "opaque":
            return bool(t.args[2])
        if t.op == "getitem":
            return self.is_arr(t.args[0]) and not self.ndim(t.args[0]) == 1
        if t.op == "call" and isinstance(t.args[0], str):
            n = t.args[0]
            a0 = t.args[1][0] if t.args[1] else None
            if n in ("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.stack", "numpy.concatenate",
                     "numpy.fromfile", "numpy.arange", "numpy.linspace", "numpy.ma.array", "torch.tensor"):
                return True
            if n.startswith(("scipy.ndimage.", "scipy.fft.", "skimage.transform.", "skimage.color.", "skimage.util.")):
                return True
            if n.startswith("numpy.") and n.split(".")[-1] in _REDUCERS:
                kws = dict(t.args[2])
                return "axis" in kws or len(t.args[1]) > 1 and n.split(".")[-1] in ("mean", "std", "sum", "var")
            if n.startswith(("numpy.", "torch.")) and a0 is not None and isinstance(a0, T):
                return any(isinstance(x, T) and self.is_arr(x) for x in t.args[1])
        if t.op == "mcall":
            return self.is_arr(t.args[0]) and t.args[1] in ("unsqueeze", "permute", "squeeze", "numpy", "cpu", "detach", "float", "double")
        if t.op in ("phi",):
            return self.is_arr(t.args[2])
        if t.op == "loopout":
            return self.is_arr(t.args[3])
        if t.op in ("each", "last"):
            return self.is_arr(t.args[1])
        return False

    def ndim(self, t):
        r = self.cfg.ndims.get(t)
        if r is None and self.cfg.ndim_fn is not None:
            r = self.cfg.ndim_fn(t)
        if r is not None:
            return r
        if t.op == "view":
            return len(t.args[1])
        if t.op == "alloc" and t.args[0].endswith("_like"):
            return self.ndim(t.args[1][0])
        if t.op == "alloc" and t.args[1]:
            a = t.args[1][0]
            if a.op == "shape":
                return self.ndim(a.args[0])
            if a.op in ("tuple", "listv"):
                return len(a.args)
        if t.op == "matmul" and self.ndim(t.args[0]) is not None and _lit_rank(t.args[1]) == 2:
            return self.ndim(t.args[0])
        if t.op in ARITH and t.op != "matmul":
            ns = [self.ndim(x) for x in t.args]
            known = [n for n, x in zip(ns, t.args) if n is not None]
            if known and all(n is not None or not self.is_arr(x) for n, x in zip(ns, t.args)):
                return max(known)
            return None
        if t.op in ("neg", "invert", "store"):
            return self.ndim(t.args[0])
        if t.op == "opaque":
            return t.args[2] if isinstance(t.args[2], int) and not isinstance(t.args[2], bool) else None
        if t.op in ("phi",):
            return self.ndim(t.args[2])
        if t.op == "call" and isinstance(t.args[0], str) and t.args[1]:
            if t.args[0] == "skimage.color.rgb2gray":
                n = self.ndim(t.args[1][0])
                return n - 1 if n is not None else None
            if t.args[0] == "numpy.reshape":
                a = t.args[1][1] if len(t.args[1]) > 1 else dict(t.args[2]).get("newshape", dict(t.args[2]).get("shape"))
                if a is not None and a.op in ("tuple", "listv") and not any(x.op in ("each", "starof") for x in a.args):
                    return len(a.args)
                if a is not None and a.op == "shape":
                    return self.ndim(a.args[0])
            if t.args[0] in _SHAPE_PRESERVING or t.args[0].startswith(("scipy.ndimage.",)):
                return self.ndim(t.args[1][0])
            if t.args[0].startswith("numpy.") and t.args[0].split(".")[-1] in _UFUNCS:
                ns = [self.ndim(x) for x in t.args[1]]
                known = [n for n in ns if n is not None]
                return max(known) if known else None
        return None

    def dim(self, t, ax):
        """Extent of axis ax as a term."""
        n = self.ndim(t)
        if n is not None:
            if ax < 0:
                ax += n
            if t.op == "view":
                s = t.args[1][ax] if 0 <= ax < n else None
                if s is not None and s[0] == "new":
                    return const(1)
                if s is not None and not s[2]:
                    return self.dim(t.args[0], s[0])
                if s is not None and s[2]:
                    return mk("dim", t, ax)
            elif t.op in ("neg", "invert", "store") or (t.op == "call" and (t.args[0] in _SHAPE_PRESERVING or t.args[0] == "skimage.color.rgb2gray")):
                inner = t.args[1][0] if t.op == "call" else t.args[0]
                if self.ndim(inner) in (n, n + 1):
                    return self.dim(inner, ax)
            elif t.op == "call" and t.args[0] == "numpy.reshape" and len(t.args[1]) > 1 and t.args[1][1].op in ("tuple", "listv"):
                d = t.args[1][1].args[ax]
                if not (is_const(d) and (not isinstance(cval(d), int) or cval(d) < 0)):
                    return d
            elif t.op == "matmul" and 0 <= ax < n:
                if ax < n - 1:
                    return self.dim(t.args[0], ax)
                k = _lit_shape(t.args[1])
                if k is not None and len(k) == 2:
                    return const(k[1])
            elif t.op == "alloc" and t.args[0].endswith("_like"):
                return self.dim(t.args[1][0], ax)
            elif t.op == "alloc" and t.args[1] and t.args[1][0].op == "shape":
                return self.dim(t.args[1][0].args[0], ax)
            elif t.op == "alloc" and t.args[1] and t.args[1][0].op in ("tuple", "listv"):
                return t.args[1][0].args[ax]
        return mk("dim", t, ax)

    def as_view(self, t):
        """(base, spec, fixed) of an array with known ndim."""
        if t.op == "view":
            return t.args
        n = self.ndim(t)
        if n is None:
            return None
        return (t, tuple((i, False, ()) for i in range(n)), ())

    def mkview(self, base, spec, fixed):
        n = self.ndim(base)
        if not fixed and n is not None and spec == tuple((i, False, ()) for i in range(n)):
            return base
        return mk("view", base, tuple(spec), tuple(sorted(fixed, key=lambda p: p[0])))

    def permute(self, t, perm):
        v = self.as_view(t)
        if v is None:
            return None
        base, spec, fixed = v
        n = len(spec)
        if len(perm) != n:
            return None
        perm = [p + n if p < 0 else p for p in perm]
        if sorted(perm) != list(range(n)):
            return None
        return self.mkview(base, [spec[p] for p in perm], fixed)

    def flip(self, t, axes):
        v = self.as_view(t)
        if v is None:
            return None
        base, spec, fixed = v
        n = len(spec)
        spec = list(spec)
        axs = range(n) if axes is None else axes
        for a in axs:
            if a < 0:
                a += n
            if not 0 <= a < n:
                return None
            if spec[a][0] == "new":
                continue
            if spec[a][2]:
                spec[a] = (spec[a][0], spec[a][1], spec[a][2] + (("flip",),))
            else:
                spec[a] = (spec[a][0], not spec[a][1], spec[a][2])
        return self.mkview(base, spec, fixed)

    def is_scalar_index(self, i):
        if i.op == "const":
            return isinstance(cval(i), int) and not isinstance(cval(i), bool)
        if i.op == "sym":
            return i.args[1] in ("int", "num", "opt", "any")
        if i.op in ("dim", "idx"):
            return True
        if i.op == "elem":
            return not self.is_arr(i.args[0]) or i.args[0].op == "shape"
        if i.op in ("add", "sub", "mul", "floordiv", "mod", "neg"):
            return all(self.is_scalar_index(x) for x in i.args)
        if i.op == "getitem":
            return not self.is_arr(i.args[0])
        if i.op == "call" and i.args[0] in ("builtins.int", "builtins.len", "builtins.min", "builtins.max"):
            return True
        if i.op in ("kwget", "kwval", "phi", "loopout", "last"):
            return True
        return False

    def getitem(self, b, i, st):
        if b.op == "mcall" and b.args[1] in ("split", "rsplit", "partition", "rpartition") and is_const(i) and isinstance(cval(i), int) and is_const(b.args[0]) \
                and isinstance(cval(b.args[0]), str) and all(is_const(x) for x in b.args[2]) and not b.args[3]:
            try:
                return const(getattr(cval(b.args[0]), b.args[1])(*(cval(x) for x in b.args[2]))[cval(i)])
            except (IndexError, TypeError, ValueError):
                pass
        if b.op == "mcall" and b.args[1] == "split" and is_const(i, 0) and b.args[0].op == "fstr" and len(b.args[2]) >= 1 and is_const(b.args[2][0]) \
                and is_const(b.args[0].args[0]) and isinstance(cval(b.args[2][0]), str) and cval(b.args[2][0]) in cval(b.args[0].args[0]):
            return const(cval(b.args[0].args[0]).split(cval(b.args[2][0]))[0])
        i = self.freeze(i, st)
        if b.op == "rematch" and is_const(i) and isinstance(cval(i), int) and 0 <= cval(i) < len(b.args[0].args):
            return b.args[0].args[cval(i)]
        if b.op == "call" and self.cfg.iter_fn is not None or b.op == "mcall" and self.cfg.iter_fn is not None:
            its = self.cfg.iter_fn(b)
            if its is not None:
                if is_const(i) and isinstance(cval(i), int) and -len(its) <= cval(i) < len(its):
                    return its[cval(i)]
                if i.op == "slice" and all(is_const(x) for x in i.args):
                    return self.new_list(st, its[slice(*[cval(x) for x in i.args])])
        if b.op in ("tuple", "listv") or (b.op == "ref" and st.h(b).kind == "list"):
            its = self.seq_items(b, st)
            if its is not None:
                if is_const(i) and isinstance(cval(i), int):
                    if -len(its) <= cval(i) < len(its):
                        return its[cval(i)]
                if i.op == "slice" and all(is_const(x) for x in i.args):
                    sl = its[slice(*[cval(x) for x in i.args])]
                    return tup(*sl) if b.op == "tuple" else self.new_list(st, sl)
            return mk("getitem", self.freeze(b, st), i)
        if b.op == "shape":
            if is_const(i) and isinstance(cval(i), int):
                return self.dim(b.args[0], cval(i))
            if i.op == "slice" and all(is_const(x) for x in i.args):
                n = self.ndim(b.args[0])
                if n is not None:
                    ds = [self.dim(b.args[0], k) for k in range(n)]
                    return tup(*ds[slice(*[cval(x) for x in i.args])])
            return mk("getitem", b, i)
        if b.op == "const" and isinstance(cval(b), (str, tuple)) and is_const(i) and isinstance(cval(i), int):
            try:
                return const(cval(b)[cval(i)])
            except IndexError:
                pass
        if b.op == "each":
            return mk("getitem", b, i)
        r = self.index_view(b, i)
        if r is not None:
            return r
        return mk("getitem", self.freeze(b, st), i)

    def index_view(self, b, i):
        v = self.as_view(b) if (self.is_arr(b) or b in self.cfg.ndims) else None
        if v is None:
            return None
        base, spec, fixed = v
        idx = list(i.args) if i.op in ("tuple",) else [i]
        if i.op == "tuple" and any(x.op == "starof" for x in idx):
            return None
        if i.op == "slice":
            idx = [i]
        n = len(spec)
        used = sum(1 for x in idx if not is_const(x, None, Ellipsis))
        if used > n:
            return None
        if sum(1 for x in idx if is_const(x, Ellipsis)) > 1:
            return None
        full = mk("slice", NONE, NONE, NONE)
        out = []
        for x in idx:
            if is_const(x, Ellipsis):
                out.extend([full] * (n - used))
            else:
                out.append(x)
        ncons = sum(1 for x in out if not is_const(x, None))
        out.extend([full] * (n - ncons))
        ns, nf, a = [], list(fixed), 0
        for x in out:
            if is_const(x, None):
                ns.append(("new", False, ()))
                continue
            s = spec[a]
            a += 1
            if x.op == "slice":
                if all(is_const(p, None) for p in x.args):
                    ns.append(s)
                elif is_const(x.args[0], None) and is_const(x.args[1], None) and is_const(x.args[2], -1) and not s[2]:
                    ns.append((s[0], not s[1], s[2]))
                elif is_const(x.args[2], None, 1) and is_const(x.args[0], None, 0) and s[0] != "new" and not s[2] and \
                        x.args[1] is self.dim(base, s[0]):
                    ns.append(s)
                else:
                    ns.append((s[0], s[1], s[2] + (x.args,)))
            elif self.is_scalar_index(x):
                if s[0] == "new":
                    continue
                if s[1] or s[2]:
                    x = mk("reidx", x, s[1], s[2])
                nf.append((s[0], x))
            else:
                return None
        return self.mkview(base, ns, nf)

    def roots(self, t, depth=0):
        """Objects whose memory the value may share."""
        if depth > 40:
            return frozenset([t])
        d = depth + 1
        if t.op == "view":
            return self.roots(t.args[0], d)
        if t.op in ("getitem",):
            if self.is_arr(t.args[0]) and _fancy(t.args[1]):
                return frozenset([t])
            return self.roots(t.args[0], d)
        if t.op in ("kwget",):
            r = self.roots(t.args[0], d)
            if isinstance(t.args[2], T) and t.args[2].op not in ("const",):
                r = r | self.roots(t.args[2], d)
            return r
        if t.op in ("kwval", "elem", "elemval", "unpack"):
            return self.roots(t.args[0], d)
        if t.op == "minus":
            return self.roots(t.args[0], d)
        if t.op == "phi":
            return self.roots(t.args[2], d)
        if t.op == "loopout":
            return self.roots(t.args[2], d) | self.roots(t.args[3], d)
        if t.op in ("each", "last"):
            return self.roots(t.args[1], d)
        if t.op == "maybe":
            return self.roots(t.args[0], d) | self.roots(t.args[1], d)
        if t.op == "attr" and t.args[1] in ("T", "real", "imag", "flat", "base", "data"):
            return self.roots(t.args[0], d)
        if t.op == "opaque":
            r = frozenset([t])
            for x in t.args[3]:
                r = r | self.roots(x, d)
            return r
        if t.op == "call" and isinstance(t.args[0], str):
            n = t.args[0]
            if n in ALIASING and len(t.args[1]) > ALIASING[n]:
                kws = dict(t.args[2])
                if n == "numpy.ma.array" and is_const(kws.get("copy", FALSE), True):
                    return frozenset([t])
                return self.roots(t.args[1][ALIASING[n]], d)
            kws = dict(t.args[2])
            if n in ("numpy.astype", "numpy.array", "numpy.nan_to_num") and "copy" in kws and not is_const(kws["copy"], True):
                if n != "numpy.nan_to_num":
                    a, b = self.dtype(t.args[1][0]), self.dtype(t)
                    if a is not None and b is not None and a != b:
                        return frozenset([t])       # a conversion to another pixel type always copies
                return self.roots(t.args[1][0], d)
        if t.op == "mcall" and t.args[1] in MCALL_ALIAS:
            return self.roots(t.args[0], d)
        if t.op == "attr" and not self.is_arr(t.args[0]):
            return self.roots(t.args[0], d)
        return frozenset([t])

    def dtype(self, t, depth=0):
        """'float64','float32','uint8',..., 'raw' (dtype of a loaded image), 'float' (some float), or None."""
        if depth > 60:
            return None
        d = depth + 1
        r = self.cfg.dtypes.get(t)
        if r is None and self.cfg.dtype_fn is not None:
            r = self.cfg.dtype_fn(t)
        if r is not None:
            return r
        if t.op == "const":
            v = cval(t)
            return "pybool" if isinstance(v, bool) else "pyint" if isinstance(v, int) else "pyfloat" if isinstance(v, float) else None
        if t.op in ("view", "store", "neg"):
            return self.dtype(t.args[0], d)
        if t.op == "getitem":
            return self.dtype(t.args[0], d)
        if t.op == "phi":
            return self.dtype(t.args[2], d)
        if t.op == "loopout":
            return self.dtype(t.args[3], d)
        if t.op in ("each", "last"):
            return self.dtype(t.args[1], d)
        if t.op == "div":
            return "float"
        if t.op in ("lt", "le", "gt", "ge", "eq", "ne", "invert", "not", "and", "or"):
            return "bool"
        if t.op in ARITH:
            ds = [self.dtype(x, d) for x in t.args]
            if any(x in ("float", "float64", "float32") for x in ds):
                return "float"
            if "pyfloat" in ds:
                return "float"
            if any(x is None for x in ds):
                return None
            if any(x in ("raw", "rawscalar", "int") for x in ds):
                return "raw"
            ia = [x for x in ds if x in _EXACT_DT and x != "bool"]
            if ia:
                return ia[0]
            if all(x in ("pyint", "pybool") for x in ds):
                return "pyint"
            return None
        if t.op in ("dim", "idx"):
            return "pyint"
        if t.op == "sym":
            return {"int": "pyint", "float": "pyfloat", "num": None, "array": "raw"}.get(t.args[1])
        if t.op == "opaque":
            return t.args[4] if len(t.args) > 4 else None
        if t.op in ("call", "alloc") and isinstance(t.args[0], str):
            n = t.args[0]
            kws = dict(t.args[2])
            short = n.split(".")[-1]
            dt = None
            if n == "numpy.astype":
                dt = t.args[1][1] if len(t.args[1]) > 1 else kws.get("dtype")
            elif "dtype" in kws:
                dt = kws["dtype"]
            elif n in ("numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.asanyarray") and len(t.args[1]) > 1:
                dt = t.args[1][1]
            if dt is not None:
                return self.dtname(dt, d)
            if n in ("builtins.float",) or short in ("float64", "float32", "double"):
                return "float" if self.is_arr(t) else "pyfloat" if n == "builtins.float" else "float"
            if n in ("builtins.int", "builtins.len"):
                return "pyint"
            if short in ("mean", "std", "var", "median", "sqrt", "log", "exp", "cos", "sin", "tan", "arctan2", "average",
                         "nanmean", "nanstd", "norm", "linspace", "percentile", "log10", "log2", "divide", "true_divide"):
                return "float"
            if short in ("zeros", "ones", "empty", "full") and n.startswith("numpy."):
                return "float64" if short != "full" else None
            if short.endswith("_like") and t.args[1]:
                return self.dtype(t.args[1][0], d)
            if n.startswith("scipy.fft."):
                return "float"
            if n == "skimage.color.rgb2gray":
                r = self.dtype(t.args[1][0], d) if t.args[1] else None
                return "float32" if r == "float32" else "float64"
            if short in ("abs", "absolute", "flip", "rot90", "moveaxis", "transpose", "swapaxes", "reshape", "ravel", "asarray",
                         "ascontiguousarray", "real", "copy", "squeeze", "pad", "array", "max", "min", "amax", "amin", "clip",
                         "take", "expand_dims", "asanyarray", "tensor", "as_tensor", "from_numpy", "nan_to_num", "view", "flatten",
                         "repeat") and t.args[1]:
                r = self.dtype(t.args[1][0], d)
                if short in ("max", "min", "amax", "amin") and r == "raw":
                    return "rawscalar"
                return r
            if n.startswith("scipy.ndimage.") and t.args[1]:
                return self.dtype(t.args[1][0], d)
        if t.op == "mcall":
            if t.args[1] in ("float", "double"):
                return "float"
            return self.dtype(t.args[0], d)
        return None

    def exact_dtype(self, t):
        """name of a dtype / of a value's dtype when known exactly"""
        if t.op == "attr" and t.args[1] == "dtype":
            r = self.dtype(t.args[0])
            return r if r in _TYPE_LIMITS else None
        if t.op == "ext" and t.args[0].startswith("numpy."):
            s = t.args[0].split(".")[-1]
            s = {"ubyte": "uint8", "ushort": "uint16", "uintc": "uint32", "half": "float16", "single": "float32", "double": "float64"}.get(s, s)
            return s if s in _TYPE_LIMITS else None
        if is_const(t) and isinstance(cval(t), str):
            return cval(t) if cval(t) in _TYPE_LIMITS else None
        if t.op == "call" and t.args[0] == "numpy.dtype" and t.args[1]:
            return self.exact_dtype(t.args[1][0])
        return None

    def dtname(self, dt, d=0):
        if dt.op == "ext":
            s = dt.args[0].split(".")[-1]
            if s.startswith("float") or s in ("double", "single", "half", "longdouble"):
                return s if s in ("float64", "float32") else "float"
            x = self.exact_dtype(dt)
            if x is not None:
                return x
            if dt.args[0] in ("builtins.int", "numpy.int_", "numpy.intp"):
                return "int64"
            if s.startswith(("int", "uint", "u", "short", "long")):
                return "int"
            if s in ("bool_", "bool"):
                return "bool"
            if s.startswith("complex"):
                return "float"
            return None
        if is_const(dt) and isinstance(cval(dt), str):
            s = cval(dt)
            if s in _TYPE_LIMITS and "int" in s:
                return s
            return "float" if s.startswith(("f", "d", "<f", ">f")) else "int" if s.startswith(("u", "i")) else None
        if dt.op == "attr" and dt.args[1] == "dtype":
            return self.dtype(dt.args[0], d + 1)
        return None

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, fr, st):
        res = []
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            cls = fr.cls
            if cls is not None and fr.selfval is not None:
                return [(st, mk("super", cls, fr.selfval))]
        nodes = [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
        for z, f in self.ev(n.func, fr, st):
            for z2, vals in self.evs(nodes, fr, z):
                pos, star, kws, rest = [], None, [], None
                for a, v in zip(n.args, vals):
                    if isinstance(a, ast.Starred):
                        its = self.iter_items(v, z2)
                        if its is None and v.op == "shape" and self.ndim(v.args[0]) is not None:
                            its = [self.dim(v.args[0], k) for k in range(self.ndim(v.args[0]))]
                        if its is not None:
                            pos.extend(its)
                        else:
                            pos.append(mk("starof", self.freeze(v, z2)))
                    else:
                        pos.append(v)
                for k, v in zip(n.keywords, vals[len(n.args):]):
                    if k.arg is not None:
                        kws.append((k.arg, v))
                    elif v.op == "ref" and z2.h(v).kind == "dict":
                        h = z2.h(v)
                        for kk, vv in h.items.items():
                            if is_const(kk) and isinstance(cval(kk), str):
                                kws.append((cval(kk), vv))
                            else:
                                rest = mk("dyn", kk, vv) if rest is None else mk("join", rest, mk("dyn", kk, vv))
                        if h.rest is not None:
                            rest = h.rest if rest is None else mk("join", rest, h.rest)
                    elif v.op == "dictv":
                        for p in v.args:
                            if p.op == "tuple" and is_const(p.args[0]):
                                kws.append((cval(p.args[0]), p.args[1]))
                            else:
                                rest = p if rest is None else mk("join", rest, p)
                    else:
                        rest = v if rest is None else mk("join", rest, v)
                res.extend(self.call(f, pos, kws, rest, n, fr, z2, n))
        return res

    def call(self, f, pos, kws, rest, n, fr, st, node):
        self.analysed_calls += 1
        if f.op == "bound":
            fi = self.p.funcs[(f.args[1].args[0], f.args[1].args[1])]
            return self.call_func(fi, [f.args[0]] + pos, kws, rest, fr, st, node, cls=f.args[2], selfval=f.args[0])
        if f.op == "func":
            fi = self.p.funcs.get((f.args[0], f.args[1]))
            if fi is None:
                raise AnalysisBroken(f"unresolved function {f}")
            cls = mk("class", fi.cls.mod, fi.cls.name) if fi.cls is not None else None
            sv = pos[0] if (fi.cls is not None and pos) else None
            return self.call_func(fi, pos, kws, rest, fr, st, node, cls=cls, selfval=sv)
        if f.op == "closure":
            fi, chain, defaults = self.closures[f.args[0]]
            return self.call_func(fi, pos, kws, rest, fr, st, node, chain=chain, defaults=defaults, cls=fr.cls, selfval=fr.selfval)
        if f.op == "class":
            return self.instantiate(f, pos, kws, rest, fr, st, node)
        if f.op == "ext":
            return self.ext_call(f.args[0], pos, kws, rest, fr, st, node)
        if f.op == "attr":
            return self.method_call(f.args[0], f.args[1], pos, kws, rest, fr, st, node)
        if f.op == "partial":
            return self.call(f.args[0], list(f.args[1]) + pos, list(f.args[2]) + kws, rest, n, fr, st, node)
        if f.op == "supermethod":
            if f.args[1] in ("__init__", "__init_subclass__"):
                return [(st, NONE)]
            return [(st, mk("mcall", f.args[0], "super." + f.args[1], tuple(self.freeze(x, st) for x in pos), self.fkw(kws, rest, st)))]
        self.event(st, "unkcall", fr, node, f)
        self.event(st, "ucall", fr, node, f, tuple(pos), tuple(kws), rest)
        return [(st, mk("ucall", f, tuple(self.freeze(x, st) for x in pos), self.fkw(kws, rest, st)))]

    def fkw(self, kws, rest, st):
        r = [(k, self.freeze(v, st)) for k, v in kws]
        if rest is not None:
            r.append(("**", rest))
        return tuple(sorted(r, key=lambda p: p[0]))

    def instantiate(self, c, pos, kws, rest, fr, st, node):
        mro = self.mro(c)
        exts = [m for m in mro if m.op == "ext" and m.args[0].split(".")[-1] not in ("ABC", "object", "Generic", "Protocol")]
        for m in mro:
            if m.op == "class":
                ci = self.p.classes.get(m.args)
                if ci and "__new__" in ci.methods:
                    fi = ci.methods["__new__"]
                    return self.call_func(fi, [c] + pos, kws, rest, fr, st, node, cls=m, selfval=c)
        if exts:
            # exception/warning classes etc.
            return [(st, mk("excinst", c.args[1]))]
        ref = self.alloc(st, HObj("inst", cls=c, site=self.loc(fr, node)))
        for m in mro:
            if m.op == "class":
                ci = self.p.classes.get(m.args)
                if ci and "__init__" in ci.methods:
                    fi = ci.methods["__init__"]
                    return [(z, ref) for z, _ in self.call_func(fi, [ref] + pos, kws, rest, fr, st, node, cls=m, selfval=ref)]
        return [(st, ref)]

    def bind(self, fi, pos, kws, rest, st, fr, node, defaults=None):
        """-> (dict of bindings, problem or None)"""
        a = fi.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        kwonly = [p.arg for p in a.kwonlyargs]
        env, problem = {}, None
        star = None
        if pos and pos[-1].op == "starof":
            star = pos[-1].args[0]
            pos = pos[:-1]
        if any(p.op == "starof" for p in pos):
            problem = None
        extra = []
        for i, v in enumerate(pos):
            if i < len(params):
                env[params[i]] = v
            else:
                extra.append(v)
        if extra and not a.vararg:
            problem = f"takes {len(params)} positional arguments but {len(pos)} were given"
        starred = {}
        if star is not None:
            k = 0
            for p in params[len(pos):]:
                if any(kk == p for kk, _ in kws):
                    continue
                starred[p] = k
                k += 1
        kwextra = {}
        for k, v in kws:
            if k in env:
                problem = f"got multiple values for argument '{k}'"
            elif k in params or k in kwonly:
                env[k] = v
            elif a.kwarg:
                kwextra[const(k)] = v
            else:
                problem = f"got an unexpected keyword argument '{k}'"
        dnodes = {}
        for p, dnode in zip(params[len(params) - len(a.defaults):], a.defaults):
            dnodes[p] = dnode
        for p, dnode in zip(kwonly, a.kw_defaults):
            if dnode is not None:
                dnodes[p] = dnode
        for p in params + kwonly:
            if p in env:
                continue
            dv = None
            if p in dnodes:
                if defaults is not None and p in defaults:
                    dv = defaults[p]
                else:
                    dv = self.default_val(fi, p, dnodes[p], st)
            if p in starred:
                env[p] = mk("getitem", star, const(starred[p])) if dv is None else mk("staropt", star, starred[p], dv)
                continue
            if rest is not None and not _nokey(rest, p):
                if dv is None:
                    base = rest.args[0] if rest.op == "minus" else rest
                    env[p] = mk("kwval", base, p)
                    continue
                env[p] = self.kwget(rest, p, dv, st) if rest.op != "join" and rest.op != "dyn" else mk("kwget", rest, p, dv)
                continue
            if dv is None:
                problem = problem or f"missing required argument '{p}'"
                env[p] = mk("missing", p)
            else:
                env[p] = dv
        if a.vararg:
            env[a.vararg.arg] = tup(*extra)
        if a.kwarg:
            r = rest
            if r is not None:
                names = tuple(sorted(set(params + kwonly) | {cval(k) for k in kwextra}))
                if r.op == "minus":
                    r = mk("minus", r.args[0], tuple(sorted(set(r.args[1]) | set(names))))
                elif r.op != "join":
                    r = mk("minus", r, names)
            env[a.kwarg.arg] = self.new_dict(st, kwextra, r)
        return env, problem

    def default_val(self, fi, p, dnode, st):
        key = ("def", fi.mod, fi.qual, p)
        e = st.envs.get(("defaults",), {})
        if key in e:
            return e[key]
        fr = Fr(None, fi.mod, ("mod", fi.mod), (), None, None, 0, (), ())
        r = self.ev(dnode, fr, st)
        v = r[0][1] if r else NONE
        if v.op == "ref":
            st.hw(v).owner = "default:" + fi.label + ":" + p
        e = dict(e)
        e[key] = v
        st.envs[("defaults",)] = e
        return v

    def call_func(self, fi, pos, kws, rest, fr, st, node, cls=None, selfval=None, chain=(), defaults=None):
        label = fi.label
        env, problem = self.bind(fi, pos, kws, rest, st, fr, node, defaults)
        if problem:
            self.event(st, "badcall", fr, node, label, problem)
            self.raise_(st, mk("excinst", "TypeError"))
            return []
        if any("cache" in d for d in fi.decos):
            self.event(st, "cached", fr, node, label)
        if label in self.cfg.sinks or fi.qual in self.cfg.sinks:
            items = tuple((k, v) for k, v in env.items())
            frozen = tuple((k, self.freeze(v, st)) for k, v in items)
            self.event(st, "sink", fr, node, label, frozen)
            return [(st, mk("sinkres", label, tuple(v for k, v in frozen)))]
        op = self.opaque_call(fi, env, st, fr, node)
        if op is not None:
            return op
        depth = fr.depth + 1
        if depth > 25 or fr.stack.count(label) >= 1 and label in fr.stack or fi.is_gen:
            self.event(st, "recursion", fr, node, label)
            frozen = tuple((k, self.freeze(v, st)) for k, v in sorted(env.items()))
            return [(st, mk("reccall", label, frozen))]
        self.inlined.add(label)
        fid = ("f", self.new_id())
        st.envs[fid] = env
        nfr = Fr(fi, fi.mod, fid, chain, cls, selfval, depth, fr.stack + (label,), fr.path + ((node.lineno, node.col_offset) if hasattr(node, "lineno") else (0, 0)))
        self.event(st, "call", fr, node, label, tuple(env.items()))
        if isinstance(fi.node, ast.Lambda):
            out = Out()
            for z, v in self.ev(fi.node.body, nfr, st):
                out.ret.append((z, v))
        else:
            out = self.exec_block(fi.node.body, nfr, st)
        res = []
        for z in out.normal:
            res.append((z, NONE))
        res.extend(out.ret)
        keep = self._captures(fi)
        fin = []
        for z, v in res:
            if not keep:
                z.envs = {k: e for k, e in z.envs.items() if k != fid}
            self.event(z, "ret", fr, node, label, v)
            fin.append((z, v))
        return self._merge_vals(fin)

    def _captures(self, fi):
        for n in ast.walk(fi.node):
            if n is not fi.node and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                return True
        return False

    def _merge_vals(self, pairs):
        if len(pairs) < 2:
            return pairs
        groups = {}
        for z, v in pairs:
            groups.setdefault(v, []).append(z)
        res = []
        for v, zs in groups.items():
            for z in self.merge(zs):
                res.append((z, v))
        return res

    def opaque_call(self, fi, env, st, fr, node):
        spec = None
        if fi.label in self.cfg.opaque or fi.qual in self.cfg.opaque:
            spec = True
        elif self.cfg.opaque_pred and self.cfg.opaque_pred(fi):
            spec = True
        if not spec:
            return None
        frozen = tuple((k, self.freeze(v, st)) for k, v in env.items())
        self.event(st, "opaque", fr, node, fi.label, frozen)
        # an opaque array function: same rank as its first array argument, may alias it
        arrs = [v for k, v in frozen if isinstance(v, T) and self.is_arr(v)]
        nd = self.ndim(arrs[0]) if arrs else None
        v = mk("opaque", fi.label, frozen, nd if nd is not None else bool(arrs), tuple(arrs))
        return [(st, v)]

    # ---- external calls
    def ext_call(self, name, pos, kws, rest, fr, st, node):
        name = _canon(name)
        kw = dict(kws)
        h = getattr(self, "m_" + name.replace(".", "_"), None)
        if h is not None:
            r = h(pos, kw, rest, fr, st, node)
            if r is not None:
                return r
        fpos = tuple(self.freeze(x, st) for x in pos)
        fkws = self.fkw(kws, rest, st)
        if rest is None and name.startswith(("os.path.", "re.")):
            r = self.fold(name, fpos, kw, st)
            if r is not None:
                return [(st, r)]
        self.event(st, "ext", fr, node, name, fpos, fkws)
        if name in NP_MUTATORS and len(pos) > NP_MUTATORS[name]:
            self.event(st, "mutate", fr, node, pos[NP_MUTATORS[name]], name)
        if "out" in kw and not is_const(kw["out"], None):
            tgts = kw["out"].args if kw["out"].op == "tuple" else (kw["out"],)
            for t in tgts:
                if isinstance(t, T):
                    self.event(st, "mutate", fr, node, t, f"{name}(out=...)")
        if name.startswith(NONDET_PREFIX):
            self.event(st, "nondet", fr, node, name)
            return [(st, mk("call", name, fpos, fkws + (("#", self.new_id()),)))]
        if name in ALLOC:
            v = mk("alloc", name, fpos, fkws, (getattr(node, "lineno", 0), getattr(node, "col_offset", 0)) + fr.path)
        elif name.startswith("numpy.") or name.startswith("torch."):
            v = self.np_shape(name, fpos, dict(fkws), st)
            if v is None:
                v = mk("call", name, fpos, fkws)
        else:
            v = mk("call", name, fpos, fkws)
        if "out" in kw and self.is_arr(kw["out"]) and kw["out"].op in ("alloc", "store"):
            nv = mk("store", kw["out"], const(Ellipsis), v)
            self.replace(st, kw["out"], nv)
            v = nv
        return [(st, v)]

    def fold(self, name, pos, kw, st):
        """Constant folding of pure string functions of the standard library."""
        args = list(pos) + [kw[k] for k in ("pattern", "string") if k in kw]
        if not args or not all(is_const(a) and isinstance(cval(a), (str, int)) for a in args) or set(kw) - {"pattern", "string"}:
            if name.startswith("re.") and args and args[0].op == "repat":
                args = list(args[0].args) + args[1:]
                if not all(is_const(a) and isinstance(cval(a), (str, int)) for a in args):
                    return None
            else:
                return None
        vals = [cval(a) for a in args]
        s = name.split(".", 1)[1] if name.startswith("re.") else name.split(".")[-1]
        try:
            if name.startswith("os.path.") and s in ("basename", "dirname", "join", "normpath"):
                return const(getattr(os.path, s)(*vals))
            if name.startswith("os.path.") and s in ("splitext", "split"):
                return tup(*[const(x) for x in getattr(os.path, s)(*vals)])
            if name.startswith("re.") and s in ("search", "match", "fullmatch"):
                m = getattr(re, s)(*vals)
                if m is None:
                    return NONE
                gs = (m.group(0),) + m.groups()
                return mk("rematch", tup(*[const(g) for g in gs]), tup(*[tup(const(k), const(v)) for k, v in m.groupdict().items()]))
            if name == "re.compile":
                return mk("repat", *args)
            if name == "re.escape":
                return const(re.escape(*vals))
            if name == "re.sub" and all(isinstance(v, (str, int)) for v in vals):
                return const(re.sub(*vals))
            if name.startswith("re.") and s in ("split", "findall"):
                r = getattr(re, s)(*vals)
                return self.new_list(st, [tup(*[const(y) for y in x]) if isinstance(x, tuple) else const(x) for x in r])
        except Exception:
            return None
        return None

    def np_shape(self, name, pos, kw, st):
        s = name.split(".")[-1]

        def ints(t):
            if t is None:
                return None
            if is_const(t) and isinstance(cval(t), int):
                return [cval(t)]
            if t.op in ("tuple", "listv") and all(is_const(x) and isinstance(cval(x), int) for x in t.args):
                return [cval(x) for x in t.args]
            return None

        def arg(i, k):
            return pos[i] if len(pos) > i else kw.get(k)
        if not pos:
            return None
        x = pos[0]
        n = self.ndim(x)
        if s in ("asarray", "asanyarray", "ascontiguousarray", "array") and (self.is_arr(x)) and not name.startswith("torch"):
            if len(pos) == 1 and not kw:
                if s == "array":
                    return mk("call", "numpy.copy", (x,), ())
                return x
            return None
        if s == "view" and self.is_arr(x):
            if len(pos) == 1 or pos[1].op == "class" or (pos[1].op == "ext" and pos[1].args[0].endswith("ndarray")):
                return x
            return None
        if s in ("tensor", "as_tensor", "from_numpy") and name.startswith("torch") and self.is_arr(x):
            v = self.as_view(x)
            if v is None:
                return None
            base, spec, fixed = v
            return self.mkview(mk("tensorof", base), spec, fixed) if False else mk("call", "torch.tensor", (x,), ())
        if n is None:
            return None
        if s == "moveaxis":
            a, b = ints(arg(1, "source")), ints(arg(2, "destination"))
            if a is None or b is None or len(a) != len(b):
                return None
            a = [i + n if i < 0 else i for i in a]
            b = [i + n if i < 0 else i for i in b]
            if any(not 0 <= i < n for i in a + b):
                return None
            order = [i for i in range(n) if i not in a]
            for d, so in sorted(zip(b, a)):
                order.insert(d, so)
            return self.permute(x, tuple(order))
        if s == "rollaxis":
            a, b = ints(arg(1, "axis")), ints(arg(2, "start")) or [0]
            if a is None:
                return None
            ax = a[0] + n if a[0] < 0 else a[0]
            stt = b[0] + n if b[0] < 0 else b[0]
            order = [i for i in range(n) if i != ax]
            order.insert(stt - (1 if ax < stt else 0), ax)
            return self.permute(x, tuple(order))
        if s in ("swapaxes",) or (s == "transpose" and name.startswith("torch")):
            a, b = ints(arg(1, "axis1")), ints(arg(2, "axis2"))
            if a is None or b is None:
                return None
            order = list(range(n))
            i, j = a[0] % n if -n <= a[0] < n else None, b[0] % n if -n <= b[0] < n else None
            if i is None or j is None:
                return None
            order[i], order[j] = order[j], order[i]
            return self.permute(x, tuple(order))
        if s in ("transpose", "permute", "permute_dims"):
            ax = arg(1, "axes")
            if len(pos) > 2:
                ax = tup(*pos[1:])
            if ax is None or is_const(ax, None):
                return self.permute(x, tuple(reversed(range(n))))
            p = ints(ax)
            return self.permute(x, tuple(p)) if p is not None else None
        if s in ("flip", "flipud", "fliplr"):
            if s == "flipud":
                return self.flip(x, [0])
            if s == "fliplr":
                return self.flip(x, [1])
            ax = arg(1, "axis")
            if ax is None or is_const(ax, None):
                return self.flip(x, None)
            p = ints(ax)
            return self.flip(x, p) if p is not None else None
        if s == "rot90":
            k = arg(1, "k")
            k = 1 if k is None else (cval(k) if is_const(k) and isinstance(cval(k), int) else None)
            axs = arg(2, "axes")
            axs = [0, 1] if axs is None else ints(axs)
            if k is None or axs is None or len(axs) != 2:
                return None
            axs = [a + n if a < 0 else a for a in axs]
            if any(not 0 <= a < n for a in axs):
                return None
            k %= 4
            order = list(range(n))
            order[axs[0]], order[axs[1]] = order[axs[1]], order[axs[0]]
            if k == 0:
                return x
            if k == 2:
                return self.flip(x, axs)
            if k == 1:
                f = self.flip(x, [axs[1]])
                return self.permute(f, tuple(order)) if f is not None else None
            p = self.permute(x, tuple(order))
            return self.flip(p, [axs[1]]) if p is not None else None
        if s == "take":
            ax = arg(2, "axis")
            i = arg(1, "indices")
            p = ints(ax) if ax is not None else None
            if p is None or i is None or not self.is_scalar_index(i):
                return None
            a = p[0] % n
            full = mk("slice", NONE, NONE, NONE)
            return self.index_view(x, tup(*[i if q == a else full for q in range(n)]))
        if s in ("expand_dims", "unsqueeze"):
            p = ints(arg(1, "axis" if s == "expand_dims" else "dim"))
            if p is None or len(p) != 1:
                return None
            v = self.as_view(x)
            base, spec, fixed = v
            a = p[0] + n + 1 if p[0] < 0 else p[0]
            spec = list(spec)
            spec.insert(a, ("new", False, ()))
            return self.mkview(base, spec, fixed)
        if s == "squeeze":
            v = self.as_view(x)
            base, spec, fixed = v
            ax = arg(1, "axis") if len(pos) > 1 or "axis" in kw else arg(1, "dim")
            p = ints(ax) if ax is not None else None
            if p is not None and all(spec[a % n][0] == "new" for a in p):
                rm = {a % n for a in p}
                return self.mkview(base, [q for i, q in enumerate(spec) if i not in rm], fixed)
            return None
        return None

    def method_call(self, b, name, pos, kws, rest, fr, st, node):
        kw = dict(kws)
        if b.op == "ref":
            h = st.h(b)
            r = self.container_method(h, b, name, pos, kw, rest, fr, st, node)
            if r is not None:
                return r
            fpos = tuple(self.freeze(x, st) for x in pos)
            self.event(st, "mcall", fr, node, b, name, fpos, self.fkw(kws, rest, st))
            return [(st, mk("mcall", b, name, fpos, self.fkw(kws, rest, st)))]
        if b.op == "const" and isinstance(cval(b), str):
            r = self.str_method(cval(b), name, pos, st, kws if rest is None else ())
            if r is not None:
                return [(st, r)]
            if name in ("split", "rsplit", "splitlines", "partition", "rpartition") and not kws and rest is None and all(is_const(x) for x in pos):
                try:
                    its = [const(x) for x in getattr(cval(b), name)(*[cval(x) for x in pos])]
                    return [(st, tup(*its) if "partition" in name else self.new_list(st, its))]
                except (TypeError, ValueError):
                    pass
            if name in ("isdigit", "isnumeric", "isdecimal", "isalpha", "count", "find", "rfind", "index") and not kws and all(is_const(x) for x in pos):
                try:
                    return [(st, const(getattr(cval(b), name)(*[cval(x) for x in pos])))]
                except (TypeError, ValueError):
                    pass
        if b.op == "rematch" and rest is None and not kws:
            gs, names = b.args
            nm = {cval(x.args[0]): x.args[1] for x in names.args}

            def grp(x):
                if is_const(x) and isinstance(cval(x), int) and 0 <= cval(x) < len(gs.args):
                    return gs.args[cval(x)]
                return nm.get(cval(x)) if is_const(x) and isinstance(cval(x), str) else None
            if name in ("group", "__getitem__"):
                r = [grp(x) for x in (pos or [const(0)])]
                if all(x is not None for x in r):
                    return [(st, r[0] if len(r) == 1 else tup(*r))]
            if name == "groups":
                return [(st, tup(*gs.args[1:]))]
            if name == "groupdict":
                return [(st, self.new_dict(st, {x.args[0]: x.args[1] for x in names.args}))]
        if b.op == "repat" and name in ("search", "match", "fullmatch", "split", "findall", "sub"):
            return self.ext_call("re." + name, [b] + list(pos), kws, rest, fr, st, node)
        if b.op in ("tuple", "listv"):
            if name == "index" or name == "count":
                return [(st, mk("mcall", b, name, tuple(pos), ()))]
        if b.op == "setv" and name in ("issubset", "issuperset"):
            other = pos[0]
            items = list(b.args) if name == "issubset" else (self.seq_items(other, st) or [])
            cont = other if name == "issubset" else b
            if other.op == "dictkeys":
                cont = other.args[0]
            t = mk("and", *[mk("in", x, cont) for x in items]) if items else TRUE
            ds = [self.decide(st, mk("in", x, cont)) for x in items]
            if all(d is True for d in ds):
                return [(st, TRUE)]
            if any(d is False for d in ds):
                return [(st, FALSE)]
            return [(st, t)]
        if b.op in ("sym", "kwget", "kwval", "getitem", "attr", "elem", "elemval", "minus") and not self.is_arr(b):
            # unknown caller object: container mutators count as mutations
            if name in (LIST_MUT | DICT_MUT | SET_MUT) and not (name in ("pop", "update", "add", "sort") and _strish(b)):
                self.event(st, "mutate", fr, node, b, f".{name}()")
            if name == "items":
                return [(st, mk("dictitems", b))]
            if name == "keys":
                return [(st, mk("dictkeys", b))]
        fpos = tuple(self.freeze(x, st) for x in pos)
        fkws = self.fkw(kws, rest, st)
        if name in ND_MUTATORS and (self.is_arr(b) or name.endswith("_") or name.startswith("__i") or name in ("fill", "sort", "resize", "partition", "itemset", "setflags")):
            self.event(st, "mutate", fr, node, b, f".{name}()")
            if name == "byteswap":
                pass
            return [(st, NONE if not name.endswith("_") else b)]
        if self.is_arr(b) or name in ("astype", "reshape", "transpose", "swapaxes", "ravel", "mean", "std"):
            tens = _tensorish(b)
            if name in ("permute", "unsqueeze") or (tens and name in ("transpose", "squeeze", "movedim")):
                nm = {"movedim": "numpy.moveaxis"}.get(name, "torch." + name)
                v = self.np_shape(nm, (b,) + fpos, dict(fkws), st)
                self.event(st, "ext", fr, node, nm, (b,) + fpos, fkws)
                if v is None:
                    v = mk("mcall", b, name, fpos, fkws)
                return [(st, v)]
            if name in ND_METHODS:
                if name == "transpose" and len(fpos) > 1:
                    fpos = (tup(*fpos),)
                if name == "reshape" and len(fpos) > 1:
                    fpos = (tup(*fpos),)
                return self.ext_call("numpy." + name, [b] + list(fpos), [(k, v) for k, v in kws], rest, fr, st, node)
            if name in ("cpu", "detach", "numpy", "contiguous", "clone"):
                self.event(st, "ext", fr, node, "torch.Tensor." + name, (b,), fkws)
                return [(st, b if name != "clone" else mk("call", "numpy.copy", (b,), ()))]
            if name == "__getitem__" and len(pos) == 1:
                return [(st, self.getitem(b, pos[0], st))]
        self.event(st, "mcall", fr, node, b, name, fpos, fkws)
        return [(st, mk("mcall", b, name, fpos, fkws))]

    def str_method(self, s, name, pos, st, kws=()):
        if all(is_const(p) for p in pos) and name in ("lower", "upper", "strip", "startswith", "endswith", "replace", "lstrip",
                                                      "rstrip", "title", "capitalize", "removesuffix", "removeprefix"):
            try:
                return const(getattr(s, name)(*[cval(p) for p in pos]))
            except Exception:
                return None
        if name == "format":
            out, k = [], 0
            kw = dict(kws)
            try:
                for lit, field, spec, conv in string.Formatter().parse(s):
                    if lit:
                        out.append(const(lit))
                    if field is None:
                        continue
                    if "{" in (spec or ""):
                        return None
                    if field == "":
                        field, k = str(k), k + 1
                    v = pos[int(field)] if field.isdigit() else kw[field]
                    out.append(self.formatted(v, spec or "", -1 if conv is None else ord(conv), st))
            except (ValueError, IndexError, KeyError):
                return None
            return fstring(out)
        if name == "join" and pos:
            return mk("call", "str.join", (const(s), self.freeze(pos[0], st)), ())
        return None

    def keyed(self, h, k, st):
        """the entry of a dictionary that a key equals, forking where it is undecided: [(state, existing key or None)]; None: not enumerable"""
        if h.rest is not None or not h.items or len(h.items) > 4 or any(x.op == "each" for x in h.items) or is_const(k) and all(is_const(x) for x in h.items):
            return None
        pend, out = [st], []
        for x in list(h.items):
            nxt = []
            for z in pend:
                for z2, same in self.branch(z, mk("eq", k, x)):
                    (out if same else nxt).append((z2, x) if same else z2)
            pend = nxt
        return out + [(z, None) for z in pend]

    def container_method(self, h, b, name, pos, kw, rest, fr, st, node):
        if h.kind == "list":
            if name in LIST_MUT:
                self.event(st, "mutate", fr, node, b, f".{name}()")
                o = st.hw(b)
                if name == "append":
                    o.items.append(pos[0])
                    return [(st, NONE)]
                if name == "extend":
                    its = self.seq_items(pos[0], st)
                    o.items.extend(its if its is not None else [mk("starof", self.freeze(pos[0], st))])
                    return [(st, NONE)]
                if name == "insert" and is_const(pos[0]) and isinstance(cval(pos[0]), int):
                    o.items.insert(cval(pos[0]), pos[1])
                    return [(st, NONE)]
                if name == "pop":
                    if o.items and (not pos or is_const(pos[0])) and o.items[-1].op not in ("each", "starof"):
                        try:
                            return [(st, o.items.pop(*[cval(p) for p in pos]))]
                        except Exception:
                            pass
                    return [(st, mk("popped", b))]
                if name == "clear":
                    o.items.clear()
                    o.rest = None
                    return [(st, NONE)]
                if name in ("sort", "reverse"):
                    frozen = self.freeze(b, st)
                    o.items = [mk("starof", mk("call", "builtins.sorted" if name == "sort" else "builtins.reversed", (frozen,), self.fkw(list(kw.items()), rest, st)))]
                    return [(st, NONE)]
                return [(st, mk("popped", b))]
            if name == "copy":
                return [(st, self.new_list(st, h.items, rest=h.rest))]
            return None
        if h.kind == "dict":
            if name == "get":
                k = pos[0]
                dflt = pos[1] if len(pos) > 1 else kw.get("default", NONE)
                self.event(st, "dread", fr, node, b, k)
                if k in h.items:
                    return [(st, h.items[k])]
                r = self.keyed(h, k, st)
                if r is not None:
                    return [(z, z.h(b).items[x] if x is not None else dflt) for z, x in r]
                if h.rest is None:
                    return [(st, dflt)] if is_const(k) and all(is_const(x) for x in h.items) else [(st, mk("dictget", self.freeze(b, st), k, dflt))]
                if is_const(k):
                    return [(st, self.kwget(h.rest, cval(k), dflt, st))]
                return [(st, mk("dictget", self.freeze(b, st), k, dflt))]
            if name == "pop":
                self.event(st, "mutate", fr, node, b, ".pop()")
                self.event(st, "dread", fr, node, b, pos[0])
                k = pos[0]
                dflt = pos[1] if len(pos) > 1 else None
                o = st.hw(b)
                if k in o.items:
                    return [(st, o.items.pop(k))]
                if o.rest is not None and is_const(k):
                    r = o.rest
                    if r.op == "minus":
                        ex = set(r.args[1])
                        if cval(k) in ex:
                            v = dflt
                        else:
                            v = self.kwget(r, cval(k), dflt, st) if dflt is not None else mk("kwval", r.args[0], cval(k))
                        o.rest = mk("minus", r.args[0], tuple(sorted(ex | {cval(k)})))
                    else:
                        v = self.kwget(r, cval(k), dflt, st) if dflt is not None else mk("kwval", r, cval(k))
                        o.rest = mk("minus", r, (cval(k),))
                    if v is not None:
                        return [(st, v)]
                if dflt is not None:
                    return [(st, dflt)]
                self.event(st, "keyerror", fr, node, b, k)
                self.raise_(st, mk("excinst", "KeyError"))
                return []
            if name == "update":
                self.event(st, "mutate", fr, node, b, ".update()")
                o = st.hw(b)
                for src in pos:
                    if src.op == "ref" and st.h(src).kind == "dict":
                        hs = st.h(src)
                        o.items.update(hs.items)
                        if hs.rest is not None:
                            for q in list(o.items):
                                if q not in hs.items and is_const(q):
                                    o.items[q] = self.kwget(hs.rest, cval(q), o.items[q], st)
                            o.rest = hs.rest if o.rest is None or o.rest is hs.rest else mk("join", o.rest, hs.rest)
                    else:
                        o.rest = self.freeze(src, st) if o.rest is None else mk("join", o.rest, self.freeze(src, st))
                for k, v in kw.items():
                    o.items[const(k)] = v
                if rest is not None:
                    o.rest = rest if o.rest is None else mk("join", o.rest, rest)
                return [(st, NONE)]
            if name == "setdefault":
                self.event(st, "mutate", fr, node, b, ".setdefault()")
                o = st.hw(b)
                d = pos[1] if len(pos) > 1 else NONE
                if pos[0] in o.items:
                    return [(st, o.items[pos[0]])]
                r = self.keyed(o, pos[0], st)
                if r is not None:
                    res = []
                    for z, x in r:
                        if x is None:
                            z.hw(b).items[pos[0]] = d
                        res.append((z, z.h(b).items[x] if x is not None else d))
                    return res
                if o.rest is not None and is_const(pos[0]):
                    d = self.kwget(o.rest, cval(pos[0]), d, st)
                o.items[pos[0]] = d
                return [(st, d)]
            if name == "clear":
                self.event(st, "mutate", fr, node, b, ".clear()")
                o = st.hw(b)
                o.items, o.rest = {}, None
                return [(st, NONE)]
            if name == "popitem":
                self.event(st, "mutate", fr, node, b, ".popitem()")
                return [(st, mk("popped", b))]
            if name == "keys":
                return [(st, mk("dictkeys", b))]
            if name == "items":
                return [(st, mk("dictitems", b))]
            if name == "values":
                if h.rest is None and not any(k.op == "each" for k in h.items):
                    return [(st, mk("listv", *[self.freeze(v, st) for v in h.items.values()]))]
                return [(st, mk("dictvalues", self.freeze(b, st)))]
            if name == "copy":
                return [(st, self.new_dict(st, h.items, h.rest))]
            return None
        if h.kind == "file":
            if name == "close":
                self.event(st, "exit", fr, node, b)
                return [(st, NONE)]
            return None
        if h.kind == "inst" and h.rest is not None:
            return None
        return None

    # ---- models of particular external functions
    def m_builtins_len(self, pos, kw, rest, fr, st, node):
        x = pos[0]
        its = self.seq_items(x, st)
        if its is not None:
            return [(st, const(len(its)))]
        if x.op == "const" and isinstance(cval(x), str):
            return [(st, const(len(cval(x))))]
        if x.op == "shape":
            n = self.ndim(x.args[0])
            if n is not None:
                return [(st, const(n))]
            return [(st, mk("attr", x.args[0], "ndim"))]
        if x.op == "ref":
            h = st.h(x)
            if h.kind == "dict" and h.rest is None and not any(k.op == "each" for k in h.items):
                return [(st, const(len(h.items)))]
        if self.is_arr(x) and self.ndim(x) is not None:
            return [(st, self.dim(x, 0))]
        return None

    def m_builtins_sorted(self, pos, kw, rest, fr, st, node):
        if len(pos) != 1 or rest is not None or (set(kw) - {"reverse"}):
            return None
        x = pos[0]
        its = self.iter_items(x, st)
        if its is None and x.op == "ref" and st.h(x).kind == "dict" and st.h(x).rest is None:
            its = list(st.h(x).items)
        rev = kw.get("reverse", FALSE)
        if its is None or not all(is_const(i) for i in its) or not is_const(rev):
            return None
        try:
            o = sorted((cval(i) for i in its), reverse=bool(cval(rev)))
        except TypeError:
            return None
        return [(st, self.new_list(st, [const(i) for i in o]))]

    def m_builtins_isinstance(self, pos, kw, rest, fr, st, node):
        t = mk("isinstance", pos[0], pos[1])
        d = self.decide(st, t)
        return [(st, const(d) if d is not None else t)]

    def m_builtins_type(self, pos, kw, rest, fr, st, node):
        if len(pos) != 1:
            return None
        x = pos[0]
        if is_const(x):
            return [(st, mk("ext", "builtins." + type(cval(x)).__name__))]
        if x.op == "sym" and x.args[1] in ("int", "str", "float", "bool"):
            return [(st, mk("ext", "builtins." + x.args[1]))]
        if x.op == "ref":
            h = st.h(x)
            if h.kind in ("list", "dict", "set"):
                return [(st, mk("ext", "builtins." + h.kind))]
            if h.cls is not None:
                return [(st, h.cls)]
        if x.op == "tuple":
            return [(st, mk("ext", "builtins.tuple"))]
        return [(st, mk("typeof", x))]

    def m_builtins_hasattr(self, pos, kw, rest, fr, st, node):
        if pos[0].op == "ref" and is_const(pos[1]) and st.h(pos[0]).kind == "inst" and st.h(pos[0]).rest is None:
            n = cval(pos[1])
            self.event(st, "aread", fr, node, pos[0], n)
            return [(st, const(n in st.h(pos[0]).attrs or any(
                c.op == "class" and c.args in self.p.classes and (n in self.p.classes[c.args].methods or n in self.p.classes[c.args].attrs)
                for c in self.mro(st.h(pos[0]).cls))))]
        return None

    def m_builtins_getattr(self, pos, kw, rest, fr, st, node):
        if len(pos) >= 2 and is_const(pos[1]) and isinstance(cval(pos[1]), str):
            b, n = pos[0], cval(pos[1])
            if b.op == "ref" and st.h(b).kind == "inst":
                if n not in st.h(b).attrs and len(pos) > 2 and st.h(b).rest is None:
                    for c in self.mro(st.h(b).cls):
                        if c.op == "class" and c.args in self.p.classes and n in self.p.classes[c.args].methods:
                            break
                    else:
                        self.event(st, "aread", fr, node, b, n)
                        return [(st, pos[2])]
                return self.getattr(b, n, fr, st, node)
            if len(pos) == 2 or b.op in ("ext", "module", "class"):
                return self.getattr(b, n, fr, st, node)
            return [(st, mk("getattrd", b, n, pos[2]))]
        return None

    def m_builtins_setattr(self, pos, kw, rest, fr, st, node):
        if is_const(pos[1]):
            if pos[0].op == "ref":
                st.hw(pos[0]).attrs[cval(pos[1])] = pos[2]
            self.event(st, "setattr", fr, node, pos[0], cval(pos[1]), pos[2])
            return [(st, NONE)]
        self.event(st, "setattr", fr, node, pos[0], "*", pos[2])
        return [(st, NONE)]

    def m_builtins_vars(self, pos, kw, rest, fr, st, node):
        return None

    def m_builtins_zip(self, pos, kw, rest, fr, st, node):
        strict = kw.get("strict", FALSE)
        self.event(st, "zip", fr, node, tuple(self.freeze(x, st) for x in pos), strict)
        if is_const(strict, True):
            cols = [self.concrete_iter(x, st) for x in pos]
            if all(c is not None for c in cols) and len({len(c) for c in cols}) > 1:
                # raised when the shortest column is used up
                self.raise_(st, mk("excinst", "ValueError"))
                return []
        return [(st, mk("zipv", tuple(pos), strict))]

    def m_builtins_enumerate(self, pos, kw, rest, fr, st, node):
        return [(st, mk("enumv", pos[0], pos[1] if len(pos) > 1 else kw.get("start", const(0))))]

    def m_tqdm(self, pos, kw, rest, fr, st, node):
        return [(st, pos[0])] if pos else None

    def m_trange(self, pos, kw, rest, fr, st, node):
        return self.ext_call("builtins.range", pos, [], None, fr, st, node)

    def m_os_path_splitext(self, pos, kw, rest, fr, st, node):
        if len(pos) == 1 and is_const(pos[0]) and isinstance(cval(pos[0]), str):
            return [(st, tup(*[const(x) for x in os.path.splitext(cval(pos[0]))]))]
        return None

    def m_builtins_iter(self, pos, kw, rest, fr, st, node):
        return [(st, pos[0])] if len(pos) == 1 else None

    def m_builtins_list(self, pos, kw, rest, fr, st, node):
        if not pos:
            return [(st, self.new_list(st, []))]
        x = pos[0]
        its = self.concrete_iter(x, st)
        if its is not None:
            return [(st, self.new_list(st, its))]
        if x.op == "ref" and st.h(x).kind == "list":
            return [(st, self.new_list(st, st.h(x).items, rest=st.h(x).rest))]
        if x.op == "dictkeys" and x.args[0].op == "ref":
            return [(st, self.new_list(st, [mk("starof", mk("dictkeys", self.freeze(x.args[0], st)))]))]
        if x.op == "dictitems" and x.args[0].op == "ref":
            return [(st, self.new_list(st, [mk("starof", mk("dictitems", self.freeze(x.args[0], st)))]))]
        if x.op == "listv":
            return [(st, self.new_list(st, x.args))]
        return [(st, self.new_list(st, [mk("starof", self.freeze(x, st))]))]

    def m_builtins_tuple(self, pos, kw, rest, fr, st, node):
        if not pos:
            return [(st, tup())]
        its = self.concrete_iter(pos[0], st)
        if its is not None:
            return [(st, tup(*its))]
        return [(st, mk("call", "builtins.tuple", (self.freeze(pos[0], st),), ()))]

    def m_builtins_dict(self, pos, kw, rest, fr, st, node):
        d, r = {}, rest
        for src in pos:
            if src.op == "ref" and st.h(src).kind == "dict":
                d.update(st.h(src).items)
                r = st.h(src).rest if r is None else r
            elif src.op == "zipv":
                its = self.concrete_iter(src, st)
                if its is None:
                    e = self.elem(src, st)
                    d[mk("each", self.freeze(src, st), e.args[0])] = mk("each", self.freeze(src, st), e.args[1])
                else:
                    for x in its:
                        d[x.args[0]] = x.args[1]
            else:
                r = self.freeze(src, st)
        for k, v in kw.items():
            d[const(k)] = v
        return [(st, self.new_dict(st, d, r))]

    def m_builtins_set(self, pos, kw, rest, fr, st, node):
        if not pos:
            return [(st, self.alloc(st, HObj("set")))]
        its = self.concrete_iter(pos[0], st)
        if its is not None:
            return [(st, mk("setv", *its))]
        return None

    m_builtins_frozenset = m_builtins_set

    def m_builtins_all(self, pos, kw, rest, fr, st, node):
        its = self.seq_items(pos[0], st)
        if its is not None:
            ds = [self.decide(st, x) for x in its]
            if all(d is True for d in ds):
                return [(st, TRUE)]
            if any(d is False for d in ds):
                return [(st, FALSE)]
        return None

    def m_builtins_any(self, pos, kw, rest, fr, st, node):
        its = self.seq_items(pos[0], st)
        if its is not None:
            ds = [self.decide(st, x) for x in its]
            if any(d is True for d in ds):
                return [(st, TRUE)]
            if all(d is False for d in ds):
                return [(st, FALSE)]
            return [(st, mk("or", *its))]
        return None

    def m_builtins_open(self, pos, kw, rest, fr, st, node):
        path = pos[0] if pos else kw.get("file", NONE)
        mode = pos[1] if len(pos) > 1 else kw.get("mode", const("r"))
        ref = self.alloc(st, HObj("file", attrs={"path": path, "mode": mode}))
        self.event(st, "open", fr, node, ref, self.freeze(path, st), mode)
        return [(st, ref)]

    def m_warnings_warn(self, pos, kw, rest, fr, st, node):
        cat = pos[1] if len(pos) > 1 else kw.get("category", mk("ext", "builtins.UserWarning"))
        self.event(st, "warn", fr, node, self.freeze(pos[0], st) if pos else NONE, cat)
        return [(st, NONE)]

    def m_builtins_print(self, pos, kw, rest, fr, st, node):
        self.event(st, "print", fr, node, tuple(self.freeze(x, st) for x in pos))
        return [(st, NONE)]

    def m_functools_partial(self, pos, kw, rest, fr, st, node):
        return [(st, mk("partial", pos[0], tuple(pos[1:]), tuple(kw.items())))]

    def m_operator_itemgetter(self, pos, kw, rest, fr, st, node):
        return None

    def m_builtins_map(self, pos, kw, rest, fr, st, node):
        its = self.concrete_iter(pos[1], st) if len(pos) == 2 else None
        if its is not None:
            cur = [(st, [])]
            for x in its:
                nxt = []
                for z, acc in cur:
                    for z2, v in self.call(pos[0], [x], [], None, None, fr, z, node):
                        nxt.append((z2, acc + [v]))
                cur = nxt
            return [(z, mk("listv", *acc)) for z, acc in cur]
        itf = self.freeze(pos[1], st)
        self.loops.append(itf)
        try:
            if len(pos) == 2:
                r = self.call(pos[0], [self.elem(pos[1], st)], [], None, None, fr, st, node)
            else:
                r = self.call(pos[0], [self.elem(x, st) for x in pos[1:]], [], None, None, fr, st, node)
        finally:
            self.loops.pop()
        return [(z, mk("listv", mk("each", itf, self.freeze(v, z)))) for z, v in r]

    def m_copy_copy(self, pos, kw, rest, fr, st, node):
        x = pos[0]
        if x.op == "ref":
            h = st.h(x).copy()
            h.owner = "fresh"
            return [(st, self.alloc(st, h))]
        return [(st, mk("call", "numpy.copy", (x,), ()))]

    m_copy_deepcopy = m_copy_copy

    def m_builtins_int(self, pos, kw, rest, fr, st, node):
        if len(pos) == 1 and is_const(pos[0]):
            try:
                return [(st, const(int(cval(pos[0]))))]
            except Exception:
                return None
        if len(pos) == 1 and pos[0].op == "call" and pos[0].args[0] == "builtins.str" and len(pos[0].args[1]) == 1:
            return [(st, pos[0].args[1][0])]
        if len(pos) == 1 and self.is_scalar_index(pos[0]) and pos[0].op in ("sym", "dim", "idx") and pos[0].args[-1] == "int":
            return [(st, pos[0])]
        return None

    def m_builtins_str(self, pos, kw, rest, fr, st, node):
        if len(pos) == 1 and is_const(pos[0]) and isinstance(cval(pos[0]), (int, str)):
            return [(st, const(str(cval(pos[0]))))]
        return None

    def m_builtins_float(self, pos, kw, rest, fr, st, node):
        if len(pos) == 1 and is_const(pos[0]) and isinstance(cval(pos[0]), (int, float)):
            return [(st, const(float(cval(pos[0]))))]
        return None

    def m_builtins_slice(self, pos, kw, rest, fr, st, node):
        a = list(pos) + [NONE] * (3 - len(pos)) if len(pos) != 1 else [NONE, pos[0], NONE]
        return [(st, mk("slice", *a))]

    def m_builtins_reversed(self, pos, kw, rest, fr, st, node):
        its = self.concrete_iter(pos[0], st)
        if its is not None:
            return [(st, mk("listv", *reversed(its)))]
        return None


_REDUCERS = {"mean", "std", "var", "min", "max", "sum", "any", "all", "prod", "argmax", "argmin", "median", "nanmean", "norm",
             "array_equal", "allclose", "issubdtype", "iinfo", "finfo", "amin", "amax", "ndim", "size", "float64", "percentile",
             "shape", "isscalar"}
_UFUNCS = {"add", "subtract", "multiply", "divide", "true_divide", "power", "maximum", "minimum", "logical_and", "logical_or",
           "where", "arctan2", "greater", "less", "equal"}
_SHAPE_PRESERVING = {"numpy.astype", "numpy.copy", "numpy.abs", "numpy.absolute", "numpy.sqrt", "numpy.square", "numpy.log",
                     "numpy.exp", "numpy.real", "numpy.nan_to_num", "numpy.array", "numpy.asarray", "numpy.ascontiguousarray",
                     "numpy.clip", "numpy.round", "torch.tensor", "scipy.fft.fftn", "scipy.fft.fftshift", "scipy.fft.ifftn",
                     "scipy.fft.ifftshift", "numpy.ma.array", "torch.as_tensor", "torch.from_numpy", "numpy.float32", "numpy.float64",
                     "numpy.logical_not", "numpy.negative", "numpy.asanyarray"}


_TYPE_LIMITS = {f"uint{b}": (0, 2 ** b - 1, b) for b in (8, 16, 32, 64)}
_TYPE_LIMITS.update({f"int{b}": (-2 ** (b - 1), 2 ** (b - 1) - 1, b) for b in (8, 16, 32, 64)})
_TYPE_LIMITS.update({"float16": (-65504.0, 65504.0, 16), "float32": (-3.4028234663852886e38, 3.4028234663852886e38, 32),
                     "float64": (-1.7976931348623157e308, 1.7976931348623157e308, 64)})


def _canon(name):
    for a, b in (("np.", "numpy."),):
        if name.startswith(a):
            name = b + name[len(a):]
    tail = name.split(".")[-1]
    if name.startswith("tqdm"):
        return "trange" if tail == "trange" else "tqdm" if tail in ("tqdm", "autonotebook") else name
    if name in ("numpy.absolute",):
        return "numpy.abs"
    if name in ("numpy.amin", "numpy.amax"):
        return "numpy." + tail[1:]
    if name.startswith("numpy.ndarray."):
        return "numpy." + tail
    if name.startswith("torch.Tensor."):
        return "torch." + tail
    if name == "numpy.linalg.linalg.norm":
        return "numpy.linalg.norm"
    return name


def _strish(t):
    if t.op == "const":
        return isinstance(cval(t), str)
    if t.op in ("fstr", "strcat"):
        return True
    if t.op == "sym":
        return t.args[1] == "str"
    if t.op == "call":
        return t.args[0] in ("builtins.str", "str.join", "os.path.join", "os.path.basename", "os.path.dirname", "os.path.splitext")
    if t.op == "attr":
        return t.args[1] in ("_name", "__name__")
    return False


def fstring(parts):
    """string put together from constant strings and formatted values"""
    out = []
    for x in parts:
        if x.op == "fmt" and x.args[1] == "" and x.args[0].op == "call" and x.args[0].args[0] == "builtins.str" and len(x.args[0].args[1]) == 1:
            x = mk("fmt", x.args[0].args[1][0], "")
        for y in x.args[0].args if x.op == "fmt" and x.args[1] == "" and x.args[0].op == "fstr" else (x,):
            if out and is_const(y) and is_const(out[-1]):
                out[-1] = const(cval(out[-1]) + cval(y))
            else:
                out.append(y)
    if not out:
        return const("")
    if len(out) == 1 and is_const(out[0]):
        return out[0]
    return mk("fstr", *out)


def _concat(a, b):
    def parts(t):
        return list(t.args) if t.op == "fstr" else [t] if t.op == "const" else [mk("fmt", t, "")]
    return fstring(parts(a) + parts(b))


def _tensorish(t):
    for _ in range(30):
        if t.op == "view":
            t = t.args[0]
        elif t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith("torch."):
            return True
        elif t.op == "mcall" and t.args[1] in ("unsqueeze", "permute", "float"):
            return True
        elif t.op == "sym" and t.args[1] == "tensor":
            return True
        else:
            return False
    return False


def _hasref(t):
    return any(x.op == "ref" for x in subterms(t))


def _tyterm(t):
    if t.op == "ext" and t.args[0].startswith("builtins."):
        return t.args[0]
    return None


def _lit_shape(t):
    """shape of an array given as nested literal lists (possibly transposed), or None"""
    if t.op == "view" and not t.args[2] and not any(x[0] == "new" or x[2] for x in t.args[1]):
        b = _lit_shape(t.args[0])
        return tuple(b[x[0]] for x in t.args[1]) if b is not None and len(b) == len(t.args[1]) else None
    if t.op == "call" and t.args[0] in ("numpy.array", "numpy.asarray") and t.args[1]:
        return _lit_shape(t.args[1][0])
    if t.op == "call" and t.args[0] == "numpy.transpose" and len(t.args[1]) == 1 or t.op == "attr" and t.args[1] == "T":
        b = _lit_shape(t.args[1][0] if t.op == "call" else t.args[0])
        return b[::-1] if b is not None else None
    if t.op in ("listv", "tuple"):
        r = {_lit_shape(x) for x in t.args}
        return (len(t.args),) + r.pop() if len(r) == 1 and None not in r else None
    if is_const(t) and isinstance(cval(t), (int, float)) or t.op == "neg":
        return ()
    return None


def _lit_rank(t):
    s = _lit_shape(t)
    return None if s is None else len(s)


def _nokey(rest, p):
    return rest.op == "minus" and p in rest.args[1]


def _fancy(i):
    if i.op == "tuple":
        return any(_fancy(x) for x in i.args)
    return i.op in ("lt", "le", "gt", "ge", "eq", "ne", "listv", "not", "invert", "bitand", "bitor")


def _load(t):
    import copy
    n = copy.deepcopy(t)
    for m in ast.walk(n):
        if hasattr(m, "ctx"):
            m.ctx = ast.Load()
    return n


def _scope(body):
    from .project import scope_walk
    return scope_walk(body)
