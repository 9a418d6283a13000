"""Parses every Python source file of the repository and indexes definitions."""
import ast
import os
import hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisBroken(Exception):
    """The analysis cannot answer (missing anchor, unparsable file...)."""


class FuncInfo:
    __slots__ = ("mod", "qual", "node", "cls", "locals", "globals", "nonlocals", "is_gen", "decos", "parent")

    def __init__(self, mod, qual, node, cls=None, parent=None):
        self.mod, self.qual, self.node, self.cls, self.parent = mod, qual, node, cls, parent
        self.globals, self.nonlocals = set(), set()
        self.is_gen = False
        self.locals = set()
        self._scan()
        self.decos = []
        for d in getattr(node, "decorator_list", []):
            self.decos.append(ast.unparse(d))

    def _scan(self):
        a = self.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(p.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)
        body = self.node.body if isinstance(self.node.body, list) else [ast.Expr(self.node.body)]
        for n in scope_walk(body):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.locals.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            elif isinstance(n, ast.Global):
                self.globals.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                self.locals.add(n.name)
        self.locals -= self.globals
        self.locals -= self.nonlocals

    @property
    def name(self):
        return self.qual.split(".")[-1]

    @property
    def label(self):
        return f"{self.mod}.{self.qual}"


def scope_walk(body):
    """Walk statements without entering nested function / class / comprehension scopes
    (named expressions inside comprehensions do bind in the enclosing scope)."""
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    yield m.target
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassInfo:
    __slots__ = ("mod", "name", "node", "methods", "bases", "attrs")

    def __init__(self, mod, node):
        self.mod, self.name, self.node = mod, node.name, node
        self.methods = {}
        self.bases = []
        self.attrs = {}


def counted_loops(tree):
    """rewrite `while i < n: …; i += step` to `for i in range(i, n, step): …` where both mean the same"""
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name)]
        for blk in reversed([n for n in ast.walk(fn) if isinstance(n, (ast.stmt, ast.ExceptHandler, ast.match_case))]):
            for field in ("body", "orelse", "finalbody"):
                body = getattr(blk, field, None)
                if isinstance(body, list):
                    body[:] = [counted(s, uses) or s for s in body]


def counted(w, uses):
    if not isinstance(w, ast.While) or w.orelse or len(w.body) < 2 or not isinstance(w.test, ast.Compare) or len(w.test.ops) != 1:
        return None
    t, op, hi, inc = w.test.left, w.test.ops[0], w.test.comparators[0], w.body[-1]
    if isinstance(op, (ast.Gt, ast.GtE)):
        t, hi, op = hi, t, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(op)]()
    if not isinstance(t, ast.Name) or not isinstance(op, (ast.Lt, ast.LtE)):
        return None
    if isinstance(inc, ast.AugAssign) and isinstance(inc.op, ast.Add) and isinstance(inc.target, ast.Name) and inc.target.id == t.id:
        step = inc.value
    elif isinstance(inc, ast.Assign) and len(inc.targets) == 1 and isinstance(inc.targets[0], ast.Name) and inc.targets[0].id == t.id \
            and isinstance(inc.value, ast.BinOp) and isinstance(inc.value.op, ast.Add) and isinstance(inc.value.left, ast.Name) and inc.value.left.id == t.id:
        step = inc.value.right
    else:
        return None
    rest = w.body[:-1]
    if isinstance(step, ast.Constant) and not (isinstance(step.value, int) and step.value > 0) or not isinstance(step, (ast.Constant, ast.Name, ast.Attribute)):
        return None
    inner = [n for s in rest for n in ast.walk(s)]
    if any(isinstance(n, (ast.Continue, ast.Break, ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for n in inner):
        return None
    set_ = {n.id for n in inner if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
    fixed = {n.id for x in (hi, step) for n in ast.walk(x) if isinstance(n, ast.Name)} | {t.id}
    if set_ & fixed:
        return None
    for x in ast.walk(hi):  # the bound is the same in every iteration
        if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ("min", "max", "int", "abs", "len")):
            return None
        if isinstance(x, ast.Call) and x.func.id == "len":  # of something the loop does not touch except to read items
            a = x.args[0] if len(x.args) == 1 else None
            reads = {id(n.value) for n in inner if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load)}
            if not isinstance(a, (ast.Name, ast.Attribute)) or any(isinstance(n, type(a)) and ast.dump(n) == ast.dump(a) and id(n) not in reads for n in inner):
                return None
        if isinstance(x, ast.Attribute) and x.attr not in ("shape", "ndim", "size"):
            return None
    after = [n for n in uses if n.id == t.id and n.lineno > w.end_lineno]
    first = min((n.lineno for n in after if isinstance(n.ctx, ast.Store)), default=None)
    if any(isinstance(n.ctx, ast.Load) and (first is None or n.lineno < first) for n in after):
        return None
    if isinstance(op, ast.LtE):
        hi = ast.BinOp(hi, ast.Add(), ast.Constant(1))
    new = ast.For(ast.Name(t.id, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [ast.Name(t.id, ast.Load()), hi] + ([] if isinstance(step, ast.Constant) and step.value == 1 else [step]), []), rest, [])
    ast.copy_location(new, w)
    for x in ast.walk(new):
        if not hasattr(x, "lineno") and isinstance(x, (ast.expr, ast.stmt)):
            ast.copy_location(x, w)
    return ast.fix_missing_locations(new)


class Module:
    __slots__ = ("name", "path", "rel", "tree", "src", "is_pkg")

    def __init__(self, name, path, rel, src, is_pkg):
        self.name, self.path, self.rel, self.src, self.is_pkg = name, path, rel, src, is_pkg
        self.tree = ast.parse(src, filename=path)
        counted_loops(self.tree)


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.digest = hashlib.sha256()
        src = os.path.join(self.repo, "src")
        for top in ("viqa", "scripts"):
            base = os.path.join(src, top)
            if not os.path.isdir(base):
                raise AnalysisBroken(f"missing source folder {base}")
            for dp, dn, fn in os.walk(base):
                dn[:] = sorted(d for d in dn if d not in ("__pycache__", "_build"))
                for f in sorted(fn):
                    if f.endswith(".py"):
                        self._add(src, os.path.join(dp, f))
        for m in self.modules.values():
            self._index(m)

    def _add(self, src, path):
        rel = os.path.relpath(path, src)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        name = ".".join(parts)
        with open(path, "rb") as f:
            data = f.read()
        self.digest.update(rel.encode() + b"\0" + data)
        try:
            self.modules[name] = Module(name, path, os.path.relpath(path, self.repo), data.decode("utf-8"), is_pkg)
        except SyntaxError as e:
            raise AnalysisBroken(f"cannot parse {path}: {e}")

    def _index(self, m):
        def visit(body, prefix, cls, parent):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = prefix + n.name
                    fi = FuncInfo(m.name, q, n, cls, parent)
                    self.funcs[(m.name, q)] = fi
                    if cls is not None and parent is None:
                        cls.methods[n.name] = fi
                    visit(n.body, q + ".<locals>.", None, fi)
                elif isinstance(n, ast.ClassDef):
                    if parent is None and prefix == "":
                        ci = ClassInfo(m.name, n)
                        self.classes[(m.name, n.name)] = ci
                        visit(n.body, n.name + ".", ci, None)
                    else:
                        visit(n.body, prefix + n.name + ".", None, parent)
                elif isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    for field in ("body", "orelse", "finalbody"):
                        visit(getattr(n, field, []), prefix, cls, parent)
                    for h in getattr(n, "handlers", []):
                        visit(h.body, prefix, cls, parent)
                elif isinstance(n, ast.Match):
                    for c in n.cases:
                        visit(c.body, prefix, cls, parent)
        visit(m.tree.body, "", None, None)

    def func(self, mod, qual):
        f = self.funcs.get((mod, qual))
        if f is None:
            raise AnalysisBroken(f"anchor vanished: {mod}.{qual}")
        return f
