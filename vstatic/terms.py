"""Hash-consed value-number terms used by the dataflow engine."""


class T:
    __slots__ = ("op", "args", "h", "n", "__weakref__")
    _tab = {}

    def __new__(cls, op, args):
        key = (op, tuple((type(a), a) for a in args))
        t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t.h = hash(key)
            t.n = len(cls._tab)
            cls._tab[key] = t
        return t

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


def mk(op, *args):
    return T(op, args)


def const(v):
    return T("const", (v,))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t, *vals):
    if not isinstance(t, T) or t.op != "const":
        return False
    if not vals:
        return True
    return any(t.args[0] is v or (type(t.args[0]) is type(v) and t.args[0] == v) for v in vals)


def cval(t):
    return t.args[0]


def sym(name, ty="any"):
    return T("sym", (name, ty))


def tup(*items):
    return T("tuple", tuple(items))


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
        return repr(t)
    if depth > 7:
        return "…"
    o, a = t.op, t.args
    d = depth + 1
    if o == "const":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o == "ext":
        return a[0]
    if o in ("func", "class"):
        return f"{a[0]}.{a[1]}"
    if o == "ref":
        return f"<obj{a[0]}>"
    if o == "tuple":
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "view":
        base, spec, fixed = a
        return f"view[{show(base, d)}; axes={_spec(spec)}; fixed={_fixed(fixed)}]"
    if o == "call" or o == "alloc":
        kw = ", ".join(f"{k}={show(v, d)}" for k, v in a[2])
        pos = ", ".join(show(x, d) for x in a[1])
        return f"{a[0]}({pos}{', ' if kw and pos else ''}{kw})"
    return f"{o}({', '.join(show(x, d) for x in a)})"


def _spec(spec):
    return "[" + ",".join("new" if s[0] == "new" else f"{'-' if s[1] else ''}{s[0]}{'' if not s[2] else '{..}'}" for s in spec) + "]"


def _fixed(fixed):
    return "{" + ",".join(f"{a}:{show(i)}" for a, i in fixed) + "}"


def subterms(t, seen=None):
    """All T sub-terms (including t)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)
    return seen


def subst(t, mapping, memo=None):
    """Replace terms (or run fn) bottom-up."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, T):
            r = memo.get(x)
            if r is not None:
                return r
            if x in mapping:
                r = mapping[x]
            else:
                na = tuple(go(a) for a in x.args)
                r = x if all(p is q for p, q in zip(na, x.args)) else T(x.op, na)
                if r in mapping:
                    r = mapping[r]
            memo[x] = r
            return r
        if isinstance(x, tuple):
            n = tuple(go(a) for a in x)
            return x if all(p is q for p, q in zip(n, x)) else n
        return x

    return go(t)


def rewrite(t, fn, memo=None):
    """Bottom-up rewrite with fn(T)->T."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, T):
            r = memo.get(x)
            if r is None:
                na = tuple(go(a) for a in x.args)
                y = x if all(p is q for p, q in zip(na, x.args)) else T(x.op, na)
                r = fn(y)
                memo[x] = r
            return r
        if isinstance(x, tuple):
            n = tuple(go(a) for a in x)
            return x if all(p is q for p, q in zip(n, x)) else n
        return x

    return go(t)


def syms(t):
    return {x for x in subterms(t) if x.op == "sym"}


def strip_ids(t):
    """Erase allocation identities so values can be compared across sites."""
    def f(x):
        if x.op == "alloc":
            return T("call", x.args[:3])
        if x.op in ("phi", "loopout"):
            return T(x.op, ("*",) + x.args[1:])
        if x.op == "closure":
            return T(x.op, tuple("*" if isinstance(a, int) else a for a in x.args))
        return x
    return rewrite(t, f)
