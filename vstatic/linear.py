"""Linear normal forms over integer terms and the sign of a form whose atoms are non-negative.
Used to decide comparisons of index arithmetic (extents, region borders) under a stated case."""
from .terms import T, cval, is_const


def lin(t, subst=None):
    """term -> {atom: coefficient, None: constant}, or None when it is not linear over integers"""
    if subst and t in subst:
        return dict(subst[t])
    if is_const(t):
        v = cval(t)
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return None
        return {None: v} if v else {}
    o = t.op
    if o in ("add", "sub"):
        a, b = lin(t.args[0], subst), lin(t.args[1], subst)
        if a is None or b is None:
            return None
        return plus(a, b, 1 if o == "add" else -1)
    if o == "neg":
        a = lin(t.args[0], subst)
        return None if a is None else plus({}, a, -1)
    if o == "mul":
        a, b = lin(t.args[0], subst), lin(t.args[1], subst)
        if a is None or b is None:
            return None
        for x, y in ((a, b), (b, a)):
            if set(x) <= {None}:
                return plus({}, y, x.get(None, 0))
        return None
    if o == "call" and t.args[0] in ("builtins.int",) and len(t.args[1]) == 1:
        return lin(t.args[1][0], subst)
    if o == "call" and t.args[0] in ("builtins.abs", "numpy.abs", "numpy.absolute") and len(t.args[1]) == 1:
        a = lin(t.args[1][0], subst)
        s = sign(a) if a is not None else None
        if s in ("0", "+", ">="):
            return a
        if s in ("-", "<="):
            return plus({}, a, -1)
    if o == "call" and t.args[0] in ("builtins.max", "builtins.min", "numpy.maximum", "numpy.minimum"):
        xs = t.args[1]
        if len(xs) == 1 and items(xs[0]) is not None:
            xs = items(xs[0])
        fs = [lin(x, subst) for x in xs]
        if fs and all(f is not None for f in fs):
            big = t.args[0].split(".")[1].startswith("max")
            for f in fs:
                ss = [sign(plus(f, g, -1)) for g in fs]
                if all(x in (("0", "+", ">=") if big else ("0", "-", "<=")) for x in ss):
                    return f
    return {t: 1}


def plus(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
        if r[x] == 0:
            del r[x]
    return r


def sign(d):
    """sign of a linear form whose atoms are all >= 0: '0', '+', '-', '>=', '<=' or None"""
    if not d:
        return "0"
    cs = list(d.values())
    k = d.get(None, 0)
    if all(c > 0 for c in cs):
        return "+" if k > 0 else ">="
    if all(c < 0 for c in cs):
        return "-" if k < 0 else "<="
    return None


def items(t):
    """elements of a literal sequence (through array/list/tuple conversions), or None"""
    while isinstance(t, T) and t.op == "call" and t.args[0] in ("numpy.array", "numpy.asarray", "builtins.tuple", "builtins.list", "numpy.copy") and t.args[1]:
        t = t.args[1][0]
    while isinstance(t, T) and t.op == "mcall" and t.args[1] in ("tolist", "copy", "astype"):
        t = t.args[0]
        while t.op == "call" and t.args[0] in ("numpy.array", "numpy.asarray") and t.args[1]:
            t = t.args[1][0]
    if t.op in ("tuple", "listv"):
        if any(x.op in ("each", "starof") for x in t.args):
            return None
        return list(t.args)
    return None


def order_facts(e, subst, shape_items=None):
    """facts(key) deciding comparisons of linear integer terms (also element-wise, under all()/any()) for the case described by
    subst, which expresses terms through non-negative atoms."""
    def its(t):
        if t.op == "call" and t.args[0] in ("numpy.array", "numpy.asarray", "builtins.tuple", "builtins.list") and t.args[1]:
            return its(t.args[1][0])
        if t.op == "mcall" and t.args[1] in ("tolist", "copy"):
            return its(t.args[0])
        if t.op == "shape":
            n = e.ndim(t.args[0])
            return [e.dim(t.args[0], i) for i in range(n)] if n is not None else None
        if t.op == "getitem":
            b = its(t.args[0])
            i = t.args[1]
            if b is not None and i.op == "slice" and all(is_const(x) for x in i.args):
                return b[slice(*[cval(x) for x in i.args])]
            return None
        if t.op in ("sub", "add"):
            a, b = its(t.args[0]), its(t.args[1])
            if a is not None and b is not None and len(a) == len(b):
                return [T(t.op, (x, y)) for x, y in zip(a, b)]
            return None
        return items(t)

    def array(t):
        return t.op == "call" and t.args[0].startswith("numpy.") or t.op in ("add", "sub", "mul", "getitem") and array(t.args[0])

    def scalar(o, a, b):
        x, y = lin(a, subst), lin(b, subst)
        if x is None or y is None:
            return None
        s = sign(plus(x, y, -1))
        if s is None:
            return None
        if o == "lt":
            return {"-": True, "0": False, "+": False, ">=": False}.get(s)
        if o == "le":
            return {"-": True, "0": True, "<=": True, "+": False}.get(s)
        if o == "eq":
            return {"0": True, "+": False, "-": False}.get(s)
        return None

    def pairs(key):
        a, b = key.args
        x, y = its(a), its(b)
        if x is not None and y is None and lin(b, subst) is not None:
            y = [b] * len(x)
        if y is not None and x is None and lin(a, subst) is not None:
            x = [a] * len(y)
        if x is None or y is None:
            return None
        return x, y

    def elementwise(c):
        """truth values of an element-wise comparison"""
        pol = True
        while c.op in ("not", "invert"):
            c, pol = c.args[0], not pol
        o = c.op
        flip = {"gt": "lt", "ge": "le"}
        if o in flip:
            c = T(flip[o], (c.args[1], c.args[0]))
        elif o == "ne":
            c, pol = T("eq", c.args), not pol
        if c.op not in ("lt", "le", "eq"):
            return None
        p = pairs(c)
        if p is None or len(p[0]) != len(p[1]):
            return None
        r = [scalar(c.op, a, b) for a, b in zip(*p)]
        return [v if pol or v is None else not v for v in r]

    def f(key):
        if key.op in ("lt", "le", "eq"):
            v = scalar(key.op, *key.args)
            if v is not None:
                return v
            if key.op == "eq" and not any(array(x) for x in key.args):
                p = pairs(key)
                if p is not None:
                    if len(p[0]) != len(p[1]):
                        return False
                    r = [scalar("eq", a, b) for a, b in zip(*p)]
                    return False if any(x is False for x in r) else True if all(r) else None
            return None
        inner = q = None
        if key.op == "call" and key.args[0] in ("numpy.all", "numpy.any", "builtins.all", "builtins.any") and len(key.args[1]) == 1:
            inner, q = key.args[1][0], key.args[0].split(".")[1]
        elif key.op == "mcall" and key.args[1] in ("all", "any") and not key.args[2]:
            inner, q = key.args[0], key.args[1]
        elif key.op == "call" and key.args[0] == "numpy.array_equal" and len(key.args[1]) == 2:
            return f(T("eq", key.args[1]))
        if inner is not None:
            r = elementwise(inner)
            if r is None:
                return None
            if q == "all":
                return False if any(x is False for x in r) else True if all(x is True for x in r) else None
            return True if any(x is True for x in r) else False if all(x is False for x in r) else None
        return None

    f.pairs, f.scalar, f.its = pairs, scalar, its
    return f
