"""Polynomial / rational normal forms of scalar expressions: two expressions over the same atoms are equal as functions if their
normal forms are."""
from fractions import Fraction

from .terms import T, cval, is_const


class Unknown(Exception):
    pass


ONE = ()


def pconst(v):
    v = Fraction(v)
    return {ONE: v} if v else {}


def patom(a, k=1):
    return {((a, k),): Fraction(1)}


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def _mm(m, n):
    d = dict(m)
    for a, k in n:
        d[a] = d.get(a, 0) + k
    return tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: repr(x[0])))


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            x = _mm(m, n)
            r[x] = r.get(x, 0) + c * d
            if not r[x]:
                del r[x]
    return r


def ppow(p, n):
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, p)
    return r


def pkey(p):
    return frozenset(p.items())


class Rat:
    """quotient of two polynomials"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n, self.d = n, d if d is not None else pconst(1)

    def __add__(self, o):
        if self.d == o.d:
            return Rat(padd(self.n, o.n), self.d)
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __neg__(self):
        return Rat(pmul(self.n, pconst(-1)), self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d))

    def __truediv__(self, o):
        if not o.n:
            raise Unknown("division by zero")
        return Rat(pmul(self.n, o.d), pmul(self.d, o.n))

    def same(self, o):
        if self.d == o.d:
            return self.n == o.n
        return pmul(self.n, o.d) == pmul(o.n, self.d)

    def value(self):
        """the constant this is, or None"""
        if not self.n:
            return Fraction(0)
        if set(self.n) == set(self.d):
            q = {c / self.d[m] for m, c in self.n.items()}
            if len(q) == 1:
                return q.pop()
        return None

    def poly(self):
        if set(self.d) == {ONE}:
            return {m: c / self.d[ONE] for m, c in self.n.items()}
        raise Unknown("not a polynomial")

    def atoms(self):
        return {a for p in (self.n, self.d) for m in p for a, _ in m}

    def key(self):
        # scale so that the smallest monomial of the denominator has coefficient 1
        m = min(self.d, key=repr)
        k = self.d[m]
        return (frozenset((x, c / k) for x, c in self.n.items()), frozenset((x, c / k) for x, c in self.d.items()))


CAST = {"builtins.float", "numpy.float64", "numpy.float32", "numpy.double", "numpy.float_", "numpy.longdouble", "builtins.int", "numpy.asarray", "numpy.array", "numpy.squeeze",
        "numpy.ascontiguousarray", "numpy.copy", "numpy.asanyarray"}
BIN = {"numpy.add": "add", "numpy.subtract": "sub", "numpy.multiply": "mul", "numpy.divide": "div", "numpy.true_divide": "div", "numpy.power": "pow", "numpy.float_power": "pow",
       "builtins.pow": "pow"}


def rat(t, leaf, memo=None):
    """rational normal form of term t; leaf(t) -> Rat for atoms, or None to descend; raises Unknown"""
    if memo is None:
        memo = {}

    def go(t):
        if t in memo:
            return memo[t]
        r = leaf(t)
        if r is None:
            r = step(t)
        memo[t] = r
        return r

    def step(t):
        if is_const(t):
            v = cval(t)
            if isinstance(v, (int, float)) and v == v and v not in (float("inf"), float("-inf")):
                return Rat(pconst(Fraction(v)))
            raise Unknown(repr(v))
        o, a = t.op, t.args
        if o == "call":
            n = a[0]
            if n in CAST and len(a[1]) >= 1:
                return go(a[1][0])
            if n in ("numpy.astype",):
                return go(a[1][0])
            if n in BIN and len(a[1]) == 2:
                return binop(BIN[n], *a[1])
            if n == "numpy.square":
                return go(a[1][0]) * go(a[1][0])
            if n == "numpy.negative":
                return -go(a[1][0])
            if n == "numpy.reciprocal":
                return Rat(pconst(1)) / go(a[1][0])
            raise Unknown(n)
        if o in ("add", "sub", "mul", "div", "pow"):
            return binop(o, *a)
        if o == "neg":
            return -go(a[0])
        if o == "mcall" and a[1] in ("item", "astype", "copy", "squeeze"):
            return go(a[0])
        raise Unknown(o)

    def binop(o, x, y):
        if o == "pow":
            e = go(y).value()
            if e is None or e.denominator != 1 or abs(e) > 8:
                raise Unknown("power")
            b = go(x)
            if e >= 0:
                return Rat(ppow(b.n, int(e)), ppow(b.d, int(e)))
            return Rat(ppow(b.d, -int(e)), ppow(b.n, -int(e)))
        p, q = go(x), go(y)
        return p + q if o == "add" else p - q if o == "sub" else p * q if o == "mul" else p / q

    return go(t)
