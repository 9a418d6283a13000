"""Constant folding of array terms made of literals (np.array of nested lists, rotations, flips, indexing, arithmetic)."""
from fractions import Fraction
from itertools import product

from .terms import T, cval, is_const


class NoConst(Exception):
    """the term is no array constant the folder knows"""


class Arr:
    __slots__ = ("shape", "data")

    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), data      # data: {index tuple: number}

    def idx(self):
        return product(*(range(n) for n in self.shape))

    @property
    def ndim(self):
        return len(self.shape)

    def flat(self):
        return [self.data[i] for i in self.idx()]

    def same(self, o):
        return self.shape == o.shape and all(self.data[i] == o.data[i] for i in self.idx())

    def map(self, f):
        return Arr(self.shape, {i: f(v) for i, v in self.data.items()})

    def remap(self, shape, f):
        return Arr(shape, {i: self.data[f(i)] for i in product(*(range(n) for n in shape))})

    def transpose(self, axes):
        if sorted(axes) != list(range(self.ndim)):
            raise NoConst("axes")
        inv = [axes.index(a) for a in range(self.ndim)]
        return self.remap([self.shape[a] for a in axes], lambda i: tuple(i[inv[a]] for a in range(self.ndim)))

    def flip(self, axes):
        return self.remap(self.shape, lambda i: tuple(self.shape[a] - 1 - x if a in axes else x for a, x in enumerate(i)))

    def rot90(self, k, a, b):
        r = self
        sw = list(range(self.ndim))
        sw[a], sw[b] = b, a
        for _ in range(k % 4):
            r = r.flip({b}).transpose(sw)
        return r


def scalar(v):
    return Arr((), {(): v})


def _num(t):
    if is_const(t):
        v = cval(t)
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise NoConst(repr(v))
        return Fraction(v) if isinstance(v, float) else v
    a = fold(t)
    if a.shape != ():
        raise NoConst("number expected")
    return a.data[()]


def _int(t):
    v = _num(t)
    if v != int(v):
        raise NoConst("integer expected")
    return int(v)


def _items(t):
    if t.op in ("tuple",):
        return list(t.args)
    if t.op == "listv":
        return list(t.args)
    raise NoConst(t.op)


def _stack(arrs, axis=0):
    if not arrs or any(a.shape != arrs[0].shape for a in arrs):
        raise NoConst("ragged")
    n = arrs[0].ndim + 1
    axis %= n
    sh = arrs[0].shape[:axis] + (len(arrs),) + arrs[0].shape[axis:]
    return Arr(sh, {i: arrs[i[axis]].data[i[:axis] + i[axis + 1:]] for i in product(*(range(k) for k in sh))})


def bcast(a, b, f):
    n = max(a.ndim, b.ndim)
    sa, sb = (1,) * (n - a.ndim) + a.shape, (1,) * (n - b.ndim) + b.shape
    sh = []
    for x, y in zip(sa, sb):
        if x != y and 1 not in (x, y):
            raise NoConst("broadcast")
        sh.append(max(x, y))

    def at(q, s, i):
        return q.data[tuple(0 if s[k] == 1 else i[k] for k in range(n))[n - q.ndim:]]
    return Arr(sh, {i: f(at(a, sa, i), at(b, sb, i)) for i in product(*(range(k) for k in sh))})


def _index(a, t):
    """(result shape, map result index -> source index)"""
    parts = list(t.args) if t.op == "tuple" else [t]
    if any(is_const(p, Ellipsis) for p in parts):
        j = next(k for k, p in enumerate(parts) if is_const(p, Ellipsis))
        parts[j:j + 1] = [None] * (a.ndim - (len(parts) - 1))
    if len(parts) > a.ndim:
        raise NoConst("too many indices")
    parts += [None] * (a.ndim - len(parts))
    axes = []
    for k, p in enumerate(parts):
        n = a.shape[k]
        if p is None:
            axes.append(list(range(n)))
        elif p.op == "slice":
            v = [None if is_const(x, None) else _int(x) for x in p.args]
            axes.append(list(range(n))[slice(*v)])
        else:
            i = _int(p)
            if not -n <= i < n:
                raise NoConst("index")
            axes.append(i % n)
    sh = [len(x) for x in axes if isinstance(x, list)]

    def f(i):
        it = iter(i)
        return tuple(x[next(it)] if isinstance(x, list) else x for x in axes)
    return sh, f


def _axes(t):
    return [_int(x) for x in _items(t)] if t.op in ("tuple", "listv") else [_int(t)]


_MEMO = {}


def fold(t):
    r = _MEMO.get(t)
    if r is None:
        r = _MEMO[t] = _fold(t)
    return r


def _arg(t, n, name, default=None):
    pos, kw = t.args[1], dict(t.args[2])
    if len(pos) > n:
        return pos[n]
    return kw.get(name, default)


_BIN = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y,
        "div": lambda x, y: Fraction(x) / y, "truediv": lambda x, y: Fraction(x) / y}


def _fold(t):
    if not isinstance(t, T):
        raise NoConst("no term")
    if is_const(t):
        return scalar(_num(t))
    if t.op in ("listv", "tuple"):
        return _stack([fold(x) for x in t.args])
    if t.op == "neg":
        return fold(t.args[0]).map(lambda v: -v)
    if t.op in _BIN:
        try:
            return bcast(fold(t.args[0]), fold(t.args[1]), _BIN[t.op])
        except ZeroDivisionError:
            raise NoConst("division by zero")
    if t.op == "attr" and t.args[1] == "T":
        a = fold(t.args[0])
        return a.transpose(list(range(a.ndim))[::-1])
    if t.op == "getitem":
        a = fold(t.args[0])
        sh, f = _index(a, t.args[1])
        return a.remap(sh, f)
    if t.op == "view":
        base, spec, fixed = t.args
        a = fold(base)
        fx = {k: _int(i) for k, i in fixed}
        pos = {}
        sh = []
        for j, s in enumerate(spec):
            if s[0] == "new":
                sh.append(1)
                continue
            if s[2]:
                raise NoConst("range")
            pos[s[0]] = (j, s[1])
            sh.append(a.shape[s[0]])
        if len(pos) + len(fx) != a.ndim:
            raise NoConst("view")
        return a.remap(sh, lambda i: tuple(fx[k] % a.shape[k] if k in fx else a.shape[k] - 1 - i[pos[k][0]] if pos[k][1] else i[pos[k][0]]
                                           for k in range(a.ndim)))
    if t.op == "store":
        a, v = fold(t.args[0]), fold(t.args[2])
        sh, f = _index(a, t.args[1])
        v = bcast(Arr(sh, {i: 0 for i in product(*(range(k) for k in sh))}), v, lambda x, y: y)
        d = dict(a.data)
        for i in product(*(range(k) for k in sh)):
            d[f(i)] = v.data[i]
        return Arr(a.shape, d)
    if t.op in ("call", "alloc") and isinstance(t.args[0], str) and t.args[0].startswith("numpy."):
        s = t.args[0][6:]
        if s in ("array", "asarray", "asanyarray", "ascontiguousarray", "copy", "stack", "astype", "float64", "int64", "vstack", "squeeze", "flip", "flipud",
                 "fliplr", "rot90", "transpose", "swapaxes", "moveaxis", "negative", "outer", "multiply", "add", "subtract", "divide", "expand_dims", "reshape"):
            a = fold(_arg(t, 0, "m" if s in ("flip", "flipud", "fliplr", "rot90") else "a"))
            n = a.ndim
        if s in ("astype", "array", "asarray", "asanyarray"):
            d = _arg(t, 1, "dtype")
            if d is not None and not any(k in str(d) for k in ("float", "int")) or d is not None and "uint" in str(d):
                raise NoConst("dtype")
            if d is not None and "int" in str(d) and any(v != int(v) for v in a.data.values()):
                raise NoConst("dtype")
            return a
        if s in ("ascontiguousarray", "copy", "float64", "int64"):
            return a
        if s == "stack":
            x = _arg(t, 1, "axis")
            return _stack([fold(i) for i in _items(_arg(t, 0, "arrays"))], 0 if x is None else _int(x))
        if s in ("zeros", "ones"):
            sh = _axes(_arg(t, 0, "shape"))
            return Arr(sh, {i: int(s == "ones") for i in product(*(range(k) for k in sh))})
        if s == "flip":
            x = _arg(t, 1, "axis")
            return a.flip(set(range(n)) if x is None or is_const(x, None) else {i % n for i in _axes(x)})
        if s == "flipud":
            return a.flip({0})
        if s == "fliplr":
            return a.flip({1})
        if s == "rot90":
            k, ax = _arg(t, 1, "k"), _arg(t, 2, "axes")
            x, y = (0, 1) if ax is None else [i % n for i in _axes(ax)]
            return a.rot90(1 if k is None else _int(k), x, y)
        if s == "transpose":
            x = _arg(t, 1, "axes")
            return a.transpose(list(range(n))[::-1] if x is None or is_const(x, None) else [i % n for i in _axes(x)])
        if s == "swapaxes":
            x, y = _int(_arg(t, 1, "axis1")) % n, _int(_arg(t, 2, "axis2")) % n
            p = list(range(n))
            p[x], p[y] = y, x
            return a.transpose(p)
        if s == "moveaxis":
            x, y = _int(_arg(t, 1, "source")) % n, _int(_arg(t, 2, "destination")) % n
            p = [i for i in range(n) if i != x]
            p.insert(y, x)
            return a.transpose(p)
        if s == "negative":
            return a.map(lambda v: -v)
        if s == "outer":
            b = fold(_arg(t, 1, "b"))
            fa, fb = a.flat(), b.flat()
            return Arr((len(fa), len(fb)), {(i, j): fa[i] * fb[j] for i in range(len(fa)) for j in range(len(fb))})
        if s in ("multiply", "add", "subtract", "divide"):
            try:
                return bcast(a, fold(_arg(t, 1, "x2")), _BIN[{"multiply": "mul", "add": "add", "subtract": "sub", "divide": "div"}[s]])
            except ZeroDivisionError:
                raise NoConst("division by zero")
        if s == "reshape":
            sh = _axes(_arg(t, 1, "newshape"))
            fl = a.flat()
            if sh.count(-1) == 1:
                m = 1
                for x in sh:
                    m *= x if x != -1 else 1
                sh[sh.index(-1)] = len(fl) // m
            idx = list(product(*(range(k) for k in sh)))
            if len(idx) != len(fl):
                raise NoConst("reshape")
            return Arr(sh, dict(zip(idx, fl)))
    raise NoConst(t.op if t.op not in ("call", "alloc") else str(t.args[0]))
