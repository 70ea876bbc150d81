"""Identity testing of normal forms: two forms that agree at random points are not reported as different.

Only used to withdraw a "different" verdict that the rewriting rules are too weak to see as equal; functions the domain gives no meaning are
treated as uninterpreted (same arguments, same value)."""
import hashlib
import math
import random
from . import poly as P
from . import models

NV = 7


class Fail(Exception):
    pass


def _bc(f, *xs):
    n = None
    for x in xs:
        if isinstance(x, list):
            if n is not None and n != len(x):
                if len(x) == 1 or n == 1:
                    n = max(n, len(x))
                else:
                    raise Fail()
            else:
                n = len(x)
    if n is None:
        return f(*xs)
    g = [x * n if isinstance(x, list) and len(x) == 1 else x for x in xs]
    return [f(*[x[i] if isinstance(x, list) else x for x in g]) for i in range(n)]


def _pw(b, e):
    if b == 0 and e < 0:
        raise Fail()
    if b < 0 and P.fr(e).denominator != 1:
        if P.fr(e).denominator % 2 == 1:
            return -((-b) ** float(e))
        raise Fail()
    return b ** (int(e) if P.fr(e).denominator == 1 else float(e))


EL = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'log': math.log, 'log10': math.log10, 'log2': math.log2, 'abs': abs,
      'arctan2': math.atan2, 'arctan': math.atan, 'arccos': math.acos, 'arcsin': math.asin, 'ge0': lambda x: float(x >= 0), 'gt0': lambda x: float(x > 0),
      'eq0': lambda x: float(x == 0), 'ne0': lambda x: float(x != 0), 'not': lambda x: 1.0 - x, 'floor': math.floor, 'ceil': math.ceil,
      'sign': lambda x: float((x > 0) - (x < 0)), 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'maximum': max, 'minimum': min,
      'isnan': lambda x: 0.0, 'isfinite': lambda x: 1.0, 'poly': lambda x: x, 'or': lambda *x: float(any(x))}


def _list(x):
    if not isinstance(x, list):
        raise Fail()
    if not x:
        raise Fail()
    return x


def _med(x):
    s = sorted(_list(x))
    n = len(s)
    return s[n // 2] if n % 2 else 0.5 * (s[n // 2 - 1] + s[n // 2])


def _std(x):
    m = sum(_list(x)) / len(x)
    return math.sqrt(sum((v - m) ** 2 for v in x) / len(x))


RED = {'sum': lambda x: sum(_list(x)), 'mean': lambda x: sum(_list(x)) / len(x), 'max': lambda x: max(_list(x)), 'min': lambda x: min(_list(x)),
       'median': _med, 'std': _std, 'sort': lambda x: sorted(_list(x)), 'argsort': lambda x: [float(i) for i in sorted(range(len(_list(x))), key=x.__getitem__)],
       'argmin': lambda x: float(min(range(len(_list(x))), key=x.__getitem__)), 'argmax': lambda x: float(max(range(len(_list(x))), key=x.__getitem__))}


class Point:
    def __init__(self, seed, rng=None):
        self.seed = seed
        self.rng = rng or {}
        self.memo = {}
        self.steps = 0

    def rnd(self, key):
        return random.Random('%s|%s' % (self.seed, key))

    def base(self, a):
        r = self.rnd(a)
        if a in self.rng:
            u = self.rng[a]
            return u[0](self.atom(u[1])) if callable(u[0]) else r.uniform(*u)
        pos = models.is_pos_atom(a)

        def one():
            v = r.uniform(0.4, 2.1)
            return v if pos or r.random() < 0.5 else -v
        if models.is_scalar_atom(a) or a in ('nn',):
            return one()
        return [one() for _ in range(NV)]

    def opaque(self, a, args):
        h = hashlib.md5(repr((a[1], args)).encode()).hexdigest()
        r = self.rnd(h)
        if models.is_scalar_atom(a):
            return r.uniform(0.4, 2.1)
        return [r.uniform(0.4, 2.1) for _ in range(NV)]

    def key(self, x):
        if isinstance(x, P.Poly):
            return self.rd(self.val(x))
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] == 'f' and isinstance(x[1], str):
                return self.rd(self.atom(x))
            return tuple(self.key(y) for y in x)
        return repr(x)

    def rd(self, v):
        if isinstance(v, list):
            return tuple(self.rd(y) for y in v)
        return '%.7g' % (v + 0.0) if abs(v) > 1e-12 else '0'

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        self.steps += 1
        if self.steps > 20000:
            raise Fail()
        if isinstance(a, str):
            v = self.base(a)
        else:
            v = self.fn(a)
        self.memo[a] = v
        return v

    def fn(self, a):
        n = a[1]
        xs = a[2:]
        if n in EL and all(isinstance(x, P.Poly) for x in xs):
            return _bc(EL[n], *[self.val(x) for x in xs])
        if n in RED and len(xs) == 1 and isinstance(xs[0], P.Poly):
            return RED[n](self.val(xs[0]))
        if n == 'pow' and len(xs) == 2 and all(isinstance(x, P.Poly) for x in xs):
            return _bc(lambda x, y: float(x) ** y if x > 0 else (_ for _ in ()).throw(Fail()), self.val(xs[0]), self.val(xs[1]))
        if n == 'sel' and len(xs) == 2 and all(isinstance(x, P.Poly) for x in xs):
            k = xs[1]
            m = k.t and all(not mm or all(isinstance(y, tuple) and y[1] in P.BOOL for y, e in mm) for mm in k.t)
            if m:
                b, v = self.val(k), self.val(xs[0])
                if isinstance(b, list) and isinstance(v, list) and len(b) == len(v):
                    r = [y for y, z in zip(v, b) if z]
                    if r:
                        return r
                    raise Fail()
        return self.opaque(a, tuple(self.key(x) for x in xs))

    def val(self, p):
        r = 0.0
        for m, c in p.t.items():
            if isinstance(c, complex):
                raise Fail()
            t = float(c)
            for a, e in m:
                x = self.atom(a)
                t = _bc(lambda u, w: u * _pw(w, e), t, x)
            r = _bc(lambda u, w: u + w, r, t)
        return r


def close(a, b):
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return abs(a - b) <= 1e-6 * max(abs(a), abs(b), 1e-9) or abs(a - b) < 1e-11


def agree(v, w, n=3, rng=None):
    """True: equal at n random points; False: different at one; None: could not be evaluated"""
    good = 0
    for s in range(4 * n):
        try:
            q = Point(s, rng)
            if not close(q.val(v), q.val(w)):
                return False
            good += 1
            if good >= n:
                return True
        except (Fail, ValueError, OverflowError, ZeroDivisionError, RecursionError, TypeError):
            continue
    return None
