"""Canonical numeric value domain.

A value is a finite sum of monomials over *atoms* (global value numbering with
algebraic normalisation).  Atoms are hash-consed: plain strings (a named input)
or tuples ('f', name, args) for an uninterpreted but deterministic operation.
Scale factors are therefore tracked exactly (unit-of-measure exponents), offsets
are tracked as affine terms, and anything else stays an opaque, comparable token.
There is no solver and no path condition: two values are *known equal* iff their
normal forms coincide.
"""
import hashlib
import math
from fractions import Fraction
from functools import lru_cache

MAXTERMS = 160


def _r(c):
    """Round a coefficient for hashing."""
    if c == 0:
        return 0.0
    if isinstance(c, complex):
        return c
    if math.isinf(c) or math.isnan(c):
        return repr(c)
    return float('%.9e' % c)


def fr(e):
    if type(e) is int:
        return e
    if isinstance(e, float):
        e = Fraction(e).limit_denominator(64)
    else:
        e = Fraction(e)
    return e.numerator if e.denominator == 1 else e


class Poly:
    __slots__ = ('t', '_k', '_h')

    def __init__(self, terms):
        self.t = terms          # dict mono -> coef ; mono = tuple of (atom, exp)
        self._k = None
        self._h = None

    # -- identity -------------------------------------------------------
    def key(self):
        if self._k is None:
            items = sorted(((m, _r(c)) for m, c in self.t.items()), key=lambda x: _mono_sort(x[0]))
            self._k = tuple(items)
            self._h = hash(self._k)
        return self._k

    def __hash__(self):
        if self._h is None:
            self.key()
        return self._h

    def __eq__(self, o):
        if not isinstance(o, Poly):
            return False
        if self is o:
            return True
        if len(self.t) != len(o.t):
            return False
        for m, c in self.t.items():
            d = o.t.get(m)
            if d is None:
                return False
            if c == d:
                continue
            try:
                if abs(c - d) > 1e-7 * max(abs(c), abs(d)):
                    return False
            except Exception:
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return show(self)

    # -- queries --------------------------------------------------------
    def const(self):
        """float if constant else None"""
        if not self.t:
            return 0.0
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if m == ():
                return c
        return None

    def mono(self):
        """(coef, mono) if a single term else None"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return c, m
        return None

    def atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self, deep=False, acc=None):
        acc = set() if acc is None else acc
        for m in self.t:
            for a, _ in m:
                if a in acc:
                    continue
                acc.add(a)
                if deep:
                    _deep(a, acc)
        return acc


def _deep(a, acc):
    if isinstance(a, tuple):
        for x in a[1:]:
            _deep_arg(x, acc)


def _deep_arg(x, acc):
    if isinstance(x, Poly):
        x.atoms(True, acc)
    elif isinstance(x, tuple):
        for y in x:
            _deep_arg(y, acc)


_sortcache = {}


def atom_sort(a):
    if isinstance(a, str):
        return 'a' + a
    s = _sortcache.get(a)
    if s is None:
        s = 'f' + digest(a)
        if len(_sortcache) > 400000:
            _sortcache.clear()
        _sortcache[a] = s
    return s


def _mono_sort(m):
    return tuple((atom_sort(a), e) for a, e in m)


_digcache = {}


def digest(a):
    """stable content digest of an atom / arg / poly"""
    if isinstance(a, (str, int, float, bool, type(None), Fraction)):
        return repr(a)
    try:
        d = _digcache.get(a)
    except TypeError:
        d = None
        return repr(a)
    if d is None:
        if isinstance(a, Poly):
            s = 'P' + ';'.join('%r*%s' % (c, ','.join('%s^%s' % (digest(x), e) for x, e in m)) for m, c in a.key())
        elif isinstance(a, (tuple, frozenset)):
            it = [digest(x) for x in a]
            if isinstance(a, frozenset):
                it.sort()
            s = 'T(' + ','.join(it) + ')'
        else:
            s = repr(a)
        d = s if len(s) < 24 else hashlib.md5(s.encode()).hexdigest()
        if len(_digcache) > 600000:
            _digcache.clear()
        _digcache[a] = d
    return d


ZERO = Poly({})
ONE = Poly({(): 1.0})


def num(c):
    if c == 0:
        return ZERO
    return Poly({(): float(c) if not isinstance(c, complex) else c})


_atomcache = {}


def atom(a):
    p = _atomcache.get(a)
    if p is None:
        p = Poly({((a, 1),): 1.0})
        if len(_atomcache) > 300000:
            _atomcache.clear()
        _atomcache[a] = p
    return p


def f(name, *args):
    return atom(('f', name) + args)


def add(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    t = dict(p.t)
    for m, c in q.t.items():
        d = t.get(m)
        if d is None:
            t[m] = c
        else:
            s = c + d
            if s == 0 or (abs(s) <= 1e-9 * max(abs(c), abs(d))):
                del t[m]
            else:
                t[m] = s
    r = Poly(t)
    if len(t) > MAXTERMS:
        return f('big', digest(r))
    return r


def neg(p):
    return Poly({m: -c for m, c in p.t.items()})


def sub(p, q):
    return add(p, neg(q))


def _mono_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = {}
    for a, e in m:
        d[a] = e
    for a, e in n:
        if a in d:
            s = d[a] + e
            if s == 0:
                del d[a]
            else:
                if type(s) is Fraction and s.denominator == 1:
                    s = s.numerator
                d[a] = s
        else:
            d[a] = e
    # booleans are idempotent
    for a in list(d):
        if isinstance(a, tuple) and a[1] in BOOL and d[a] > 1:
            d[a] = 1
    return tuple(sorted(d.items(), key=lambda x: (atom_sort(x[0]), x[1])))


BOOL = {'ge0', 'gt0', 'eq0', 'ne0', 'bool', 'not', 'or', 'and', 'eqs', 'nes', 'isin', 'isnan', 'full_bool'}


def _needs_expand(m):
    """atoms ('f','sum',P) raised to integer exponents >=1 are expanded"""
    for a, e in m:
        if isinstance(a, tuple) and a[1] == 'poly' and e.denominator == 1 and e >= 1:
            return (a, e)
    return None


_mc = {}


def mul(p, q):
    if p is ONE:
        return q
    if q is ONE:
        return p
    k = (p, q)
    r = _mc.get(k)
    if r is None:
        r = _mul(p, q)
        if len(_mc) > 200000:
            _mc.clear()
        _mc[k] = r
    return r


def _mul(p, q):
    if not p.t or not q.t:
        return ZERO
    if len(p.t) * len(q.t) > 4 * MAXTERMS:
        return f('big', digest(p), digest(q))
    t = {}
    extra = []
    for m, c in p.t.items():
        for n, d in q.t.items():
            k = _mono_mul(m, n)
            ne = _needs_expand(k)
            if ne:
                a, e = ne
                rest = tuple(x for x in k if x[0] != a)
                base = a[2]
                if e <= 4:
                    r = Poly({rest: c * d})
                    for _ in range(int(e)):
                        r = mul(r, base)
                    extra.append(r)
                    continue
            v = t.get(k)
            if v is None:
                t[k] = c * d
            else:
                s = v + c * d
                if s == 0 or abs(s) <= 1e-9 * max(abs(v), abs(c * d)):
                    del t[k]
                else:
                    t[k] = s
    r = Poly(t)
    for x in extra:
        r = add(r, x)
    r = trig(r)
    if len(r.t) > MAXTERMS:
        return f('big', digest(r))
    return r


def trig(p):
    """rewrite sin(a)^n (n>=2) -> sin^(n-2) (1-cos(a)^2)"""
    for m, c in p.t.items():
        for a, e in m:
            if isinstance(a, tuple) and a[1] == 'sin' and e.denominator == 1 and e >= 2:
                rest = dict(p.t)
                del rest[m]
                mm = tuple(x for x in m if x[0] != a)
                base = Poly({mm: c})
                if e > 2:
                    base = mul(base, Poly({((a, e - 2),): 1.0}))
                cos2 = Poly({((('f', 'cos') + a[2:], 2),): 1.0})
                return trig(add(Poly(rest), sub(base, mul(base, cos2))))
    return p


_cc = {}
_depth = 0


def content(p):
    r = _cc.get(p)
    if r is None:
        r = _content(p)
        if len(_cc) > 100000:
            _cc.clear()
        _cc[p] = r
    return r


def _content(p):
    """(coef>0, mono, primitive) with p = coef*mono*primitive"""
    if not p.t:
        return 1.0, (), p
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = d
            continue
        # the smallest power in any term, an absent atom counting as power 0
        nd = {}
        for a, e in common.items():
            f_ = d.get(a, 0)
            lo = e if e < f_ else f_
            if lo:
                nd[a] = lo
        for a, e in d.items():
            if e < 0 and a not in common:
                nd[a] = e
        common = nd
    cm = tuple(sorted(((a, e) for a, e in common.items() if e != 0), key=lambda x: (atom_sort(x[0]), x[1])))
    inv = tuple((a, -e) for a, e in cm)
    t = {}
    again = False
    for m, c in p.t.items():
        k = _mono_mul(m, inv)
        if _needs_expand(k):
            again = True
        t[k] = c
    if again:
        global _depth
        if _depth > 6:
            return 1.0, (), p
        r = ZERO
        for m, c in t.items():
            r = add(r, mul(Poly({m: c}), ONE) if _needs_expand(m) else Poly({m: c}))
        if not r.t:
            return 1.0, (), r
        _depth += 1
        try:
            c2, m2, q2 = content(r)
        finally:
            _depth -= 1
        return c2, _mono_mul(cm, m2), q2
    first = min(t, key=_mono_sort)
    k = abs(t[first])
    if k == 0 or math.isinf(k) or math.isnan(k):
        return 1.0, cm, Poly(t)
    return k, cm, Poly({m: c / k for m, c in t.items()})


_pc = {}


def power(p, e):
    e = fr(e)
    if e == 1:
        return p
    r = _pc.get((p, e))
    if r is None:
        r = _power(p, e)
        if len(_pc) > 100000:
            _pc.clear()
        _pc[(p, e)] = r
    return r


def _power(p, e):
    """p ** e with e a rational constant"""
    e = fr(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if not p.t:
        return ZERO if e > 0 else f('inf')
    mo = p.mono()
    if mo is not None:
        c, m = mo
        try:
            if c < 0 and e.denominator != 1:
                if e.denominator % 2 == 0:
                    return f('npow', p, str(e))
                cc = -((-c) ** float(e))
            elif e.denominator == 1:
                cc = c ** int(e) if e > 0 else 1.0 / (c ** int(-e))
            else:
                cc = c ** float(e)
        except Exception:
            return f('npow', p, str(e))
        r = ONE
        mm = []
        for a, x in m:
            if isinstance(a, tuple) and a[1] in BOOL and e > 0:
                mm.append((a, x))
            else:
                y = x * e
                mm.append((a, y.numerator if type(y) is Fraction and y.denominator == 1 else y))
        k = tuple(sorted(mm, key=lambda x: (atom_sort(x[0]), x[1])))
        return mul(Poly({(): cc}), Poly({k: 1.0})) if _needs_expand(k) else trig(Poly({k: cc}))
    if e.denominator == 1 and 1 < e <= 4 and len(p.t) ** int(e) <= 4 * MAXTERMS:
        r = p
        for _ in range(int(e) - 1):
            r = mul(r, p)
        return r
    c, m, q = content(p)
    # q primitive with >1 terms
    base = ('f', 'poly', q)
    k = Poly({((base, e),): 1.0})
    return mul(power(Poly({m: c}), e), k)


def div(p, q):
    if not q.t:
        return f('div0', p)
    if p == q:
        return ONE
    # try proportionality
    if len(p.t) == len(q.t) and len(q.t) > 1:
        k = ratio(p, q)
        if k is not None:
            return k
    return mul(p, power(q, -1))


def ratio(p, q):
    """k (a single-term Poly) with p == k*q, else None"""
    if not p.t or not q.t:
        return ONE if (not p.t and not q.t) else None
    if len(p.t) != len(q.t):
        return None
    cp, mp, pp = content(p)
    cq, mq, qq = content(q)
    if pp == qq:
        s = 1.0
    elif pp == neg(qq):
        s = -1.0
    else:
        return None
    inv = tuple((a, -e) for a, e in mq)
    return Poly({_mono_mul(mp, inv): s * cp / cq})


def polydiv(p, b):
    """exact quotient p/b or None"""
    atoms = sorted({a for q in (p, b) for m in q.t for a, _ in m}, key=atom_sort)

    def vec(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in atoms)
    lb = max(b.t, key=vec)
    q = ZERO
    for _ in range(60):
        if not p.t:
            return q
        lp = max(p.t, key=vec)
        k = _mono_mul(lp, tuple((a, -e) for a, e in lb))
        if any(e < 0 for a, e in k if any(a == x for x, _ in lb)):
            return None
        t = Poly({k: p.t[lp] / b.t[lb]})
        q = add(q, t)
        p2 = sub(p, mul(t, b))
        if lp in p2.t:
            return None
        p = p2
    return None


def reduce(p):
    """cancel sums over a common denominator: (x^2+y^2)*B^-1 -> 1 when B = x^2+y^2"""
    for _ in range(6):
        hit = False
        cands = {}
        for m in p.t:
            for a, e in m:
                if isinstance(a, tuple) and a[1] == 'poly' and e < 0:
                    cands.setdefault((a, e), []).append(m)
        for (a, e), ms in sorted(cands.items(), key=lambda x: atom_sort(x[0][0])):
            if len(ms) < 2:
                continue
            rest = {}
            for m in ms:
                rest[tuple(x for x in m if x[0] != a)] = p.t[m]
            q = polydiv(Poly(rest), a[2])
            if q is None:
                continue
            keep = Poly({m: c for m, c in p.t.items() if m not in ms})
            p = add(keep, mul(q, Poly({((a, e + 1),): 1.0}) if e + 1 != 0 else ONE))
            hit = True
            break
        if not hit:
            return p
    return p


def scale(p, c):
    return mul(p, num(c))


def subst(p, fn, memo=None):
    """Apply atom substitution fn(atom)->Poly|None recursively inside arguments."""
    memo = {} if memo is None else memo
    k = id(p)
    if k in memo:
        return memo[k][1]
    r = ZERO
    for m, c in p.t.items():
        t = num(c)
        for a, e in m:
            t = mul(t, power(_subst_atom(a, fn, memo), e))
        r = add(r, t)
    memo[k] = (p, r)
    return r


def _subst_atom(a, fn, memo):
    x = fn(a)
    if x is not None:
        return x
    if isinstance(a, tuple):
        key = ('A', a)
        if key in memo:
            return memo[key]
        args = tuple(_subst_arg(y, fn, memo) for y in a[2:])
        r = rebuild(a[1], args)
        memo[key] = r
        return r
    return atom(a)


def _subst_arg(y, fn, memo):
    if isinstance(y, Poly):
        return subst(y, fn, memo)
    if isinstance(y, tuple) and not (len(y) >= 2 and y[0] == 'f'):
        return tuple(_subst_arg(z, fn, memo) for z in y)
    return y


REBUILD = {}


def rebuild(name, args):
    if name == 'poly':
        return args[0]
    h = REBUILD.get(name)
    if h is not None:
        return h(*args)
    return f(name, *args)


def show_atom(a, d=0):
    if isinstance(a, str):
        return a
    if d > 3:
        return '..'
    return '%s(%s)' % (a[1], ', '.join(show_arg(x, d + 1) for x in a[2:]))


def show_arg(x, d):
    if isinstance(x, Poly):
        return show(x, d)
    if isinstance(x, tuple):
        return '(' + ','.join(show_arg(y, d + 1) for y in x[:6]) + ')'
    return str(x)


def show(p, d=0):
    if not p.t:
        return '0'
    out = []
    for m, c in list(sorted(p.t.items(), key=lambda x: _mono_sort(x[0])))[:8]:
        s = []
        if c != 1 or not m:
            s.append('%.10g' % c if not isinstance(c, complex) else str(c))
        for a, e in m:
            t = show_atom(a, d)
            s.append(t if e == 1 else '%s^%s' % (t, e))
        out.append('*'.join(s))
    r = ' + '.join(out)
    if len(p.t) > 8:
        r += ' + ...(%d terms)' % len(p.t)
    return r if len(r) < 400 else r[:400] + '...'
