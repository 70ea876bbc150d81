"""Transfer functions for operators, builtins, numpy and the few external APIs the code uses."""
import ast
import math
from fractions import Fraction

from . import poly as P
from .poly import Poly
from .values import *

SCALARS = set()
NOKEY = object()
KMS_KPCGYR = 1.0227121650537077

REDUCE = {'sum', 'mean', 'median', 'std', 'max', 'min', 'len', 'idx', 'count', 'argmin', 'argmax', 'int1', 'ntot', 'prod',
          'conv', 'const', 'percentile1', 'any', 'all', 'ix', 'dot', 'obj'}
ELEMENTWISE = {'poly', 'sin', 'cos', 'tan', 'exp', 'log', 'log10', 'log2', 'abs', 'arctan2', 'arctan', 'arccos', 'arcsin', 'ge0',
               'gt0', 'eq0', 'ne0', 'not', 'or', 'floor', 'ceil', 'sign', 'isnan', 'maximum', 'minimum', 'where', 'pow',
               'npow', 'mod', 'isin', 'bool', 'int', 'sinh', 'cosh', 'tanh', 'isfinite', 'round'}

_sc = {}


def is_scalar_atom(a):
    if isinstance(a, str):
        return a in SCALARS
    r = _sc.get(a)
    if r is None:
        n = a[1]
        if n in REDUCE:
            r = True
        elif n in ELEMENTWISE:
            r = all(is_scalar(x) for x in a[2:] if isinstance(x, Poly))
        else:
            r = False
        if len(_sc) > 200000:
            _sc.clear()
        _sc[a] = r
    return r


def is_scalar(p):
    return all(is_scalar_atom(a) for m in p.t for a, e in m)


def scontent(p):
    """(k, q): p = k*q, k a positive scalar single term"""
    if not p.t:
        return P.ONE, p
    c, m, q = P.content(p)
    sm = tuple((a, e) for a, e in m if is_scalar_atom(a) and a not in SIGNED)
    om = tuple((a, e) for a, e in m if not is_scalar_atom(a) or a in SIGNED)
    k = Poly({sm: c})
    if om:
        q = P.mul(Poly({om: 1.0}), q)
    return k, q


def joint(name, ps, pre=(), extra=()):
    """uninterpreted op homogeneous of degree 1 jointly in ps"""
    k = None
    for p in ps:
        if p.t and not _isinf(p):
            k, _ = scontent(p)
            break
    if k is None:
        return P.f(name, *(tuple(pre) + tuple(ps) + tuple(extra)))
    qs = [p if _isinf(p) else P.div(p, k) for p in ps]
    return P.mul(k, P.f(name, *(tuple(pre) + tuple(qs) + tuple(extra))))


def dig(p):
    """stands for p where it is only compared: a digest, marked when p holds parts that are not modelled"""
    from .judge import opaque
    d = P.digest(p)
    return (P.f('loop', d),) if opaque(p) else d


def _isinf(p):
    return p.mono() is not None and len(p.mono()[1]) == 1 and p.mono()[1][0][0] in ('inf', 'nan')


SCALARS.update({'inf', 'nan'})


def linear(name, p, extra=()):
    """reduction linear over terms; scalar factors pulled out"""
    r = P.ZERO
    for m, c in p.t.items():
        sm = tuple((a, e) for a, e in m if is_scalar_atom(a))
        om = tuple((a, e) for a, e in m if not is_scalar_atom(a))
        t = Poly({sm: c})
        if om or name != 'mean':
            t = P.mul(t, P.f(name, Poly({om: 1.0}), *extra))
        r = P.add(r, t)
    return r


def bnot(p):
    c = p.const()
    if c is not None:
        return P.num(0.0 if c else 1.0)
    a = p.atom()
    if isinstance(a, tuple):
        if a[1] == 'not':
            return a[2]
        if a[1] == 'ge0':
            return P.f('gt0', P.neg(a[2]))
        if a[1] == 'gt0':
            return P.f('ge0', P.neg(a[2]))
        if a[1] == 'eq0':
            return P.f('ne0', a[2])
        if a[1] == 'ne0':
            return P.f('eq0', a[2])
    return P.f('not', p)


def band(p, q):
    if p == q:
        return p
    return P.mul(p, q)


def bor(p, q):
    if p == q:
        return p
    return bnot(P.mul(bnot(p), bnot(q)))


def band_v(a, b):
    if isinstance(a, C) and isinstance(b, C):
        return C(bool(a.v) and bool(b.v))
    if isinstance(a, C):
        return b if a.v else FALSE
    if isinstance(b, C):
        return a if b.v else FALSE
    return N(band(topoly(a), topoly(b)), kindj(a, b), newbuf(), None, getattr(a, 'ln', None))


def ge0(p, strict=False):
    c = p.const()
    if c is not None and not isinstance(c, complex):
        return P.num(1.0 if (c > 0 if strict else c >= 0) else 0.0)
    if p.t:
        k, q = scontent(p)
        p = q
        m = p.mono()
        if m and all(isinstance(a, str) and a in COUNTS for a, e in m[1]):
            return P.num(1.0 if m[0] > 0 else 0.0)
    return P.f('gt0' if strict else 'ge0', p)


def eq0(p):
    c = p.const()
    if c is not None:
        return P.num(1.0 if c == 0 else 0.0)
    mm = p.mono()
    if mm and all(isinstance(a, str) and a in COUNTS for a, e in mm[1]):
        return P.ZERO
    c, m, q = P.content(p)
    sm = tuple((a, e) for a, e in m if not is_scalar_atom(a))
    if sm:
        q = P.mul(Poly({sm: 1.0}), q)
    if q.const() is not None:
        q = Poly({tuple((a, 1) for a, e in m): 1.0})
    # canonical sign
    if P.digest(P.neg(q)) < P.digest(q):
        q = P.neg(q)
    return P.f('eq0', q)


def kindj(*vs):
    ks = [v.kind if isinstance(v, N) else ('s' if isinstance(v, C) else ('a' if isinstance(v, T) else 'n')) for v in vs]
    if 'a' in ks:
        return 'a'
    if all(k == 's' for k in ks):
        return 's'
    return 'n'


def lnj(*vs):
    for v in vs:
        if isinstance(v, N) and v.kind == 'a' and v.ln is not None:
            return v.ln
    return None


def numv(v):
    if isinstance(v, N):
        return v
    if isinstance(v, C):
        if isinstance(v.v, bool):
            return N(P.num(1.0 if v.v else 0.0), 's')
        return N(topoly(v), None)
    if isinstance(v, E):
        u = amuse_unit(v.name)
        if u is not None:
            return N(u, 's')
        return N(P.f('ext', v.name), None)
    if isinstance(v, T):
        return N(joint_array(v), 'a', newbuf())
    return N(topoly(v), None)


def joint_array(v):
    if v.items and all(isinstance(x, C) and isinstance(x.v, str) for x in v.items):
        return P.f('array', *[topoly(x) for x in v.items])
    return joint_array_(v)


def joint_array_(t):
    ps = [numv(x).p if isinstance(x, (N, C, T)) else topoly(x) for x in t.items]
    if not ps:
        return P.f('array')
    return joint('array', ps)


AM = {'parsec': ('u.parsec', 1.0), 'pc': ('u.parsec', 1.0), 'kpc': ('u.parsec', 1000.0), 'Mpc': ('u.parsec', 1e6), 'Myr': ('u.Myr', 1.0),
      'Gyr': ('u.Myr', 1000.0), 'yr': ('u.Myr', 1e-6), 'MSun': ('u.MSun', 1.0), 'kms': ('u.kms', 1.0), 'ms': ('u.kms', 1e-3),
      'km': ('u.km', 1.0), 's': ('u.s', 1.0), 'AU': ('u.AU', 1.0), 'RSun': ('u.RSun', 1.0), 'day': ('u.day', 1.0), 'deg': ('u.deg', 1.0),
      'rad': ('u.rad', 1.0), 'm': ('u.km', 1e-3), 'LSun': ('u.LSun', 1.0), 'J': ('u.J', 1.0), 'mas': ('u.mas', 1.0)}
SCALARS.update(v[0] for v in AM.values())


def amuse_unit(name):
    if name.startswith('amuse.units.units.'):
        n = name[len('amuse.units.units.'):]
        if n in AM:
            a, c = AM[n]
            return P.scale(P.atom(a), c)
        SCALARS.add('u.' + n)
        return P.atom('u.' + n)
    return None


def isamuse(p):
    for a in p.atoms():
        if isinstance(a, str) and a.startswith('u.'):
            return True
    return False


CONSTS = {'numpy.pi': math.pi, 'math.pi': math.pi, 'numpy.e': math.e}
MISSING_NP = {'float', 'int', 'bool', 'object', 'str', 'complex', 'long', 'unicode', 'float_', 'complex_', 'Inf', 'Infinity', 'NaN', 'NAN',
              'PINF', 'NINF', 'product', 'cumproduct', 'alltrue', 'sometrue', 'in1d_', 'asscalar', 'msort'}


def ext_missing(name):
    if name.startswith('numpy.'):
        r = name[6:]
        if r in MISSING_NP:
            return "module 'numpy' has no attribute '%s'" % r
    return None


def ext_value(name):
    if name in CONSTS:
        return N(P.num(CONSTS[name]), 's')
    if name in ('numpy.inf', 'math.inf'):
        return N(P.atom('inf'), 's')
    if name in ('numpy.nan', 'math.nan'):
        return N(P.atom('nan'), 's')
    if name == 'numpy.newaxis':
        return NONE
    u = amuse_unit(name)
    if u is not None:
        return N(u, 's', None, 'amuseunit')
    return E(name)


# ---------------------------------------------------------------- selection
def _elem_push(p, fn):
    r = P.ZERO
    for m, c in p.t.items():
        t = P.num(c)
        for a, e in m:
            if is_scalar_atom(a):
                t = P.mul(t, Poly({((a, e),): 1.0}))
            elif isinstance(a, tuple) and a[1] in ELEMENTWISE:
                args = tuple(_elem_push(x, fn) if isinstance(x, Poly) else x for x in a[2:])
                t = P.mul(t, P.power(P.rebuild(a[1], args), e))
            else:
                t = P.mul(t, P.power(fn(a), e))
        r = P.add(r, t)
    return r


def selp(p, key, scalar=False):
    name = 'idx' if scalar else 'sel'
    return _elem_push(p, lambda a: P.f(name, P.atom(a), key))


def const_int(v):
    if isinstance(v, N):
        c = v.p.const()
        if c is not None and not isinstance(c, complex) and float(c).is_integer():
            return int(c)
    if isinstance(v, C) and isinstance(v.v, bool):
        return int(v.v)
    return None


def const_key(v):
    if isinstance(v, C):
        return v.v
    if isinstance(v, N):
        c = v.p.const()
        if c is not None:
            return int(c) if not isinstance(c, complex) and float(c).is_integer() else c
    if isinstance(v, T) and not v.lst:
        ks = [const_key(x) for x in v.items]
        if all(k is not NOKEY for k in ks):
            return tuple(ks)
    return NOKEY


def item(v, i):
    p = v.p
    a = p.atom()
    if i >= 0 and isinstance(a, tuple) and a[1] == 'sel' and len(a) == 4 and isinstance(a[3], Poly):
        k = a[3].atom()
        if isinstance(k, tuple) and k[1] == 'slice':
            lo = k[2].const() if isinstance(k[2], Poly) else None
            if (lo is None and 'None' in repr(k[2]) or lo == 0) and (k[4] is None or 'None' in repr(k[4])):
                return item(N(a[2], v.kind, v.buf, v.prov), i)
    mo = p.mono()
    if mo:
        c, m = mo
        arr = [(a, e) for a, e in m if isinstance(a, tuple) and a[1] in ('array', 'tuple') and e == 1]
        if len(arr) == 1 and all(is_scalar_atom(a) for a, e in m if a != arr[0][0]):
            a = arr[0][0]
            its = a[2:] if a[1] == 'array' else a[2]
            if -len(its) <= i < len(its):
                rest = Poly({tuple(x for x in m if x[0] != a): c})
                return N(P.mul(rest, its[i]), None)
    return N(P.f('unpack', p, float(i)), None, v.buf, v.prov)


def select(o, ix):
    """o[ix] for numeric/unknown o"""
    if o.prov == 'rows':
        if isinstance(ix, T) and len(ix.items) > 1:
            r = select(o, ix.items[0])
            return select(r, T(tuple(ix.items[1:]), ix.lst))
        return N(P.f('row', o.p, topoly(ix)), 'a')
    i = None if isinstance(ix, N) and ix.kind == 'a' else const_int(ix)
    p = o.p
    if i is not None and not (isinstance(ix, C)):
        a = [x for x in p.atoms() if isinstance(x, tuple) and x[1] in ('array', 'tuple')]
        if a:
            r = item(o, i)
            if not (r.p.atom() and isinstance(r.p.atom(), tuple) and r.p.atom()[1] == 'unpack'):
                return r
        return N(selp(p, P.num(i), True), 's' if o.kind == 'a' and o.prov != '2d' else None, o.buf if o.kind != 'a' else None)
    if isinstance(ix, SL):
        none = lambda x: isinstance(x, C) and x.v is None
        z = const_int(ix.lo)
        if (none(ix.lo) or z == 0) and none(ix.hi) and (none(ix.st) or const_int(ix.st) == 1):
            return N(p, o.kind, o.buf, o.prov, o.ln)
        key = topoly(ix)
        return N(selp(p, key), o.kind, o.buf, o.prov, P.f('count', key) if False else None)
    if isinstance(ix, T):
        ps = tuple(topoly(x) for x in ix.items)
        ints = [x for x in ix.items if const_int(x) is not None]
        if len(ix.items) == 1:
            return select(o, ix.items[0])
        return N(P.f('sel2', p, ps), None, o.buf)
    if isinstance(ix, C) and isinstance(ix.v, str):
        return N(P.f('item', p, repr(ix.v)), None, o.buf)
    k = topoly(ix)
    iskind = ix.kind if isinstance(ix, N) else None
    if iskind == 's':
        return N(selp(p, k, True), 's' if o.kind == 'a' else None)
    c = k.const()
    if isinstance(ix, N) and c == 1.0 and ix.kind == 'a':
        return N(p, o.kind, newbuf(), o.prov, o.ln)
    return N(selp(p, k), 'a' if (o.kind == 'a' and iskind == 'a') else o.kind, newbuf(), o.prov, None)


def known_items(o):
    """the elements of a short array of known length, or None"""
    n = o.ln.const() if o.ln is not None else None
    if n is None or not 0 < n <= 16 or n != int(n) or o.kind != 'a':
        return None
    n = int(n)
    a = o.p.atom()
    if o.p.const() is not None:
        return [o.p] * n
    if isinstance(a, tuple) and a[1] == 'array' and len(a) == n + 2:
        return list(a[2:])
    return None


def update_known(o, ix, v):
    """store at a known position of a short array of known length"""
    i = const_int(ix)
    its = known_items(o)
    if i is None or its is None or not -len(its) <= i < len(its):
        return None
    v = v if isinstance(v, N) else numv(v) if isinstance(v, C) and not isinstance(v.v, str) and v.v is not None else None
    if v is None or v.kind == 'a':
        return None
    its[i] = v.p
    return its[0] if all(x == its[0] for x in its) and its[0].const() is not None else P.f('array', *its)


def update(o, ix, v):
    vp = topoly(v) if not isinstance(v, (T, C)) else numv(v).p
    return joint('upd', [o.p, vp], extra=(topoly(ix),))


# ---------------------------------------------------------------- operators
ARITH = {'Add', 'Sub', 'Mult', 'Div', 'Pow', 'Mod', 'FloorDiv', 'MatMult'}


def binop(I, op, a, b, n):
    if isinstance(a, C) and isinstance(a.v, (str, bytes)):
        if op == 'Add':
            if isinstance(b, C) and isinstance(b.v, str):
                return C(a.v + b.v)
            return N(P.f('str+', topoly(a), topoly(b)), None)
        if op == 'Mod':
            vals = b.items if isinstance(b, T) else [b]
            if all(isinstance(v, C) for v in vals):
                try:
                    return C(a.v % tuple(v.v for v in vals))
                except Exception:
                    pass
            return N(P.f('str%', topoly(a), topoly(b)), None)
        if op == 'Mult' and const_int(b) is not None:
            return C(a.v * const_int(b))
    if isinstance(b, C) and isinstance(b.v, str):
        return N(P.f('str+', topoly(a), topoly(b)), None)
    if isinstance(a, T) and a.lst or isinstance(b, T) and b.lst:
        if op == 'Add' and isinstance(a, T) and isinstance(b, T):
            return T(a.items + b.items, a.lst)
        if op == 'Mult' and isinstance(a, T) and const_int(b) is not None and const_int(b) <= 64:
            return T(a.items * const_int(b), a.lst)
    elif isinstance(a, T) and isinstance(b, T) and op == 'Add':
        return T(a.items + b.items)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        if isinstance(a, C) and isinstance(b, C) and isinstance(a.v, bool) and isinstance(b.v, bool):
            return C(a.v & b.v if op == 'BitAnd' else (a.v | b.v if op == 'BitOr' else a.v ^ b.v))
        if op == 'BitOr' and (isinstance(b, N) and b.prov == 'amuseunit' or isinstance(b, N) and isamuse(b.p) and b.kind == 's'):
            a = numv(a)
            return N(P.mul(a.p, b.p), a.kind, newbuf() if a.kind == 'a' else None, None, a.ln)
        a, b = numv(a), numv(b)
        r = band(a.p, b.p) if op == 'BitAnd' else (bor(a.p, b.p) if op == 'BitOr' else P.f('xor', a.p, b.p))
        return N(r, kindj(a, b), newbuf(), None, lnj(a, b))
    for x in (a, b):
        if isinstance(x, C) and x.v is None:
            I.event('nonearith', n, name=op, detail='arithmetic on None')
    prov = None
    ua = isinstance(a, N) and a.prov == 'amuseunit'
    ub = isinstance(b, N) and b.prov == 'amuseunit'
    if ua and (ub or op == 'Pow') and op in ('Mult', 'Div', 'Pow'):
        prov = 'amuseunit'
    a, b = numv(a), numv(b)
    k = kindj(a, b)
    ln = lnj(a, b)
    if op == 'Add':
        r = P.add(a.p, b.p)
    elif op == 'Sub':
        r = P.sub(a.p, b.p)
    elif op == 'Mult':
        r = P.mul(a.p, b.p)
    elif op == 'Div':
        r = P.div(a.p, b.p)
    elif op == 'Pow':
        c = b.p.const()
        if c is not None and not isinstance(c, complex) and abs(c) < 40:
            r = power(a.p, c)
        else:
            r = P.f('pow', a.p, b.p)
    elif op == 'Mod':
        r = joint('mod', [a.p, b.p])
        ca, cb = a.p.const(), b.p.const()
        if ca is not None and cb:
            r = P.num(ca % cb)
    elif op == 'FloorDiv':
        ca, cb = a.p.const(), b.p.const()
        r = P.num(ca // cb) if ca is not None and cb else P.f('floor', P.div(a.p, b.p))
    else:
        r = P.f(op, a.p, b.p)
    return N(r, k, newbuf() if k != 's' else None, prov, ln)


POSITIVE = set()
SIGNED = set()      # scalars that may be negative
COUNTS = set()      # strictly positive counts


def is_pos_atom(a):
    if isinstance(a, str):
        return (a in SCALARS and a not in SIGNED) or a in POSITIVE
    if a[1] in ('abs', 'exp', 'len', 'count', 'poly') and not (a[1] == 'poly'):
        return True
    if a[1] in ('sel', 'idx', 'max', 'min', 'sum', 'mean', 'median', 'sort') and isinstance(a[2], Poly):
        m = a[2].mono()
        return bool(m) and m[0] > 0 and all(is_pos_atom(x) for x, e in m[1])
    if a[1] == 'conv':
        return True
    return False


def power(p, e):
    """p**e with |.| handling for even powers under a root"""
    fe = P.fr(e)
    mo = p.mono()
    if mo is not None and fe.denominator != 1:
        c, m = mo
        out = []
        for a, x in m:
            if not is_pos_atom(a) and x.denominator == 1 and int(x) % 2 == 0 and fe.denominator % 2 == 0:
                out.append(P.power(P.f('abs', P.atom(a)), x * fe))
            else:
                out.append(Poly({((a, x * fe),): 1.0}))
        if c > 0:
            r = P.num(c ** float(fe))
            for o in out:
                r = P.mul(r, o)
            return r
    return P.power(p, fe)


def absp(p):
    c, m, q = P.content(p) if p.t else (1, (), p)
    if not p.t:
        return p
    k = p.const()
    if k is not None:
        return P.num(abs(k))
    pos = Poly({tuple(x for x in m if is_pos_atom(x[0])): c})
    rest = P.div(p, pos)
    if rest.const() is not None:
        return P.mul(pos, P.num(abs(rest.const())))
    if P.digest(P.neg(rest)) < P.digest(rest):
        rest = P.neg(rest)
    return P.mul(pos, P.f('abs', rest))


def trigfn(name, odd):
    def g(p):
        c = p.const()
        if c is not None and not isinstance(c, complex):
            try:
                return P.num(getattr(math, name)(c))
            except Exception:
                pass
        first = min(p.t, key=P._mono_sort) if p.t else None
        if first is not None and p.t[first] < 0:
            q = P.f(name, P.neg(p))
            return P.neg(q) if odd else q
        a = p.atom()
        if isinstance(a, tuple) and a[1] == 'arctan2' and name in ('sin', 'cos'):
            y, x = a[2], a[3]
            h = power(P.add(P.mul(x, x), P.mul(y, y)), Fraction(1, 2))
            return P.div(y if name == 'sin' else x, h)
        if isinstance(a, tuple) and a[1] == 'arccos' and name == 'cos':
            return a[2]
        if isinstance(a, tuple) and a[1] == 'arccos' and name == 'sin':
            return power(P.sub(P.ONE, P.mul(a[2], a[2])), Fraction(1, 2))
        if isinstance(a, tuple) and a[1] == 'arcsin' and name == 'sin':
            return a[2]
        if isinstance(a, tuple) and a[1] == 'arcsin' and name == 'cos':
            return power(P.sub(P.ONE, P.mul(a[2], a[2])), Fraction(1, 2))
        return P.f(name, p)
    return g


def constfn(name, pyf=None):
    def g(p):
        c = p.const()
        if c is not None and not isinstance(c, complex):
            try:
                return P.num((pyf or getattr(math, name))(c))
            except Exception:
                pass
        return P.f(name, p)
    return g


def fn_arctan2(y, x):
    k = None
    for p in (x, y):
        if p.t:
            k, _ = scontent(p)
            break
    if k is not None:
        y, x = P.div(y, k), P.div(x, k)
    return P.f('arctan2', y, x)


UNARY = {
    'sqrt': lambda p: power(p, Fraction(1, 2)),
    'square': lambda p: P.power(p, 2),
    'sin': trigfn('sin', True), 'cos': trigfn('cos', False), 'tan': trigfn('tan', True),
    'exp': constfn('exp'), 'log': constfn('log'), 'log10': constfn('log10'), 'log2': constfn('log2'),
    'abs': absp, 'fabs': absp, 'absolute': absp,
    'arctan': constfn('arctan', math.atan), 'arccos': constfn('arccos', math.acos), 'arcsin': constfn('arcsin', math.asin),
    'radians': lambda p: P.scale(p, math.pi / 180), 'deg2rad': lambda p: P.scale(p, math.pi / 180),
    'degrees': lambda p: P.scale(p, 180 / math.pi), 'rad2deg': lambda p: P.scale(p, 180 / math.pi),
    'floor': constfn('floor'), 'ceil': constfn('ceil'),
    'sign': lambda p: P.f('sign', scontent(p)[1]),
    'isnan': lambda p: P.f('isnan', scontent(p)[1]), 'isfinite': lambda p: P.f('isfinite', scontent(p)[1]),
    'negative': P.neg, 'sinh': constfn('sinh'), 'cosh': constfn('cosh'), 'tanh': constfn('tanh'),
    'logical_not': bnot, 'invert': bnot, 'cbrt': lambda p: power(p, Fraction(1, 3)),
}
P.REBUILD.update({'sin': UNARY['sin'], 'cos': UNARY['cos'], 'tan': UNARY['tan'], 'exp': UNARY['exp'], 'log': UNARY['log'],
                  'log10': UNARY['log10'], 'abs': absp, 'arctan2': fn_arctan2, 'ge0': lambda p: ge0(p), 'gt0': lambda p: ge0(p, True),
                  'eq0': eq0, 'not': bnot, 'ne0': lambda p: bnot(eq0(p)),
                  'sum': lambda p, *e: linear('sum', p, e), 'mean': lambda p, *e: linear('mean', p, e),
                  'sel': lambda p, k: selp(p, k), 'idx': lambda p, k: selp(p, k, True)})


def _rb_joint(name):
    return lambda *a: joint(name, [x for x in a if isinstance(x, Poly)], (), [x for x in a if not isinstance(x, Poly)])


for _n in ('median', 'std', 'max', 'min', 'sort', 'phi', 'array', 'append', 'maximum', 'minimum', 'concatenate'):
    P.REBUILD[_n] = _rb_joint(_n)

COPY = {'array', 'copy', 'ascontiguousarray', 'nan_to_num', 'float64', 'float_', 'float32', 'int64', 'int32', 'double'}
VIEW = {'asarray', 'atleast_1d', 'ravel', 'squeeze', 'asanyarray', 'real'}


def _kw(args, kwargs, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kwargs.get(name, default)


INPLACE_FN = {'numpy.put', 'numpy.copyto', 'numpy.place', 'numpy.putmask', 'numpy.fill_diagonal', 'numpy.random.shuffle', 'random.shuffle'}


def ext_call(I, name, args, kwargs, st, node):
    if I.on_mutate and not I.muted:
        t = args[0] if name in INPLACE_FN and args else kwargs.get('out')
        if t is not None and getattr(t, 'buf', None):
            I.on_mutate(I, t, node.args[0] if name in INPLACE_FN and getattr(node, 'args', None) else node, st, node)
    if I.on_ext and not I.muted:
        I.on_ext(I, name, args, kwargs, node)
    if I.ext_model is not None:
        r = I.ext_model(I, name, args, kwargs, st, node)
        if r is not None:
            return r
    if name.startswith('numpy.') or name.startswith('math.') or name.startswith('scipy.special.') and False:
        short = name.split('.', 1)[1]
        r = np_call(I, short, args, kwargs, st, node, name)
        if r is not None:
            return [(r, st)]
    if name.startswith('builtins.'):
        r = builtin_call(I, name[9:], args, kwargs, st, node)
        if r is not None:
            return r
    base = name.split('.')[-1]
    if name in ('copy.copy', 'copy.deepcopy') and args:
        v = args[0]
        if isinstance(v, N):
            return [(N(v.p, v.kind, newbuf(), v.prov, v.ln), st)]
        if isinstance(v, T):
            return [(T(v.items, v.lst), st)]
        if isinstance(v, D):
            return [(D(v.items, v.rest), st)]
        if isinstance(v, O):
            src = st.objs[v.id]
            o = st.new_obj(src.cls, dict(src.fields), src.open)
            return [(o, st)]
        return [(v, st)]
    if '.coords.' in name or '.bovy_coords.' in name:
        from .galpy_model import coords_call
        r = coords_call(I, base, args, kwargs)
        if r is not None:
            return [(r, st)]
    if name == 'galpy.orbit.Orbit':
        from .galpy_model import orbit_call
        r = orbit_call(I, args, kwargs)
        if r is not None:
            return [(r, st)]
    if '.conversion.' in name or '.bovy_conversion.' in name:
        r = conv_call(base, args, kwargs)
        if r is not None:
            return [(N(r, 's'), st)]
    if name.startswith('amuse.units.quantities.') and base in ('zero',):
        return [(N(P.ZERO, 's'), st)]
    if base in ('rand', 'random', 'randn', 'normal', 'uniform', 'random_sample', 'power', 'choice', 'randint') and 'random' in name:
        I.rand += 1
        return [(N(P.f('random', name, tuple(topoly(a) for a in args), I.rand), 'a' if args else 's', newbuf()), st)]
    v = I.opaque_call(name, args, kwargs)
    return [(v, st)]


def conv_call(base, args, kwargs):
    def g(i, nm, d):
        v = _kw(args, kwargs, i, nm)
        return P.num(d) if v is None else numv(v).p
    if base in ('time_in_Gyr', 'mass_in_msol', 'dens_in_msolpc3', 'surfdens_in_msolpc2', 'velocity_in_kpcGyr', 'velocity_in_kms'):
        if len(args) > 2:
            return None
        vo, ro = g(0, 'vo', 220.0), g(1, 'ro', 8.0)
        G = P.atom('Ggalpy')
        SCALARS.add('Ggalpy')
        if base == 'time_in_Gyr':
            return P.scale(P.div(ro, vo), 1 / KMS_KPCGYR)
        if base == 'velocity_in_kpcGyr':
            return P.scale(vo, KMS_KPCGYR)
        if base == 'velocity_in_kms':
            return vo
        m = P.div(P.mul(P.mul(vo, vo), ro), G)
        if base == 'mass_in_msol':
            return m
        if base == 'dens_in_msolpc3':
            return P.scale(P.div(m, P.power(ro, 3)), 1e-9)
        return P.scale(P.div(m, P.power(ro, 2)), 1e-6)
    return None


def np_call(I, short, args, kwargs, st, node, full):
    if short in UNARY and args:
        a = numv(args[0])
        if isinstance(args[0], C) and args[0].v is None:
            I.event('nonearith', node, name=short, detail='numpy function on None')
        return N(UNARY[short](a.p), a.kind or 'n', newbuf() if a.kind != 's' else None, None, a.ln)
    if short in COPY and args:
        v = args[0]
        if isinstance(v, N):
            k = v.kind
            if short == 'array' and k == 's':
                k = 's'
            p = v.p
            same = 'copy' in kwargs and not (isinstance(kwargs['copy'], C) and kwargs['copy'].v is True)
            return N(p, k if short != 'array' or k == 's' else (k or 'a'), v.buf if same else newbuf(), v.prov, v.ln)
        if isinstance(v, T):
            nd = any(isinstance(x, (N,)) and x.kind == 'a' or isinstance(x, T) for x in v.items)
            return N(joint_array(v), 'a', newbuf(), '2d' if nd else None, P.num(len(v.items)))
        return N(P.f('np.' + short, topoly(v)), 'a', newbuf())
    if short in VIEW and args:
        v = args[0]
        if isinstance(v, N):
            return N(v.p, v.kind if v.kind == 'a' else ('a' if short != 'squeeze' else v.kind), v.buf, v.prov, v.ln)
        if isinstance(v, T):
            return N(joint_array(v), 'a', newbuf(), None, P.num(len(v.items)))
    if short in ('sum', 'mean', 'cumsum', 'nansum', 'nanmean') and args:
        a = numv(args[0])
        base = short[3:] if short.startswith('nan') else short
        ax = _kw(args, kwargs, 1, 'axis')
        extra = () if ax is None or (isinstance(ax, C) and ax.v is None) else (topoly(ax),)
        if a.kind == 's':
            return N(a.p, 's')
        r = linear(base, a.p, extra)
        return N(r, 's' if base != 'cumsum' and not extra else 'a', newbuf(), None, a.ln if base == 'cumsum' else None)
    if short in ('amax', 'amin', 'max', 'min', 'median', 'std', 'nanmax', 'nanmin', 'nanmedian') and args:
        a = numv(args[0])
        base = {'amax': 'max', 'amin': 'min', 'nanmax': 'max', 'nanmin': 'min', 'nanmedian': 'median'}.get(short, short)
        if base in ('max', 'min') and isinstance(args[0], T) and args[0].items and not kwargs and len(args) == 1:
            it = [numv(x) for x in args[0].items]
            if all(x.p == it[0].p and x.kind == 's' for x in it):
                return N(it[0].p, 's')
        ax = _kw(args, kwargs, 1, 'axis')
        extra = () if ax is None or (isinstance(ax, C) and ax.v is None) else (topoly(ax),)
        return N(joint(base, [a.p], (), extra), 's' if not extra else 'a', newbuf() if extra else None)
    if short == 'var' and args:
        a = numv(args[0])
        return N(P.power(joint('std', [a.p]), 2), 's')
    if short in ('sort',) and args:
        a = numv(args[0])
        return N(joint('sort', [a.p]), 'a', newbuf(), None, a.ln)
    if short in ('argsort', 'argmin', 'argmax') and args:
        a = numv(args[0])
        q = scontent(a.p)[1]
        return N(P.f(short, q), 'a' if short == 'argsort' else 's', newbuf() if short == 'argsort' else None, None, a.ln)
    if short in ('maximum', 'minimum', 'fmax', 'fmin', 'hypot') and len(args) >= 2:
        a, b = numv(args[0]), numv(args[1])
        if short == 'hypot':
            r = power(P.add(P.mul(a.p, a.p), P.mul(b.p, b.p)), Fraction(1, 2))
        else:
            ca, cb = a.p.const(), b.p.const()
            if ca is not None and cb is not None:
                r = P.num(max(ca, cb) if 'max' in short else min(ca, cb))
            else:
                ps = sorted([a.p, b.p], key=P.digest)
                r = joint({'fmax': 'maximum', 'fmin': 'minimum'}.get(short, short), ps)
        return N(r, kindj(a, b), newbuf(), None, lnj(a, b))
    if short in ('arctan2',) and len(args) >= 2:
        a, b = numv(args[0]), numv(args[1])
        return N(fn_arctan2(a.p, b.p), kindj(a, b), newbuf(), None, lnj(a, b))
    if short in ('logical_and', 'logical_or', 'multiply', 'add', 'subtract', 'divide', 'power', 'bitwise_and', 'bitwise_or', 'true_divide') and len(args) >= 2:
        op = {'logical_and': 'BitAnd', 'bitwise_and': 'BitAnd', 'logical_or': 'BitOr', 'bitwise_or': 'BitOr', 'multiply': 'Mult', 'add': 'Add', 'subtract': 'Sub',
              'divide': 'Div', 'true_divide': 'Div', 'power': 'Pow'}[short]
        return binop(I, op, args[0], args[1], node)
    if short in ('append', 'concatenate', 'insert', 'hstack', 'vstack', 'column_stack', 'delete'):
        vs = []
        if short == 'append' and len(args) >= 2:
            vs = [args[0], args[1]]
        elif short in ('concatenate', 'hstack', 'vstack', 'column_stack') and args and isinstance(args[0], T):
            vs = list(args[0].items)
        if vs:
            ns = [numv(v) for v in vs]
            ps = []
            for v in ns:
                if short not in ('vstack', 'column_stack') and v.p.atom() == ('f', 'array'):
                    continue
                ps.append(v.p)
            ln = None
            if short in ('append', 'concatenate', 'hstack'):
                if all(v.ln is not None or v.kind == 's' for v in ns):
                    ln = P.ZERO
                    for v in ns:
                        ln = P.add(ln, v.ln if v.kind != 's' and v.ln is not None else P.ONE)
            if short == 'column_stack' and ns[0].kind == 'a':
                ln = ns[0].ln
            nm = short if short in ('vstack', 'column_stack') else 'append'
            if nm == 'append' and len(ps) == 1 and ns[0].kind == 'a':
                return N(ps[0], 'a', newbuf(), None, ln)
            return N(joint(nm, ps) if ps else P.f('array'), 'a', newbuf(), None if nm == 'append' else '2d', ln)
        return N(P.f('np.' + short, tuple(topoly(a) for a in args), _kws(kwargs)), 'a', newbuf())
    if short in ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'full_like', 'empty_like'):
        ln = None
        if args:
            if short.endswith('_like'):
                a = numv(args[0])
                ln = lenof(a)
            else:
                s = args[0]
                if isinstance(s, T) and len(s.items) == 1:
                    s = s.items[0]
                ln = numv(s).p if isinstance(s, N) else None
                if isinstance(s, N) and isinstance(s.prov, tuple) and s.prov[0] == 'shapeof':
                    ln = s.prov[1]
        if short.startswith('zeros') or short.startswith('empty'):
            p = P.ZERO if short.startswith('zeros') else P.f('empty', numv(args[0]).p if args else '')
        elif short.startswith('ones'):
            p = P.ONE
        else:
            p = numv(args[1]).p if len(args) > 1 else P.f('full')
        return N(p, 'a', newbuf(), None, ln)
    if short == 'shape' and len(args) == 1 and isinstance(args[0], N) and args[0].kind == 'a' and args[0].ln is not None and args[0].prov is None:
        return N(P.f('shape', dig(args[0].p)), None, None, ('shapeof', args[0].ln))
    if short in ('arange', 'linspace', 'logspace'):
        if short == 'linspace' and len(args) >= 2:
            nn = numv(_kw(args, kwargs, 2, 'num', N(P.num(50), 's'))).p
            return N(joint('linspace', [numv(args[0]).p, numv(args[1]).p], (), (nn,)), 'a', newbuf(), None, nn)
        ps = [numv(a).p for a in args]
        if short == 'arange':
            ln = None
            if len(ps) == 1:
                ln = ps[0]
            elif len(ps) == 2:
                ln = P.sub(ps[1], ps[0])
            elif len(ps) == 3:
                ln = P.div(P.sub(ps[1], ps[0]), ps[2])
                c = ps[2].const()
                if c == 2:
                    # ceil((hi-lo)/2); (2n-1)/2 -> n
                    r = P.sub(ps[1], ps[0])
                    k = r.t.get((), 0.0)
                    if k == -1.0:
                        ln = P.scale(P.add(r, P.ONE), 0.5)
            return N(P.f('arange', *ps), 'a', newbuf(), None, ln)
        return N(P.f(short, tuple(ps), _kws(kwargs)), 'a', newbuf())
    if short == 'where' and len(args) == 3:
        c, a, b = (numv(x) for x in args)
        return N(joint('where', [a.p, b.p], (), (c.p,)), kindj(c, a, b), newbuf(), None, lnj(c, a, b))
    if short == 'average' and args:
        a = numv(args[0])
        w = kwargs.get('weights', args[2] if len(args) > 2 else None)
        if w is not None:
            w = numv(w)
            return N(P.div(linear('sum', P.mul(a.p, w.p)), linear('sum', w.p)), 's')
        return N(linear('mean', a.p), 's')
    if short == 'dot' and len(args) == 2:
        a, b = numv(args[0]), numv(args[1])
        return N(P.f('np.dot', a.p, b.p), 'n', newbuf())
    if short in ('percentile', 'quantile', 'nanpercentile') and len(args) >= 2:
        return N(joint('percentile', [numv(args[0]).p], (), (topoly(args[1]),)), 's' if isinstance(args[1], N) and args[1].kind == 's' else None)
    if short == 'interp' and len(args) >= 3:
        return N(joint('interp', [numv(args[2]).p], (), (dig(P.f('x', numv(args[0]).p, numv(args[1]).p)),)), numv(args[0]).kind, newbuf())
    if short == 'bincount':
        w = kwargs.get('weights', args[1] if len(args) > 1 else None)
        rest = {k: v for k, v in kwargs.items() if k != 'weights'}
        x = numv(args[0]).p
        if w is not None:
            return N(joint('bincount', [numv(w).p], (), (x, _kws(rest))), 'a', newbuf())
        return N(P.f('bincount1', x, _kws(rest)), 'a', newbuf())
    if short in ('searchsorted', 'digitize') and len(args) >= 2 and isinstance(args[0], N) and isinstance(args[1], N):
        # bin numbers: depend on the two arrays up to a common scale
        a, b = args[0], args[1]
        k = None
        for p in ((a.p, b.p) if short == 'searchsorted' else (b.p, a.p)):
            if p.t and not _isinf(p):
                k = scontent(p)[0]
                break
        qs = [p if k is None or _isinf(p) else P.div(p, k) for p in (a.p, b.p)]
        x = b if short == 'searchsorted' else a
        rest = {'arg%d' % i: v for i, v in enumerate(args) if i >= 2}
        rest.update(kwargs)
        return N(P.f(short, qs[0], qs[1], _kws(rest)), x.kind, newbuf() if x.kind != 's' else None, None, x.ln)
    if short in ('isin', 'in1d') and len(args) >= 2:
        a, b = numv(args[0]), numv(args[1])
        return N(P.f('isin', a.p, dig(b.p), _kws(kwargs)), a.kind, newbuf(), None, a.ln)
    if short in ('array_equal', 'allclose'):
        a, b = numv(args[0]), numv(args[1])
        if a.p == b.p:
            return TRUE
        return N(P.f('bool', dig(P.f('aeq', a.p, b.p))), 's')
    if short in ('any', 'all') and args:
        a = numv(args[0])
        return N(P.f(short, a.p), 's')
    if short in ('tile', 'repeat', 'reshape', 'transpose'):
        a = numv(args[0])
        k, q = scontent(a.p)
        return N(P.mul(k, P.f('np.' + short, q, tuple(topoly(x) for x in args[1:]), _kws(kwargs))), 'a', newbuf())
    if short in ('argwhere', 'nonzero', 'flatnonzero', 'where') and len(args) == 1:
        w = boolvec(args[0])
        if w is not None:
            hit = [N(P.num(i), 's') for i, x in enumerate(w) if x]
            return T([T([h]) for h in hit]) if short == 'argwhere' else T(hit) if short == 'flatnonzero' else T([T(hit)])
    if short in ('argwhere', 'nonzero', 'flatnonzero', 'where'):
        return N(P.f('nonzero' if short in ('flatnonzero',) else short, numv(args[0]).p), 'a', newbuf(), '2d' if short != 'flatnonzero' else None)
    if short in ('diff', 'gradient', 'unique', 'flip', 'cross') and args:
        ps = [numv(a).p for a in args]
        return N(joint(short, [ps[0]], (), tuple(ps[1:]) + (_kws(kwargs),)) if short != 'cross' else P.f('cross', *ps), 'a', newbuf())
    if short in ('pow',) and len(args) == 2:
        return binop(I, 'Pow', args[0], args[1], node)
    return None


def _kws(kwargs):
    return tuple((k, topoly(v)) for k, v in sorted(kwargs.items()) if k != 'dtype')


def lenof(v):
    if v.ln is not None:
        return v.ln
    return P.f('len', _lenkey(v.p))


def _lenkey(p):
    for m in sorted(p.t, key=P._mono_sort):
        for a, e in m:
            if not is_scalar_atom(a):
                x = _lenatom(a)
                if x is not None:
                    return x
    return p


def _lenatom(a):
    if isinstance(a, str):
        return P.f('lengroup', LENGROUP.get(a, a))
    if a[1] in ELEMENTWISE:
        for x in a[2:]:
            if isinstance(x, Poly) and not is_scalar(x):
                return _lenkey(x)
    if a[1] in ('sort', 'argsort', 'cumsum') and isinstance(a[2], Poly):
        return _lenkey(a[2])
    if a[1] == 'sel':
        return P.f('count', a[3])
    return P.atom(a)


LENGROUP = {}


# ---------------------------------------------------------------- comparisons
def compare(I, op, a, b, st):
    if op in ('Is', 'IsNot', 'Eq', 'NotEq') and (isinstance(b, C) and b.v is None or isinstance(a, C) and a.v is None):
        if isinstance(a, C) and a.v is None and not (isinstance(b, C) and b.v is None):
            a, b = b, a
        neg = op in ('IsNot', 'NotEq')
        r = isnone(I, a, st)
        if r is None:
            p = P.f('isnone', topoly(a))
            return N(bnot(p) if neg else p, 's')
        return C(r != neg)
    if op in ('In', 'NotIn'):
        r = contains(I, a, b, st)
        if isinstance(r, C):
            return C(bool(r.v) != (op == 'NotIn'))
        return N(bnot(r.p), r.kind) if op == 'NotIn' else r
    if op in ('Is', 'IsNot'):
        op = 'Eq' if op == 'Is' else 'NotEq'
    if op in ('Eq', 'NotEq'):
        r = equal(I, a, b, st)
        if isinstance(r, C):
            return C(bool(r.v) != (op == 'NotEq'))
        return N(bnot(r.p), r.kind, None, None, r.ln) if op == 'NotEq' else r
    if isinstance(a, C) and isinstance(b, C) and isinstance(a.v, str) and isinstance(b.v, str):
        return C({'Lt': a.v < b.v, 'LtE': a.v <= b.v, 'Gt': a.v > b.v, 'GtE': a.v >= b.v}[op])
    for x in (a, b):
        if isinstance(x, C) and x.v is None:
            I.event('nonearith', None, name=op, detail='comparison with None')
        elif isinstance(x, N) and x.kind is None and st is not None:
            st.facts[('notnone', P.digest(x.p))] = True
    na, nb = numv(a), numv(b)
    d = P.sub(na.p, nb.p) if op in ('Gt', 'GtE') else P.sub(nb.p, na.p)
    r = ge0(d, op in ('Gt', 'Lt'))
    k = kindj(na, nb)
    c = r.const()
    if c is not None and k == 's':
        return C(bool(c))
    if c is not None and k == 'n' and na.p.const() is not None and nb.p.const() is not None:
        return C(bool(c))
    if k == 's':
        # sign of provably non-negative atoms (lengths) against negative constants
        pass
    return N(r, k, newbuf() if k != 's' else None, None, lnj(na, nb))


def isnone(I, a, st):
    if isinstance(a, C):
        return a.v is None
    if isinstance(a, N):
        if a.kind is not None:
            return False
        if ('notnone', P.digest(a.p)) in st.facts:
            return False
        f_ = st.facts.get(('t', P.digest(P.f('isnone', a.p))))
        if f_ is not None:
            return f_
        at = a.p.atom()
        if at is None:
            return False
        if isinstance(at, tuple) and at[1] in ('call:galpy.orbit.Orbit', 'OrbitCyl', 'OrbitSky', 'OrbitCart'):
            return False
        return None
    return False


def strvec(v):
    """the strings of an array of known strings"""
    a = v.p.atom() if isinstance(v, N) else None
    if isinstance(a, tuple) and a[1] == 'array' and len(a) > 2:
        out = []
        for x in a[2:]:
            x = x.atom() if isinstance(x, P.Poly) else x
            if not (isinstance(x, tuple) and x[1] == 'const' and isinstance(x[2], str) and x[2][:1] in '\'"'):
                return None
            out.append(ast.literal_eval(x[2]))
        return out
    return None


def boolvec(v):
    a = v.p.atom() if isinstance(v, N) else None
    return [bool(x) for x in a[2]] if isinstance(a, tuple) and a[1] == 'boolvec' else None


def equal(I, a, b, st):
    for x, y in ((a, b), (b, a)):
        if isinstance(y, C) and isinstance(y.v, str):
            w = strvec(x)
            if w is not None:
                return N(P.f('boolvec', tuple(int(q == y.v) for q in w)), 'a', newbuf())
    if isinstance(a, C) and isinstance(b, C):
        return C(a.v == b.v)
    if isinstance(b, C) and not isinstance(b.v, bool):
        x, s = a, b
    elif isinstance(a, C) and not isinstance(a.v, bool):
        x, s = b, a
    else:
        x = None
    if x is not None:
        if isinstance(x, N):
            if x.kind in ('s',) and isinstance(s.v, str):
                return FALSE
            if x.p.atom() is None or x.kind == 'n':
                if x.p.const() is not None:
                    return FALSE
            p = P.f('eqs', x.p, s.v)
            t = st.facts.get(('t', P.digest(p))) if st else None
            if t is not None:
                return C(t)
            return N(p, 's' if x.kind != 'a' else 'a')
        return FALSE
    if isinstance(a, (O, F, K, M, E)) or isinstance(b, (O, F, K, M, E)):
        if type(a) is type(b):
            if isinstance(a, E) and '?' in a.name:
                return N(P.f('bool', dig(P.f('eq', topoly(a), topoly(b)))), 's')
            return C(a == b)
        if isinstance(a, N) or isinstance(b, N):
            return N(P.f('bool', dig(P.f('eq', topoly(a), topoly(b)))), 's')
        return FALSE
    if isinstance(a, T) and isinstance(b, T):
        if len(a.items) != len(b.items):
            return FALSE
        rs = [equal(I, x, y, st) for x, y in zip(a.items, b.items)]
        if all(isinstance(r, C) for r in rs):
            return C(all(r.v for r in rs))
        return N(P.f('bool', dig(P.f('eq', topoly(a), topoly(b)))), 's')
    na, nb = numv(a), numv(b)
    k = kindj(na, nb)
    for u, w in ((a, nb), (b, na)):
        if isinstance(u, C) and isinstance(u.v, bool):
            o = b if u is a else a
            if isinstance(o, N) and o.kind is None:
                p = P.f('eqs', o.p, u.v)
                t = st.facts.get(('t', P.digest(p))) if st else None
                if t is not None:
                    return C(t)
                return N(p, 's')
    r = eq0(P.sub(na.p, nb.p))
    c = r.const()
    if c is not None and k != 'a':
        return C(bool(c))
    return N(r, k, newbuf() if k == 'a' else None, None, lnj(na, nb))


def contains(I, a, b, st):
    if isinstance(b, C) and isinstance(b.v, str):
        if isinstance(a, C):
            return C(a.v in b.v) if isinstance(a.v, str) else FALSE
        return N(P.f('bool', dig(P.f('in', topoly(a), topoly(b)))), 's')
    if isinstance(b, D):
        k = const_key(a)
        if k is not NOKEY:
            if k in b.items:
                return TRUE
            if b.rest is None:
                return FALSE
        return N(P.f('bool', dig(P.f('in', topoly(a), topoly(b)))), 's')
    if isinstance(b, T):
        rs = [equal(I, a, x, st) for x in b.items]
        if any(isinstance(r, C) and r.v for r in rs):
            return TRUE
        rs = [r for r in rs if not isinstance(r, C)]
        if not rs:
            return FALSE
        p = rs[0].p
        for r in rs[1:]:
            p = bor(p, r.p)
        return N(p, 's')
    w = strvec(b)
    if w is not None and isinstance(a, C):
        return C(a.v in w)
    return N(P.f('bool', dig(P.f('in', topoly(a), topoly(b)))), 's')


# ---------------------------------------------------------------- iteration
def iter_items(v):
    if isinstance(v, T):
        return list(v.items)
    if isinstance(v, D) and v.rest is None:
        return [lit(k) for k in v.items]
    if isinstance(v, C) and isinstance(v.v, str):
        return [C(x) for x in v.v]
    if isinstance(v, N):
        a = v.p.atom()
        if isinstance(a, tuple) and a[1] == 'array':
            return [N(x, None) for x in a[2:]]
        if isinstance(a, tuple) and a[1] == 'tuple':
            return [N(x, None) for x in a[2]]
        mo = v.p.mono()
        if mo and v.kind == 'a':
            arr = [x for x, e in mo[1] if isinstance(x, tuple) and x[1] == 'array' and e == 1]
            if len(arr) == 1:
                return [item(v, i) for i in range(len(arr[0]) - 2)]
    return None


def lit(k):
    if isinstance(k, bool) or k is None or isinstance(k, str):
        return C(k)
    if isinstance(k, (int, float)):
        return N(P.num(k), 's')
    return N(P.f('lit', repr(k)))


def iter_elem(it, nid):
    if isinstance(it, N):
        a = it.p.atom()
        if isinstance(a, tuple) and a[1] == 'range':
            return N(P.f('ix', nid, it.p), 's')
        if isinstance(a, tuple) and a[1] == 'enumerate':
            return T([N(P.f('ix', nid, it.p), 's'), N(P.f('elem', a[2], nid))])
        if it.kind == 'a':
            return N(selp(it.p, P.f('ix', nid), True), 's' if it.prov != '2d' else None)
    if isinstance(it, T) and it.items:
        if all(isinstance(x, T) and len(x.items) == len(it.items[0].items) for x in it.items):
            return T([N(P.f('elem', topoly(it), nid, j)) for j in range(len(it.items[0].items))])
    return N(P.f('elem', topoly(it), nid))


# ---------------------------------------------------------------- methods of plain values
ARRM = {'sum', 'mean', 'min', 'max', 'std', 'argsort', 'argmin', 'argmax', 'cumsum', 'any', 'all', 'astype', 'copy', 'flatten', 'ravel', 'value_in',
        'in_', 'as_quantity_in', 'append', 'extend', 'get', 'items', 'keys', 'values', 'sort', 'reshape', 'tolist', 'update', 'pop', 'insert', 'setdefault', 'fill', 'put',
        'lower', 'upper', 'strip', 'split', 'format', 'startswith', 'endswith', 'replace', 'zfill', 'join', 'clip', 'index', 'count', 'remove', 'round', 'resize', 'repeat',
        'dot', 'median', 'item', 'nonzero', 'squeeze', 'transpose', 'conj', 'take', 'rstrip', 'lstrip', 'reverse', 'clear', 'view'}


def val_attr(I, o, attr):
    if isinstance(o, N):
        a_ = o.p.atom()
        if isinstance(a_, tuple) and a_[1] in ('OrbitCyl', 'OrbitSky', 'OrbitCart'):
            from .galpy_model import orbit_attr
            r = orbit_attr(o, attr)
            if r is not None:
                return r
    if attr in ARRM:
        return BM(o, attr)
    if isinstance(o, N):
        if attr == 'size':
            return N(lenof(o), 's')
        if attr in ('number',):
            return N(P.f('number', o.p), o.kind)
        if attr == 'real':
            return o
        if attr == 'T' and o.kind == 'a':
            return N(P.f('T', o.p), 'a', o.buf, o.prov)
        if attr == 'shape':
            return N(P.f('shape', dig(o.p)))
        return N(P.f('attr', o.p, attr), None, o.buf)
    return N(P.f('attr', topoly(o), attr))


def method_call(I, bm, args, kwargs, st, node):
    o, m = bm.obj, bm.name
    if m.startswith('orbit.'):
        from .galpy_model import orbit_method
        return [(orbit_method(I, bm, args, kwargs), st)]
    if isinstance(o, D):
        if m == 'get':
            k = const_key(args[0]) if args else NOKEY
            d = args[1] if len(args) > 1 else kwargs.get('default', NONE)
            if k is not NOKEY:
                if k in o.items:
                    return [(o.items[k], st)]
                if o.rest is None:
                    return [(d, st)]
                return [(N(P.f('kwget', o.rest, str(k), topoly(d)), None, frozenset((('kwarg', str(k)),))), st)]
            return [(N(P.f('dget', topoly(o), tuple(topoly(a) for a in args))), st)]
        if m == 'pop':
            k = const_key(args[0]) if args else NOKEY
            d = args[1] if len(args) > 1 else None
            if k is not NOKEY:
                if k in o.items:
                    v = o.items[k]
                    ni = dict(o.items)
                    del ni[k]
                    _replace(o, D(ni, o.rest, o.buf), st)
                    return [(v, st)]
                if o.rest is None:
                    if d is None:
                        I.event('keyerror', node, name=str(k), detail='pop of missing key')
                        return []
                    return [(d, st)]
                return [(N(P.f('kwget', o.rest, str(k), topoly(d) if d is not None else P.ZERO), None, frozenset((('kwarg', str(k)),))), st)]
            return [(N(P.f('dpop', topoly(o))), st)]
        if m == 'copy':
            return [(D(o.items, o.rest), st)]
        if m in ('keys', 'values', 'items') and o.rest is None:
            if m == 'keys':
                return [(T([lit(k) for k in o.items]), st)]
            if m == 'values':
                return [(T(o.items.values()), st)]
            return [(T([T([lit(k), v]) for k, v in o.items.items()]), st)]
        if m == 'update':
            ni = dict(o.items)
            rest = o.rest
            if args and isinstance(args[0], D):
                ni.update(args[0].items)
                rest = args[0].rest if args[0].rest is not None else rest
            elif args:
                rest = P.f('dstore', rest or P.ZERO, topoly(args[0]), P.ZERO)
            ni.update({k: v for k, v in kwargs.items() if k != '**'})
            if '**' in kwargs:
                rest = kwargs['**']
            _replace(o, D(ni, rest, o.buf), st)
            return [(NONE, st)]
        if m == 'setdefault' and args:
            k = const_key(args[0])
            if k is not NOKEY and k in o.items:
                return [(o.items[k], st)]
            if k is not NOKEY:
                v = args[1] if len(args) > 1 else NONE
                if o.rest is not None:
                    v = N(P.f('kwget', o.rest, str(k), topoly(v)), None)
                ni = dict(o.items)
                ni[k] = v
                _replace(o, D(ni, o.rest, o.buf), st)
                return [(v, st)]
        return [(N(P.f('dm:' + m, topoly(o), tuple(topoly(a) for a in args))), st)]
    if isinstance(o, T):
        if o.lst and m in ('append', 'extend', 'insert', 'sort', 'remove', 'pop', 'reverse', 'clear') and I.on_mutate and o.buf and not I.muted:
            I.on_mutate(I, o, node.func.value if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else node, st, node)
        if m == 'append' and len(args) == 1 and I.on_append:
            I.on_append(I, args[0])
        if o.lst and m in ('append', 'extend', 'insert'):
            its = list(o.items)
            if m == 'append' and args:
                its.append(args[0])
                new = T(its, True, o.buf)
            elif m == 'extend' and args and iter_items(args[0]) is not None:
                new = T(its + iter_items(args[0]), True, o.buf)
            else:
                new = N(P.f('lm', topoly(o), tuple(topoly(a) for a in args)), None, o.buf)
            if isinstance(new, T) and len(new.items) > 64:
                new = N(P.f('biglist', dig(topoly(new))), None, o.buf)
            _replace(o, new, st)
            return [(NONE, st)]
        if m == 'index' or m == 'count':
            return [(N(P.f('lm:' + m, topoly(o), tuple(topoly(a) for a in args)), 's'), st)]
        if m == 'copy':
            return [(T(o.items, o.lst), st)]
        v = numv(o)
        return method_call(I, BM(v, m), args, kwargs, st, node)
    if isinstance(o, C) and isinstance(o.v, str):
        if m in ('lower', 'upper', 'strip', 'rstrip', 'lstrip') and not args:
            return [(C(getattr(o.v, m)()), st)]
        if m in ('startswith', 'endswith', 'replace', 'split', 'zfill', 'count', 'index') and all(isinstance(a, C) or const_int(a) is not None for a in args):
            try:
                r = getattr(o.v, m)(*[a.v if isinstance(a, C) else const_int(a) for a in args])
                return [(I.lit(r), st)]
            except Exception:
                pass
        return [(N(P.f('sm:' + m, topoly(o), tuple(topoly(a) for a in args))), st)]
    if isinstance(o, N):
        p = o.p
        if m in ('value_in', 'in_', 'as_quantity_in'):
            if args:
                un = numv(args[0]).p
                if m == 'value_in':
                    if not isamuse(p):
                        return [(N(P.f('value_in', p, un), o.kind, newbuf(), None, o.ln), st)]
                    return [(N(P.div(p, un), o.kind, newbuf(), None, o.ln), st)]
                return [(o, st)]
        if m == 'astype':
            t = args[0] if args else None
            isint = isinstance(t, E) and t.name in ('builtins.int', 'numpy.int64', 'numpy.int32') or isinstance(t, C) and str(t.v).startswith('int')
            if isint and not _intlike(p):
                return [(N(P.f('int', p), o.kind, newbuf(), o.prov, o.ln), st)]
            return [(N(p, o.kind, newbuf(), o.prov, o.ln), st)]
        if m in ('copy', 'flatten', 'conj'):
            return [(N(p, o.kind, newbuf(), o.prov, o.ln), st)]
        if m in ('ravel', 'view', 'squeeze'):
            return [(N(p, o.kind, o.buf, None, o.ln), st)]
        if m in ('sum', 'mean', 'min', 'max', 'std', 'argsort', 'argmin', 'argmax', 'cumsum', 'any', 'all'):
            r = np_call(I, m, [o] + list(args), kwargs, st, node, m)
            if r is not None:
                return [(r, st)]
        if m == 'append' and len(args) == 1 and I.on_append:
            I.on_append(I, args[0])
        if m in ('append', 'extend', 'insert', 'sort', 'fill', 'put', 'update', 'resize', 'reverse', 'clear', 'remove', 'pop', 'setdefault'):
            if I.on_mutate and o.buf and not I.muted:
                I.on_mutate(I, o, node.func.value if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else node, st, node)
            if m in ('sort', 'fill', 'put', 'resize'):
                I.event('mutate', node, name='method:' + m, detail='', buf=o.buf, akind=o.kind, op='store')
            if o.buf and m not in ('pop', 'setdefault'):
                new = N(P.f('mm:' + m, p, tuple(topoly(a) for a in args)), o.kind, o.buf)
                I.mutated(o, new, st)
            if m in ('pop', 'setdefault'):
                return [(N(P.f('mm:' + m, p, tuple(topoly(a) for a in args))), st)]
            return [(NONE, st)]
        if m == 'item' and not args:
            return [(N(p, 's'), st)]
        if m == 'tolist':
            return [(N(p, o.kind, newbuf(), None, o.ln), st)]
        if m == 'reshape' or m == 'transpose':
            return [(N(P.f('np.reshape', p, tuple(topoly(a) for a in args), ()), o.kind, o.buf, '2d'), st)]
        return [(N(P.f('m:' + m, p, tuple(topoly(a) for a in args), _kws(kwargs))), st)]
    return [(N(P.f('m:' + m, topoly(o), tuple(topoly(a) for a in args))), st)]


INTLIKE = set()


def _intlike(p):
    def ok(a):
        if isinstance(a, str):
            return a in INTLIKE
        if a[1] in ('len', 'count', 'int', 'arange', 'ix', 'argsort', 'ntot', 'argmin', 'argmax'):
            return True
        if a[1] in ('sel', 'idx', 'append', 'max', 'min', 'phi', 'sort'):
            return all(_intlike(x) for x in a[2:3]) if a[1] not in ('append', 'phi') else all(_intlike(x) for x in a[2:] if isinstance(x, Poly))
        return False
    return all(float(c).is_integer() and all(e > 0 and ok(a) for a, e in m) for m, c in p.t.items() if not isinstance(c, complex))


def _replace(old, new, st):
    def sub(x):
        if isinstance(x, (D, T)) and type(x) is type(old) and x.buf == old.buf and x.buf:
            return new
        return x
    for ob in st.objs.values():
        for k, x in list(ob.fields.items()):
            ob.fields[k] = sub(x)
    for fr in st.frames:
        for k, x in list(fr.env.items()):
            fr.env[k] = sub(x)


# ---------------------------------------------------------------- builtins
def builtin_call(I, name, args, kwargs, st, node):
    a0 = args[0] if args else None
    if name == 'len' and args:
        if isinstance(a0, (T, D)) and not (isinstance(a0, D) and a0.rest is not None):
            return [(N(P.num(len(a0.items)), 's'), st)]
        if isinstance(a0, C) and isinstance(a0.v, str):
            return [(N(P.num(len(a0.v)), 's'), st)]
        if isinstance(a0, C) and a0.v is None:
            I.event('nonearith', node, name='len', detail='len(None)')
            return []
        if isinstance(a0, N):
            if a0.kind == 's':
                I.event('lenscalar', node, name='len', detail='len of a scalar')
            a = a0.p.atom()
            if isinstance(a, tuple) and a[1] == 'array':
                return [(N(P.num(len(a) - 2), 's'), st)]
            return [(N(lenof(a0), 's'), st)]
        return [(N(P.f('len', topoly(a0)), 's'), st)]
    if name == 'range':
        ps = [const_int(a) for a in args]
        if all(p is not None for p in ps) and ps:
            r = range(*ps)
            if len(r) <= 256:
                return [(T([N(P.num(i), 's') for i in r]), st)]
        return [(N(P.f('range', *[numv(a).p for a in args]), None), st)]
    if name == 'enumerate' and args:
        its = iter_items(a0)
        if its is not None:
            s0 = const_int(args[1]) if len(args) > 1 else 0
            return [(T([T([N(P.num(i + (s0 or 0)), 's'), x]) for i, x in enumerate(its)]), st)]
        return [(N(P.f('enumerate', topoly(a0))), st)]
    if name == 'zip':
        L = [iter_items(a) for a in args]
        if all(x is not None for x in L) and L:
            return [(T([T(x) for x in zip(*L)]), st)]
        return [(N(P.f('zip', tuple(topoly(a) for a in args))), st)]
    if name in ('reversed', 'sorted') and args:
        its = iter_items(a0)
        if its is not None and name == 'reversed':
            return [(T(reversed(its), True), st)]
        if its is not None and all(isinstance(x, C) for x in its):
            try:
                return [(T(sorted(its, key=lambda x: x.v), True), st)]
            except Exception:
                pass
        return [(N(P.f(name, topoly(a0)), None, newbuf()), st)]
    if name in ('list', 'tuple'):
        if not args:
            return [(T([], name == 'list'), st)]
        its = iter_items(a0)
        if its is not None:
            return [(T(its, name == 'list'), st)]
        if isinstance(a0, N):
            return [(N(a0.p, a0.kind, newbuf(), a0.prov, a0.ln), st)]
        return [(N(P.f(name, topoly(a0))), st)]
    if name == 'dict':
        if not args:
            rest = kwargs.get('**')
            return [(D({k: v for k, v in kwargs.items() if k != '**'}, rest), st)]
        if isinstance(a0, D):
            return [(D({**a0.items, **{k: v for k, v in kwargs.items() if k != '**'}}, a0.rest), st)]
        if isinstance(a0, T) and all(isinstance(x, T) and len(x.items) == 2 for x in a0.items):
            d = {}
            for x in a0.items:
                k = const_key(x.items[0])
                if k is NOKEY:
                    break
                d[k] = x.items[1]
            else:
                return [(D(d), st)]
        return [(N(P.f('dict', topoly(a0))), st)]
    if name == 'set':
        its = iter_items(a0) if args else []
        if its is not None:
            return [(T(its, True), st)]
    if name in ('float', 'int', 'bool', 'str', 'complex'):
        if not args:
            return [(I.lit({'float': 0.0, 'int': 0, 'bool': False, 'str': '', 'complex': 0j}[name]), st)]
        if name == 'str':
            if isinstance(a0, C):
                return [(C(str(a0.v)), st)]
            return [(N(P.f('str', topoly(a0))), st)]
        if isinstance(a0, C) and isinstance(a0.v, str):
            try:
                return [(I.lit({'float': float, 'int': int, 'bool': bool}[name](a0.v)), st)]
            except Exception:
                return [(N(P.f(name, topoly(a0)), 's'), st)]
        if name == 'bool':
            t = I.truth(a0, st)
            if t is not None:
                return [(C(t), st)]
            return [(N(P.f('bool', dig(topoly(a0))), 's'), st)]
        n = numv(a0)
        if isinstance(a0, C) and a0.v is None:
            I.event('nonearith', node, name=name, detail='%s(None)' % name)
            return []
        if name == 'int':
            c = n.p.const()
            if c is not None and not isinstance(c, complex):
                return [(N(P.num(int(c)), 's'), st)]
            if _intlike(n.p):
                return [(N(n.p, 's'), st)]
            return [(N(P.f('int', n.p), 's'), st)]
        return [(N(n.p, 's' if n.kind in ('s', None) else n.kind, None, n.prov), st)]
    if name == 'abs' and args:
        return [(np_call(I, 'abs', args, kwargs, st, node, name), st)]
    if name == 'round' and args:
        n = numv(a0)
        return [(N(P.f('round', n.p, tuple(topoly(x) for x in args[1:])), n.kind), st)]
    if name in ('min', 'max') and args:
        its = list(args) if len(args) > 1 else iter_items(a0)
        if its is not None:
            ps = [numv(x).p for x in its]
            if all(p.const() is not None for p in ps) and ps:
                return [(N(P.num((max if name == 'max' else min)(p.const() for p in ps)), 's'), st)]
            return [(N(joint(name + 'imum', sorted(ps, key=P.digest)) if len(ps) > 1 else ps[0], 's'), st)]
        return [(N(joint(name, [numv(a0).p]), 's'), st)]
    if name == 'sum' and args:
        its = iter_items(a0)
        if its is not None:
            r = P.ZERO
            for x in its:
                r = P.add(r, numv(x).p)
            return [(N(r, 'n'), st)]
        return [(np_call(I, 'sum', args[:1], {}, st, node, name), st)]
    if name in ('any', 'all') and args:
        its = iter_items(a0)
        if its is not None:
            ts = [I.truth(x, st) for x in its]
            if name == 'any' and any(t is True for t in ts):
                return [(TRUE, st)]
            if name == 'all' and any(t is False for t in ts):
                return [(FALSE, st)]
            if all(t is not None for t in ts):
                return [(C(any(ts) if name == 'any' else all(ts)), st)]
        return [(N(P.f(name, topoly(a0)), 's'), st)]
    if name == 'pow' and len(args) == 2:
        return [(binop(I, 'Pow', args[0], args[1], node), st)]
    if name == 'isinstance' and len(args) == 2:
        return [(isinst(I, args[0], args[1], st), st)]
    if name == 'type' and args:
        if isinstance(a0, O) and st.objs[a0.id].cls:
            return [(K(st.objs[a0.id].cls), st)]
        if isinstance(a0, C):
            return [(E('builtins.' + type(a0.v).__name__), st)]
        if isinstance(a0, N) and a0.kind == 'a' and not isamuse(a0.p):
            return [(E('numpy.ndarray'), st)]
        if isinstance(a0, T):
            return [(E('builtins.list' if a0.lst else 'builtins.tuple'), st)]
        return [(N(P.f('type', topoly(a0))), st)]
    if name == 'hasattr' and len(args) == 2 and isinstance(args[1], C):
        if isinstance(a0, O):
            ob = st.objs[a0.id]
            if args[1].v in ob.fields or (ob.cls and args[1].v in ob.cls.methods):
                return [(TRUE, st)]
            if not ob.open:
                return [(FALSE, st)]
        return [(N(P.f('bool', dig(P.f('hasattr', topoly(a0), topoly(args[1])))), 's'), st)]
    if name == 'getattr' and len(args) >= 2 and isinstance(args[1], C) and isinstance(args[1].v, str):
        if isinstance(a0, O) and len(args) > 2:
            ob = st.objs[a0.id]
            if args[1].v not in ob.fields and not (ob.cls and args[1].v in ob.cls.methods):
                return [(args[2], st)]
        return I.getattr(a0, args[1].v, st, node)
    if name == 'getattr' and len(args) >= 2:
        return [(N(P.f('getattr', topoly(a0), topoly(args[1]))), st)]
    if name == 'setattr' and len(args) == 3:
        if isinstance(args[1], C):
            I.setattr(a0, args[1].v, args[2], st, node)
        elif isinstance(a0, O):
            # unknown attribute: every field may have changed
            I.event('opaque_setattr', node, name='setattr', detail='unknown attribute name')
            ob = st.objs[a0.id]
            for k in list(ob.fields):
                ob.fields[k] = N(P.f('anyattr', topoly(args[1]), topoly(ob.fields[k]), topoly(args[2])), None)
        return [(NONE, st)]
    if name == 'delattr' and len(args) == 2:
        if isinstance(a0, O) and isinstance(args[1], C):
            st.objs[a0.id].fields.pop(args[1].v, None)
        return [(NONE, st)]
    if name == 'vars' and args and isinstance(a0, O):
        return [(D(st.objs[a0.id].fields), st)]
    if name == 'print':
        return [(NONE, st)]
    if name in ('map',) and len(args) == 2:
        its = iter_items(args[1])
        if its is not None:
            res = []
            s = st
            for x in its:
                r = I.call(a0, [x], {}, s, node)
                if not r:
                    return []
                res.append(r[0][0])
                s = r[0][1]
            return [(T(res, True), s)]
    if name == 'callable':
        if isinstance(a0, (F, K, E, BM)):
            return [(TRUE, st)]
        if isinstance(a0, (C, T, D)):
            return [(FALSE, st)]
    if name == 'slice':
        vs = list(args) + [NONE] * 3
        if len(args) == 1:
            return [(SL(NONE, args[0], NONE), st)]
        return [(SL(*vs[:3]), st)]
    if name == 'exit' or name == 'quit':
        return []
    return None


def isinst(I, v, t, st):
    if isinstance(t, T):
        rs = [isinst(I, v, x, st) for x in t.items]
        if any(isinstance(r, C) and r.v for r in rs):
            return TRUE
        if all(isinstance(r, C) for r in rs):
            return FALSE
        return [r for r in rs if not isinstance(r, C)][0]
    nm = t.name.split('.')[-1] if isinstance(t, E) else (t.ci.name if isinstance(t, K) else None)
    if nm is None:
        return N(P.f('bool', dig(P.f('isinst', topoly(v), topoly(t)))), 's')
    if isinstance(v, O):
        cl = st.objs[v.id].cls
        return C(isinstance(t, K) and cl is not None and cl is t.ci)
    if isinstance(v, C):
        if nm in ('float', 'int', 'str', 'bool', 'list', 'tuple', 'dict', 'ndarray', 'ScalarQuantity', 'VectorQuantity'):
            return C(type(v.v).__name__ == nm or (nm == 'int' and isinstance(v.v, bool)))
        return FALSE
    if isinstance(v, T):
        return C(nm == ('list' if v.lst else 'tuple'))
    if isinstance(v, D):
        return C(nm == 'dict')
    if isinstance(v, N):
        if nm in ('ScalarQuantity', 'VectorQuantity', 'Quantity'):
            if v.kind is not None or v.p.atom() is None:
                am = isamuse(v.p)
                if nm == 'Quantity':
                    return C(am)
                if not am:
                    return FALSE
                if v.kind == 's':
                    return C(nm == 'ScalarQuantity')
                if v.kind == 'a':
                    return C(nm == 'VectorQuantity')
            elif not isamuse(v.p) and NOAMUSE_PARAMS:
                return FALSE
        if v.kind == 'a':
            if nm == 'ndarray':
                return C(not isamuse(v.p))
            if nm in ('float', 'int', 'str', 'list', 'tuple', 'dict', 'bool', 'float64', 'Orbit'):
                return FALSE
        if v.kind == 's':
            if nm in ('str', 'list', 'tuple', 'dict', 'ndarray', 'Orbit', 'VectorQuantity'):
                return FALSE
            c = v.p.const()
            if nm == 'float' and c is not None and not float(c).is_integer():
                return TRUE
            if nm == 'float' and v.prov == 'float':
                return TRUE
            if nm == 'int' and v.prov == 'float':
                return FALSE
        if isinstance(t, K) and v.kind is not None:
            return FALSE
    return N(P.f('bool', dig(P.f('isinst', topoly(v), nm))), 's')


NOAMUSE_PARAMS = True
