"""Deciding equality of a computed normal form with the required one.

'ok'         known equal (on every alternative)
'bad'        definitely different: some alternative is built only from the inputs and
             operations whose meaning the domain knows, and its normal form differs
'undecided'  the value went through something the domain does not model
"""
from . import poly as P
from .values import *

OPAQUE_PREFIX = ('call', 'kernel:', 'skip:', 'rec:', 'loop', 'mut', 'upd', 'restarg', 'maybe', 'big', 'comp', 'unpack', 'item', 'field',
                 'expr', 'lit', 'dict', 'dstore', 'obj', 'func', 'class', 'mod', 'ext', 'bm', 'val', 'exc', 'resolved', 'clsattr', 'cls',
                 'const', 'seq', 'str', 'div0', 'npow', 'm:', 'np:', 'phi', 'meth', 'attr', 'val_attr')


def opaque_name(n):
    return n.startswith(OPAQUE_PREFIX) or ':' in n


def openend(x):
    """the None of an open slice"""
    a = x.atom() if isinstance(x, P.Poly) else x
    return isinstance(a, tuple) and len(a) > 2 and a[:2] == ('f', 'const') and a[2] == 'None'


def opaque(p, memo=None):
    memo = {} if memo is None else memo

    def at(a):
        if isinstance(a, str):
            return False
        r = memo.get(a)
        if r is None:
            r = opaque_name(a[1]) or any(arg(x) for x in a[2:] if not (a[1] == 'slice' and openend(x)))
            memo[a] = r
        return r

    def arg(x):
        if isinstance(x, P.Poly):
            return any(at(a) for m in x.t for a, e in m)
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] == 'f' and isinstance(x[1], str):
                return at(x)
            return any(arg(y) for y in x)
        return False
    return arg(p)


def alts(p, limit=16):
    """values at the top-level joins: mono*phi(a,b) -> mono*a, mono*b"""
    out = []
    work = [p]
    while work and len(out) + len(work) <= limit:
        q = work.pop()
        hit = None
        for m in q.t:
            for a, e in m:
                if isinstance(a, tuple) and a[1] == 'phi':
                    hit = a
                    break
            if hit:
                break
        if hit is None:
            out.append(q)
            continue
        # joins of the same merge point are resolved together
        tag = hit[4]
        for i in (2, 3):
            work.append(P.subst(q, lambda a, i=i: _pick(a, tag, i)))
    return out + work


def _pick(a, tag, i):
    if isinstance(a, tuple) and a[1] == 'phi' and len(a) == 5 and a[4] == tag:
        return P.subst(a[i], lambda b: _pick(b, tag, i)) if isinstance(a[i], P.Poly) else None
    return None


def judge(v, want, zero_ok=False):
    """v: Poly; want: Poly"""
    if v == want:
        return 'ok', None
    v = P.reduce(v)
    if v == want:
        return 'ok', None
    res = 'ok'
    for a in alts(v):
        if a == want:
            continue
        if zero_ok and not a.t:
            continue
        if opaque(a):
            res = 'undecided'
            continue
        if _agree(a, want):
            continue
        return 'bad', a
    return res, None


def same(v, w):
    """are two computed values known to be the same / known to differ?  Joins of one merge point are resolved together in both."""
    if v == w:
        return 'ok', None
    v, w = P.reduce(v), P.reduce(w)
    if v == w:
        return 'ok', None
    work, n = [(v, w)], 0
    res = 'ok'
    while work:
        a, b = work.pop()
        n += 1
        if a == b:
            continue
        tag = _firsttag(a) or _firsttag(b)
        if tag is not None:
            if n > 40:
                return 'undecided', None
            for i in (2, 3):
                work.append((P.subst(a, lambda x, i=i: _pick(x, tag, i)), P.subst(b, lambda x, i=i: _pick(x, tag, i))))
            continue
        if opaque(a) or opaque(b):
            if rescaled(a, b):
                return 'bad', (a, b)
            res = 'undecided'
            continue
        if _agree(a, b):
            continue
        return 'bad', (a, b)
    return res, None


def _firsttag(p):
    for a in p.atoms(True):
        if isinstance(a, tuple) and len(a) == 5 and a[0] == 'f' and a[1] == 'phi':
            return a[4]
    return None


SCALE = {'rbar', 'vbar', 'zmbar', 'tbar', '_ro', '_vo', 'ro', 'vo'}


def rescaled(a, b):
    """one unmodelled value times two different factors: different whatever the value (unless zero)"""
    if not a.t or not b.t or a.const() is not None or b.const() is not None or any(isinstance(x, tuple) and x[1] == 'div0' for x in a.atoms(True)):
        return False
    q = P.reduce(P.div(a, b))
    if len(q.t) != 1:
        return False
    (m, c), = q.t.items()
    if isinstance(c, complex) or any(x not in SCALE for x, e in m):
        return False
    return bool(m) or abs(c - 1) > 1e-6


def _agree(a, b):
    """equal functions that the rewriting rules leave in different forms"""
    from . import pit
    return pit.agree(a, b) is True


def leaves(v, w, limit=200):
    """pairs of values of v and w on the combinations of their joins (joins of one merge point resolved together)"""
    work, n = [(v, w)], 0
    while work and n < limit:
        a, b = work.pop()
        n += 1
        tag = _firsttag(a) or _firsttag(b)
        if tag is None:
            yield a, b
            continue
        for i in (2, 3):
            work.append((P.subst(a, lambda x, i=i: _pick(x, tag, i)), P.subst(b, lambda x, i=i: _pick(x, tag, i))))
