"""Abstract values and states."""
from fractions import Fraction
from . import poly as P

_counter = [0]


def newbuf():
    _counter[0] += 1
    return frozenset((_counter[0],))


NOBUF = frozenset()


class C:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'C(%r)' % (self.v,)

    def __eq__(self, o):
        return isinstance(o, C) and type(o.v) is type(self.v) and o.v == self.v

    def __hash__(self):
        return hash(self.v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


class N:
    """numeric / unknown value. kind: 's' scalar, 'a' array, None unknown"""
    __slots__ = ('p', 'kind', 'buf', 'prov', 'ln')

    def __init__(self, p, kind=None, buf=None, prov=None, ln=None):
        self.p = p
        self.kind = kind
        self.buf = NOBUF if buf is None else buf
        self.prov = prov      # provenance tag used by some checkers
        self.ln = ln          # canonical length of axis 0 (Poly), None if not known

    def __repr__(self):
        return 'N(%s%s)' % (self.p, ':' + self.kind if self.kind else '')

    def __eq__(self, o):
        return isinstance(o, N) and o.buf == self.buf and o.p == self.p and o.kind == self.kind and o.prov == self.prov

    def __hash__(self):
        return hash(self.p)


class T:
    __slots__ = ('items', 'lst', 'buf')

    def __init__(self, items, lst=False, buf=None):
        self.items = tuple(items)
        self.lst = lst
        self.buf = buf if buf is not None else (newbuf() if lst else NOBUF)

    def __repr__(self):
        return 'T%r' % (self.items,)

    def __eq__(self, o):
        return isinstance(o, T) and self.lst == o.lst and self.items == o.items and (not self.lst or self.buf == o.buf)

    def __hash__(self):
        return hash(len(self.items))


class D:
    __slots__ = ('items', 'rest', 'buf')

    def __init__(self, items, rest=None, buf=None):
        self.items = dict(items)
        self.rest = rest
        self.buf = buf if buf is not None else newbuf()

    def __repr__(self):
        return 'D(%r%s)' % (self.items, ' ..' if self.rest is not None else '')

    def __eq__(self, o):
        return isinstance(o, D) and self.items == o.items and self.rest == o.rest

    def __hash__(self):
        return hash(len(self.items))


class F:
    __slots__ = ('fi', 'self_val', 'closure')

    def __init__(self, fi, self_val=None, closure=None):
        self.fi = fi
        self.self_val = self_val
        self.closure = closure

    def __repr__(self):
        return 'F(%s)' % self.fi.full

    def __eq__(self, o):
        return isinstance(o, F) and o.fi is self.fi and o.self_val == self.self_val

    def __hash__(self):
        return hash(id(self.fi))


class K:
    __slots__ = ('ci',)

    def __init__(self, ci):
        self.ci = ci

    def __eq__(self, o):
        return isinstance(o, K) and o.ci is self.ci

    def __hash__(self):
        return hash(id(self.ci))

    def __repr__(self):
        return 'K(%s)' % self.ci.name


class M:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, M) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class E:
    """external object by dotted name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'E(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, E) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class BM:
    """bound method of a non-object value (numpy array method, list method, ...)"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __eq__(self, o):
        return isinstance(o, BM) and o.obj == self.obj and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'BM(%r.%s)' % (self.obj, self.name)


class O:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'O(%s)' % self.id

    def __eq__(self, o):
        return isinstance(o, O) and o.id == self.id

    def __hash__(self):
        return hash(self.id)


class SL:
    __slots__ = ('lo', 'hi', 'st')

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st

    def __eq__(self, o):
        return isinstance(o, SL) and (self.lo, self.hi, self.st) == (o.lo, o.hi, o.st)

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'SL'


class MaybeUndef:
    """join of defined and undefined"""
    def __repr__(self):
        return 'MaybeUndef'

    def __eq__(self, o):
        return isinstance(o, MaybeUndef)

    def __hash__(self):
        return 3


MU = MaybeUndef()


class Obj:
    __slots__ = ('cls', 'fields', 'open')

    def __init__(self, cls, fields=None, open=False):
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.open = open

    def copy(self):
        return Obj(self.cls, dict(self.fields), self.open)


class Frame:
    __slots__ = ('env', 'fi', 'mod', 'closure')

    def __init__(self, env, fi, mod, closure=None):
        self.env = env
        self.fi = fi
        self.mod = mod
        self.closure = closure   # list of env dicts (outer scopes), shared

    def copy(self):
        return Frame(dict(self.env), self.fi, self.mod, self.closure)


class State:
    __slots__ = ('objs', 'frames', 'facts', 'nobj', 'log')

    def __init__(self):
        self.objs = {}
        self.frames = []
        self.facts = {}
        self.nobj = 0
        self.log = ()

    def copy(self):
        s = State()
        s.objs = {k: v.copy() for k, v in self.objs.items()}
        s.frames = [f.copy() for f in self.frames]
        s.facts = dict(self.facts)
        s.nobj = self.nobj
        s.log = self.log
        return s

    @property
    def env(self):
        return self.frames[-1].env

    def new_obj(self, cls, fields=None, open=False):
        self.nobj += 1
        i = '%s#%d' % (cls.name if cls is not None else 'obj', self.nobj)
        self.objs[i] = Obj(cls, fields, open)
        return O(i)


def topoly(v):
    """Poly standing for any value (opaque token for non-numeric ones)."""
    if isinstance(v, N):
        return v.p
    if isinstance(v, C):
        if isinstance(v.v, bool):
            return P.num(1.0 if v.v else 0.0)
        return P.f('const', repr(v.v))
    if isinstance(v, T):
        return P.f('tuple', tuple(topoly(x) for x in v.items))
    if isinstance(v, D):
        return P.f('dict', tuple((str(k), topoly(v.items[k])) for k in sorted(v.items, key=str)), v.rest if v.rest is not None else '')
    if isinstance(v, F):
        return P.f('func', v.fi.full, topoly(v.self_val) if v.self_val is not None else '')
    if isinstance(v, K):
        return P.f('class', v.ci.name)
    if isinstance(v, M):
        return P.f('mod', v.name)
    if isinstance(v, E):
        return P.f('ext', v.name)
    if isinstance(v, O):
        return P.f('obj', v.id)
    if isinstance(v, BM):
        return P.f('bm', topoly(v.obj), v.name)
    if isinstance(v, SL):
        return P.f('slice', topoly(v.lo), topoly(v.hi), topoly(v.st))
    return P.f('val', repr(v))
