"""C11: per-star arrays stay the same length and in the same order."""
from .. import poly as P
from .. import judge, sweep, models
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..report import Report
from . import c04

RULE = ('(join) after every operation that adds stars, binaries or stellar-evolution data, the symbolic length and the block layout of each per-star '
        'array must be those of its group (positions, velocities, masses, ids, ...), for arrays and single stars, with each optional argument '
        'given or left out, on an empty and on a populated cluster; (order) in every public operation the index space of each array (the stars, '
        'the stars permuted by an argsort, a selection) is inferred, and two arrays, or an array and its mask or permutation, that are '
        'combined entry by entry must be in the same space')
FLOORS = {'runs': 180, 'combinations': 600, 'joins': 100, 'operations': 50}

STAR = models.LENGROUP
AMB = object()


# ------------------------------------------------------------------ index spaces
def space(p, memo):
    """canonical index space: 'S' scalar, None unknown, AMB inconsistent, else a nested tuple"""
    r = 'S'
    for m in p.t:
        for a, e in m:
            s = aspace(a, memo)
            if s == 'S' or r is AMB:
                continue
            if s is None or s is AMB or r is None:
                r = None
            elif r == 'S':
                r = s
            elif r != s:
                r = AMB
    return None if r is AMB else r


def aspace(a, memo):
    if a in memo:
        return memo[a]
    memo[a] = None
    memo[a] = r = _aspace(a, memo)
    return r


def _aspace(a, memo):
    if models.is_scalar_atom(a):
        return 'S'
    if isinstance(a, str):
        return ('stars',) if STAR.get(a) == 'stars' else ('arg',) if a.startswith('p_') and len(a) > 2 and False else None
    n = a[1]
    ps = [x for x in a[2:] if isinstance(x, P.Poly)]
    if n in ('sel', 'selx') and len(a) == 4:
        b = space(a[2], memo)
        return ('sel', b, a[3]) if isinstance(b, tuple) else None
    if n in ('argsort', 'sort') and len(ps) == 1:
        b = space(ps[0], memo)
        return ('sel', b, P.f('argsort', models.scontent(ps[0])[1])) if isinstance(b, tuple) else None
    if n == 'cumsum' and len(ps) == 1:
        return space(ps[0], memo)
    if n == 'upd' and ps:
        return space(ps[0], memo)
    if n == 'phi':
        s = [space(x, memo) for x in ps]
        return s[0] if len(s) == 2 and s[0] == s[1] else None
    if n in models.ELEMENTWISE or n in ('poly', 'nan_to_num'):
        r = 'S'
        for x in ps:
            s = space(x, memo)
            if s == 'S':
                continue
            if s is None:
                return None
            if r == 'S':
                r = s
            elif r != s:
                return None
        return r
    return None


def pure(p):
    """no joins, loop-carried or unmodelled parts"""
    return not any(isinstance(a, tuple) and (a[1] in ('phi', 'loop', 'upd') or judge.opaque_name(a[1])) for a in p.atoms(True))


def ismask(p):
    def ok(a):
        return isinstance(a, tuple) and a[1] in ('ge0', 'gt0', 'eq0', 'ne0', 'not', 'or', 'isin', 'isnan', 'isfinite')
    return bool(p.t) and all((not m and c == 1.0) or (m and all(ok(a) for a, e in m)) for m, c in p.t.items())


def isperm(p):
    a = p.atom()
    return isinstance(a, tuple) and a[1] == 'argsort'


def mono_key(q):
    return q


def steps(s):
    out = []
    while s[0] == 'sel':
        out.append(s[2])
        s = s[1]
    return s, out[::-1]


def clash(s, t):
    """s and t cannot be the same order of the same stars: 'perm' different order, 'length' different selections"""
    if s == t:
        return None
    b1, k1 = steps(s)
    b2, k2 = steps(t)
    if b1 != b2:
        return None
    while k1 and k2 and k1[0] == k2[0]:
        k1, k2 = k1[1:], k2[1:]
    if not all(pure(k) for k in k1 + k2):
        return None
    if all(isperm(k) for k in k1 + k2):
        if not k1 or not k2:
            return 'order'
        x, y = k1[-1].atom()[2], k2[-1].atom()[2]
        j, _ = judge.same(P.power(x, 2), P.power(y, 2))
        return 'order' if j == 'bad' and len(k1) == len(k2) == 1 else None
    if (not k1 or not k2) and all(ismask(k) for k in k1 + k2):
        return 'length'
    return None


def position(p):
    """the array an integer position was found in"""
    for i in range(8):
        if len(p.t) != 1:
            return None
        (m, c), = p.t.items()
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = m[0][0]
        if not isinstance(a, tuple) or len(a) < 3 or not isinstance(a[2], P.Poly):
            return None
        if a[1] in ('argmin', 'argmax'):
            return a[2]
        if a[1] in ('idx', 'unpack'):
            if isperm(a[2]):
                return a[2].atom()[2]
            p = a[2]
        elif a[1] in ('argwhere', 'nonzero', 'where'):
            return a[2]
        elif a[1] in ('int', 'int1', 'array', 'np.squeeze'):
            p = a[2]
        else:
            return None
    return None


def show(s):
    b, k = steps(s)
    return b[0] + ''.join('[%s]' % P.show(x)[:70] for x in k)


class Hook:
    def __init__(self, rep, W):
        self.rep, self.memo, self.seen, self.where = rep, {}, set(), ''

    def __call__(self, I, what, vs, node):
        if what == 'sel':
            return self.sel(I, vs[0], vs[1], node)
        ps = [v.p for v in vs if isinstance(v, N)]
        if len(ps) < 2:
            return
        l = [v.ln for v in vs if isinstance(v, N) and v.kind == 'a']
        if len(l) == 2 and None not in l and l[0] != l[1] and plain(l[0]) and plain(l[1]) and P.num(1) not in l and P.ZERO not in l:
            fi = I.callstack[-1] if I.callstack else None
            self.rep.count('obligations')
            self.rep.finding('length', fi.full, 'combine@%s' % src(node), 'combines an array of %s entries with one of %s' % (P.show(l[0]), P.show(l[1])),
                             fi.mod.rel(), node.lineno, self.where)
            return
        s = [space(p, self.memo) for p in ps]
        if s[0] == 'S' and s[1] == 'S':
            self.elem(I, ps, node)
        if not all(isinstance(x, tuple) for x in s):
            return
        fi = I.callstack[-1] if I.callstack else None
        k = (fi and fi.full, node.lineno, node.col_offset)
        if k not in self.seen:
            self.seen.add(k)
            self.rep.count('combinations')
        self.rep.count('obligations')
        c = clash(s[0], s[1])
        if c is None:
            if s[0] == s[1]:
                self.rep.count('proved')
            else:
                self.rep.skip('space:%s' % (fi.full if fi else '?'))
            return
        self.rep.finding(c, fi.full, 'combine@%s' % src(node), 'combines an array over %s with one over %s' % (show(s[0]), show(s[1])),
                         fi.mod.rel(), node.lineno, self.where)

    def elem(self, I, ps, node):
        """two single entries taken at the same position of arrays in different orders"""
        es = []
        for p in ps:
            for m in p.t:
                for a, e in m:
                    if isinstance(a, tuple) and a[1] == 'idx' and len(a) == 4 and isinstance(a[2], P.Poly):
                        if a[3].const() is not None:
                            continue
                        s = space(a[2], self.memo)
                        if isinstance(s, tuple):
                            es.append((a[3], s))
        for i in range(len(es)):
            for j in range(i):
                if es[i][0] == es[j][0]:
                    self.rep.count('obligations')
                    c = clash(es[i][1], es[j][1])
                    fi = I.callstack[-1]
                    if c == 'order' or c == 'length':
                        self.rep.finding(c, fi.full, 'entry@%s' % src(node), 'combines entry k of an array over %s with entry k of one over %s' % (
                            show(es[i][1]), show(es[j][1])), fi.mod.rel(), node.lineno, self.where)
                    else:
                        self.rep.count('proved')

    def sel(self, I, o, ix, node):
        if not isinstance(ix, N) or not isinstance(o, N):
            return
        b = space(o.p, self.memo)
        if not isinstance(b, tuple):
            return
        if ix.kind != 'a':
            q = position(ix.p)
            if q is None:
                return
            t = space(q, self.memo)
            kind = 'position'
        elif isperm(ix.p):
            t = space(ix.p.atom()[2], self.memo)
            kind = 'permutation'
        elif ismask(ix.p):
            t = space(ix.p, self.memo)
            kind = 'mask'
        else:
            a = ix.p.atom()
            if isinstance(a, tuple) and a[1] == 'sel' and isperm(a[2]):
                t = space(a[2].atom()[2], self.memo)
                kind = 'permutation'
            else:
                return
        if not isinstance(t, tuple):
            return
        fi = I.callstack[-1] if I.callstack else None
        k = (fi and fi.full, node.lineno, node.col_offset)
        if k not in self.seen:
            self.seen.add(k)
            self.rep.count('combinations')
        self.rep.count('obligations')
        c = clash(b, t)
        if c is None:
            if b == t:
                self.rep.count('proved')
            else:
                self.rep.skip('space:%s' % (fi.full if fi else '?'))
            return
        self.rep.finding(c, fi.full, 'select@%s' % src(node), '%s made for an array over %s applied to an array over %s' % (kind, show(t), show(b)),
                         fi.mod.rel(), node.lineno, self.where)


def src(n):
    import ast
    return ast.unparse(n)[:60]


STATES = [('pckms', 'centre'), ('kpckms', 'galaxy')]


def ordertask(W, t):
    fi, U, A, tier = t
    rep = Report('C11')
    h = Hook(rep, W)
    for lab, kw in sweep.variants(fi, one=True):
        if tier == 'quick' and lab not in ('defaults',) and (U, A) != STATES[0]:
            continue
        if tier == 'quick' and '=' in lab and 'none' not in lab:
            pass
        I = W.interp(skip=sweep.plots_private, fuel=60000 if tier == 'quick' else 600000)
        st = W.start()
        o, s = c04.start(W, I, st, U, A)
        h.where = '%s from (%s,%s), %s' % (fi.full, U, A, lab)
        I.on_arr = h
        try:
            I.call_func(fi, [o], dict(kw), s, None)
            rep.count('runs')
        except Fuel:
            rep.skip('fuel:%s' % fi.full)
    return rep.dump()


# ------------------------------------------------------------------ joins
def layout(p, new):
    """list of (block, ...) of an array value, None unknown; 'S' for a scalar or constant"""
    r = 'S'
    for m in p.t:
        for a, e in m:
            if models.is_scalar_atom(a) and a not in new:
                continue
            s = alayout(a, new)
            if s is None:
                return None
            if s == 'S':
                continue
            if r == 'S':
                r = s
            elif r != s:
                r = meet(r, s)
                if r is None:
                    return None
    return r


def meet(r, s):
    if len(r) != len(s):
        return None
    out = []
    for x, y in zip(r, s):
        if x == y or y == '?':
            out.append(x)
        elif x == '?':
            out.append(y)
        else:
            return None
    return tuple(out)


def alayout(a, new):
    if isinstance(a, str):
        if a in new:
            return (new[a],)
        return ('old',) if STAR.get(a) == 'stars' else None
    ps = [x for x in a[2:] if isinstance(x, P.Poly)]
    if a[1] == 'append':
        out = ()
        for x in ps:
            l = layout(x, new)
            if l is None:
                return None
            out += ('?',) if l == 'S' else l
        return out
    if a[1] == 'sel' and len(ps) == 2:
        l = layout(ps[0], new)
        return None if l is None else l if l == 'S' else (('sel',) + l + (idxlen(ps[1]),),)
    if a[1] == 'arange':
        return ('?',)
    if a[1] == 'skyacc' and any(x in STAR for x in P.atom(a).atoms(True) if isinstance(x, str)):
        return ('old',)
    if a[1] == 'upd' and ps:
        return layout(ps[0], new)
    if a[1] in models.ELEMENTWISE or a[1] in ('array', 'asarray', 'int', 'poly'):
        return layout(ps[0], new) if len(ps) == 1 else None
    return None


GROUPS = {
    'add_stars': [['x', 'y', 'z', 'vx', 'vy', 'vz', 'm', 'id', 'm0', 'npop'], ['ra', 'dec', 'dist', 'pmra', 'pmdec', 'vlos']],
    'add_binary_stars': [['x', 'y', 'z', 'vx', 'vy', 'vz', 'm', 'id', 'm0'], ['xb1', 'yb1', 'zb1', 'vxb1', 'vyb1', 'vzb1', 'xb2', 'yb2', 'zb2', 'vxb2', 'vyb2', 'vzb2', 'mb1', 'mb2']],
    'add_sse': [['kw', 'logl', 'logr', 'lum', 'ep', 'ospin']],
    'add_bse': [['id1', 'id2', 'kw1', 'kw2', 'kcm', 'ecc', 'pb', 'semi', 'm1', 'm2', 'logl1', 'logl2', 'logr1', 'logr2', 'eb']],
    'add_energies': [['kin', 'pot', 'etot']],
    'add_actions': [['JR', 'Jphi', 'Jz', 'OR', 'Ophi', 'Oz', 'TR', 'Tphi', 'Tz']],
}
for _a, _b in (('x', 'ra'),):
    pass


def lens(v):
    return models.lenof(v) if isinstance(v, N) else None


def jointask(W, t):
    name, U, A, pop, opt, single = t
    rep = Report('C11')
    m = W.SC.methods.get(name)
    if m is None:
        rep.skip('vanished:%s' % name)
        return rep.dump()
    I = W.interp(skip=sweep.plots_private, fuel=150000)
    st = W.start()
    if pop:
        o, s = c04.start(W, I, st, U, A)
    else:
        o, s = W.empty(st, U, A) if hasattr(W, 'empty') else (None, None)
    if o is None:
        return rep.dump()
    flds = s.objs[o.id].fields
    new = {}
    kw = {}
    for i, p in enumerate(m.params[1:]):
        if p in sweep.required(m) or p in opt:
            if p in ('units', 'origin', 'analyze', 'sortstars', 'set_com', 'return_com', 'nb'):
                continue
            a = 'p_' + p
            if single:
                kw[p] = N(P.f('oneof', a), 's')
            else:
                kw[p] = N(P.atom(a), 'a', newbuf(), None, P.atom('nnew'))
                new[a] = 'new'
    kw.update({k: v for k, v in opt.items() if v is not None}) if isinstance(opt, dict) else None
    for q in ('ntot', 'nbold'):
        s.facts[('t', P.digest(models.eq0(P.atom(q))))] = False
    if name == 'add_binary_stars':
        flds['nb'] = N(P.atom('nbold'), 's')
        for k in GROUPS[name][1] + ['npop1', 'npop2', 'id1', 'id2', 'm01', 'm02']:
            flds[k] = N(P.atom('old_' + k), 'a', newbuf(), None, P.atom('nbold'))
            new['old_' + k] = 'oldb'
    h = Hook(rep, W)
    I.on_arr = h
    h.where = where = '%s on a %s cluster (%s,%s), given %s' % (m.full, 'populated' if pop else 'new', U, A, ', '.join(opt) or 'only the required')
    try:
        r = I.call_func(m, [o], kw, s, None)
    except Fuel:
        rep.skip('fuel:%s' % m.full)
        return rep.dump()
    rep.count('runs')
    for v, s2 in r:
        f = s2.objs[o.id].fields
        for g in GROUPS[name]:
            if U != 'radec' and 'ra' in g:
                continue
            ref = f.get(g[0])
            if not isinstance(ref, N):
                continue
            rl, rlay = lens(ref), layout(ref.p, new)
            for k in g[1:]:
                a = f.get(k)
                if k not in f:
                    continue
                rep.count('joins')
                rep.count('obligations')
                if not isinstance(a, N):
                    if isinstance(a, C) and a.v is None:
                        rep.count('proved')
                        continue
                    rep.skip('join:%s.%s' % (name, k))
                    continue
                l, lay = lens(a), layout(a.p, new)
                if lay is None or rlay is None:
                    bad = ways(a, ref, new)
                    if bad:
                        rep.finding('length', m.full, '%s/%s' % (k, g[0]), 'afterwards %s can be laid out as %s while %s is laid out as %s' % (k, bad[0], g[0], bad[1]),
                                    m.mod.rel(), m.node.lineno, where)
                        continue
                if l is not None and rl is not None and l != rl:
                    j, _ = judge.same(l, rl)
                    if j == 'bad' and plain(l) and plain(rl):
                        rep.finding('length', m.full, '%s/%s' % (k, g[0]), 'afterwards %s has %s entries and %s has %s' % (k, P.show(l)[:90], g[0], P.show(rl)[:90]),
                                    m.mod.rel(), m.node.lineno, where)
                        continue
                if lay is not None and rlay is not None and lay != 'S' and rlay != 'S':
                    if meet(rlay, lay) is None:
                        rep.finding('layout', m.full, '%s/%s' % (k, g[0]), 'afterwards %s is laid out as %s and %s as %s' % (k, lay, g[0], rlay),
                                    m.mod.rel(), m.node.lineno, where)
                        continue
                    rep.count('proved')
                elif l is not None and l == rl:
                    rep.count('proved')
                else:
                    rep.skip('join:%s.%s' % (name, k))
    return rep.dump()


def idxlen(k):
    """positions taken: integer arrays of one length count as the same block"""
    ar = {a for m in k.t for a, e in m if isinstance(a, tuple) and a[1] == 'arange'}
    if len(ar) == 1 and all(models.is_scalar_atom(a) or a in ar for m in k.t for a, e in m):
        return repr(ar)
    return repr(k)


def ways(a, ref, new):
    """two definite layouts that differ on some combination of the joins"""
    for p, q in judge.leaves(a.p, ref.p):
        x, y = layout(p, new), layout(q, new)
        if isinstance(x, tuple) and isinstance(y, tuple) and '?' not in x + y and meet(x, y) is None:
            return x, y
    return None


def plain(l):
    return all(isinstance(a, str) or a[1] in ('lengroup',) for a in l.atoms(True))


def joins(W):
    out = []
    for name in GROUPS:
        m = W.SC.methods.get(name)
        if m is None:
            continue
        req = sweep.required(m)
        opts = [p for p in m.params[1:] if p not in req and p not in ('analyze', 'sortstars', 'set_com', 'return_com', 'nb', 'units', 'origin', 'arg')]
        sets = [{}] + [{p: None} for p in opts] + ([{p: None for p in opts}] if len(opts) > 1 else [])
        if 'arg' in m.params:
            sets += [{'arg': None}]
        if 'ep' in m.params:
            sets += [{'ep': None, 'ospin': None, 'arg': None}]
        if name == 'add_stars':
            sets += [{'nb': N(P.num(1), 's')}, {'nb': N(P.num(3), 's')}, {'nb': N(P.num(3), 's'), 'm': None, 'id': None, 'm0': None, 'npop': None}]
        if name == 'add_binary_stars':
            sets += [{'mb1': None, 'mb2': None}, {'mb1': None, 'mb2': None, 'id1': None, 'id2': None, 'm01': None, 'm02': None, 'npop1': None, 'npop2': None}]
        states = [('pckms', 'galaxy'), ('radec', 'sky')] if name == 'add_stars' else [('pckms', 'galaxy')]
        for U, A in states:
            for sset in sets:
                out.append((name, U, A, True, sset, False))
    return out


def run(rep, root, tier):
    rep.rule = RULE
    rep.assumptions = ['arrays given together in one call have the same length']
    W = World(root)
    W._template()
    L = c04.ops(W)
    rep.count('operations', len(L))
    tasks = [('o', (fi, U, A, tier)) for fi in L for U, A in STATES] + [('j', t) for t in joins(W)]
    for d in pmap(lambda t: ordertask(W, t[1]) if t[0] == 'o' else jointask(W, t[1]), tasks):
        rep.merge(d)
    return W.prog
