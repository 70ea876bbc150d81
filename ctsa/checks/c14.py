"""C14: coordinate transforms are mutually inverse rotations."""
import math
from .. import poly as P
from .. import judge, pit, sweep, models
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..report import Report
from . import c04, c13

RULE = ('the transforms are evaluated on symbols by abstract interpretation of their source and composed: each must be the inverse of its partner '
        '(normal forms modulo sin^2+cos^2=1, on r>0, 0<theta<pi), and the matrix applied to the velocity must be the normalised derivatives of the '
        'position part; every call of a Cartesian/cylindrical transform in the package must be given the components of one position and one '
        'velocity in order; the cluster-level wrappers must return the transform of the cluster coordinates; adding rotation '
        'must leave positions and the velocity components along R and z alone')
FLOORS = {'compositions': 12, 'unit_vectors': 9, 'sites': 20, 'wrappers': 12}

models.POSITIVE.update(['rr', 'sTH'])
PAIRS = [('sphere', ['rr', 'PH', 'TH'], (1, 2)), ('cyl', ['rr', 'PH', 'ZZ'], (1,))]
POSN = ('rr', 'sTH')
RANGE = {'rr': (0.5, 2.0), 'TH': (0.1, 3.0), 'PH': (-3.0, 3.0)}
for _t in ('TH', 'PH'):
    RANGE['s' + _t], RANGE['c' + _t] = (math.sin, _t), (math.cos, _t)


def tab(a):
    """sin/cos of the coordinate angles as symbols"""
    if isinstance(a, tuple) and a[1] in ('sin', 'cos') and len(a) == 3:
        t = a[2].atom()
        if t in ('PH', 'TH'):
            return P.atom(a[1][0] + t)
    return None


def elim(p, which):
    """normal form with which (s or c) eliminated to first degree"""
    oth = {'s': 'c', 'c': 's'}[which]
    for _ in range(60):
        hit = None
        for m, c in p.t.items():
            for a, e in m:
                if a in (which + 'PH', which + 'TH') and e >= 2 and P.fr(e).denominator == 1:
                    hit = (m, c, a, e)
                    break
            if hit:
                break
        if not hit:
            return p
        m, c, a, e = hit
        rest = P.Poly({k: v for k, v in p.t.items() if k != m})
        base = P.Poly({tuple(x for x in m if x[0] != a): c})
        if e > 2:
            base = P.mul(base, P.power(P.atom(a), e - 2))
        p = P.add(rest, P.mul(base, P.sub(P.ONE, P.power(P.atom(oth + a[1:]), 2))))
    return p


def posmono(q):
    m = q.mono()
    return bool(m) and m[0] > 0 and all(models.is_pos_atom(a) or a in POSN for a, e in m[1])


def norm(q):
    for w in ('c', 's'):
        e = elim(q, w)
        if posmono(e):
            return e
    return elim(q, 'c')


def simp(p):
    def fn(a):
        t = tab(a)
        if t is not None:
            return t
        if isinstance(a, tuple):
            if a[1] == 'poly':
                q = norm(P.subst(a[2], fn))
                return q
            if a[1] == 'abs' and isinstance(a[2], P.Poly):
                q = norm(P.subst(a[2], fn))
                return q if posmono(q) else None
            if a[1] == 'arctan2' and len(a) == 4:
                y, x = norm(P.subst(a[2], fn)), norm(P.subst(a[3], fn))
                for t in ('PH', 'TH'):
                    if not y.t or not x.t:
                        continue
                    k = P.div(y, P.atom('s' + t)), P.div(x, P.atom('c' + t))
                    if k[0] == k[1] and posmono(k[0]):
                        return P.atom(t)
                    if t == 'TH':
                        y2 = elim(y, 'c')
                        k = P.div(y2, P.atom('s' + t)), P.div(x, P.atom('c' + t))
                        if k[0] == k[1] and posmono(k[0]):
                            return P.atom(t)
                return None
            if a[1] == 'arccos' and isinstance(a[2], P.Poly):
                q = P.subst(a[2], fn)
                if q == P.atom('cTH') or norm(q) == P.atom('cTH'):
                    return P.atom('TH')
        return None
    return elim(P.subst(p, fn), 'c')


def simpb(p):
    """reduce roots of X^2+Y^2(+Z^2) in the Cartesian composition"""
    for _ in range(6):
        def fn(a):
            if isinstance(a, tuple) and a[1] == 'poly':
                q = P.reduce(P.subst(a[2], fn))
                return q
            return None
        q = P.reduce(P.subst(p, fn))
        if q == p:
            break
        p = q
    return p


def func(W, n):
    return W.prog.func('util.coordinates', n)


def call(W, fi, ps, pos=()):
    I = W.interp(fuel=50000)
    st = W.start()
    args = [N(p, 'a', newbuf(), None, P.atom('nn')) for p in ps]
    return [(v, s) for v, s in I.call_func(fi, args, {}, st, None)]


def sixth(v):
    if isinstance(v, T) and len(v.items) == 6 and all(isinstance(x, N) for x in v.items):
        return [x.p for x in v.items]
    return None


def verdict(rep, got, want, rule, fi, construct, where, final):
    rep.count('obligations')
    g = final(got)
    if g == want or final(P.sub(g, want)) == P.ZERO:
        rep.count('proved')
        rep.sample('%s: %s = %s' % (where, construct, P.show(want)))
        return
    if judge.opaque(g):
        rep.skip('%s:%s' % (rule, construct))
        return
    if pit.agree(got, want, 4, RANGE) is True:
        rep.count('proved')
        rep.count('by_identity_test')
        return
    rep.finding(rule, fi.full, construct, '%s comes out as %s instead of %s' % (construct, P.show(g)[:200], P.show(want)[:120]), fi.mod.rel(), fi.node.lineno, where)


VEL = {'sphere': ['Vrr', 'VPH', 'VTH'], 'cyl': ['Vrr', 'VPH', 'VZZ']}
CART = ['X', 'Y', 'Z', 'VX', 'VY', 'VZ']


def transforms(W, rep):
    for kind, pos, ang in PAIRS:
        f, g = func(W, 'cart_to_' + kind), func(W, kind + '_to_cart')
        if f is None or g is None:
            rep.skip('vanished:%s' % kind)
            continue
        names = pos + VEL[kind]
        # curvilinear -> Cartesian -> curvilinear
        q = [P.atom(n) for n in names]
        for v, s in call(W, g, q):
            c = sixth(v)
            if c is None:
                rep.skip('shape:' + g.full)
                continue
            for v2, s2 in call(W, f, c):
                b = sixth(v2)
                if b is None:
                    rep.skip('shape:' + f.full)
                    continue
                for n, x in zip(names, b):
                    rep.count('compositions')
                    verdict(rep, x, P.atom(n), 'not-inverse', f, 'component %s' % n, '%s after %s' % (f.full, g.full), simp)
            unitvec(rep, kind, pos, [simp(x) for x in c], g)
        # Cartesian -> curvilinear -> Cartesian
        for v, s in call(W, f, [P.atom(n) for n in CART]):
            c = sixth(v)
            if c is None:
                continue
            for v2, s2 in call(W, g, c):
                b = sixth(v2)
                if b is None:
                    continue
                for n, x in zip(CART, b):
                    rep.count('compositions')
                    verdict(rep, x, P.atom(n), 'not-inverse', g, 'component %s' % n, '%s after %s' % (g.full, f.full), simpb)


def deriv(p, q):
    """derivative with respect to a coordinate, angles via their sine and cosine symbols"""
    r = P.ZERO
    for m, c in p.t.items():
        for a, e in m:
            d = None
            if a == q:
                d = P.ONE
            elif a == 's' + q:
                d = P.atom('c' + q)
            elif a == 'c' + q:
                d = P.neg(P.atom('s' + q))
            if d is not None:
                rest = P.Poly({tuple(x for x in m if x[0] != a): c * float(e)})
                if e != 1:
                    rest = P.mul(rest, P.power(P.atom(a), e - 1))
                r = P.add(r, P.mul(rest, d))
    return r


def unitvec(rep, kind, pos, c, fi):
    for n, vn in zip(pos, VEL[kind]):
        d = [elim(deriv(x, n), 'c') for x in c[:3]]
        n2 = P.ZERO
        for x in d:
            n2 = P.add(n2, P.mul(x, x))
        n2 = norm(n2)
        if not posmono(n2):
            rep.skip('unit vector %s' % n)
            continue
        length = P.power(n2, P.fr(0.5))
        for i, ax in enumerate('xyz'):
            rep.count('unit_vectors')
            want = elim(P.div(d[i], length), 'c')
            got = P.Poly({tuple(x for x in m if x[0] != vn): k for m, k in c[3 + i].t.items() if (vn, 1) in m})
            verdict(rep, got, want, 'unit-vector', fi, '%s component of the %s unit vector' % (ax, n), fi.full, lambda p: elim(p, 'c'))


def wrappers(W, rep):
    for name, tr in (('sphere_coords', 'cart_to_sphere'), ('cyl_coords', 'cart_to_cyl')):
        fi, g = func(W, name), func(W, tr)
        if fi is None or g is None:
            rep.skip('vanished:%s' % name)
            continue
        for U, A in (('pckms', 'galaxy'), ('kpckms', 'cluster'), ('nbody', 'centre')):
            I = W.interp(fuel=50000)
            st = W.start()
            o, s = c04.start(W, I, st, U, A)
            f = dict(s.objs[o.id].fields)
            want = [sixth(v) for v, _ in call(W, g, [topoly(f[k]) for k in STAR6])][0]
            for v, s2 in I.call_func(fi, [o], {}, s, None):
                got = sixth(v)
                if got is None or want is None:
                    rep.skip('shape:' + fi.full)
                    continue
                for i in range(6):
                    rep.count('wrappers')
                    verdict(rep, got[i], want[i], 'wrapper', fi, 'result[%d]' % i, '%s from (%s,%s)' % (fi.full, U, A), P.reduce)


# ------------------------------------------------------------------ call sites
TRIPLES = {'rect_to_cyl': [(0, 1, 2)], 'rect_to_cyl_vec': [(0, 1, 2), (3, 4, 5)], 'cart_to_cyl': [(0, 1, 2), (3, 4, 5)],
           'cart_to_sphere': [(0, 1, 2), (3, 4, 5)], 'cart_to_sky': [(0, 1, 2), (3, 4, 5)]}


def sitetask(W, t):
    fi, U, A, tier = t
    rep = Report('C14')
    names = c13.Names(W)
    names.add(c04.ALLF)
    names.add(CART[:3])
    f = c13.relabel(names, c13.CYCLE)
    seen = set()

    def site(I, nm, args, node, where):
        base = nm.split('.')[-1]
        tr = TRIPLES.get(base)
        if tr is None:
            return
        host = I.callstack[-1] if I.callstack else fi
        if host.mod.short == 'util.coordinates':
            return
        key = (host.full, node.lineno)
        if key not in seen:
            seen.add(key)
            rep.count('sites')
        for t3 in tr:
            if max(t3) >= len(args) or not all(isinstance(args[i], N) for i in t3):
                rep.skip('site:%s' % host.full)
                continue
            p = [args[i].p for i in t3]
            rep.count('obligations')
            if all(x == p[0] for x in p):
                rep.skip('site:%s' % host.full)
                continue
            ax = [c13.axes(x, names) for x in p]
            if not all(ax):
                rep.skip('site:%s' % host.full)
                continue
            js = [judge.same(P.subst(p[0], f), p[1])[0], judge.same(P.subst(p[1], f), p[2])[0]]
            if all(j == 'ok' for j in js):
                v = any(isinstance(a, str) and a.lstrip('opt_').startswith('v') for x in p for a in x.atoms(True)) if False else None
                rep.count('proved')
            elif 'bad' in js:
                rep.finding('site', host.full, '%s args %s' % (base, t3), 'is given %s, which are not the x, y and z components of one vector' % (
                    ', '.join(P.show(x)[:70] for x in p)), host.mod.rel(), node.lineno, where)
            else:
                rep.skip('site:%s' % host.full)
        if base == 'rect_to_cyl_vec' and len(args) >= 6:
            rep.count('obligations')
            vs = {a for x in args[:3] for a in x.p.atoms(True) if isinstance(a, str) and a in VELN}
            xs = {a for x in args[3:6] for a in x.p.atoms(False) if isinstance(a, str) and a in VELN}
            if xs:
                rep.finding('site', host.full, base, 'is given a velocity where the position belongs', host.mod.rel(), node.lineno, where)
            elif vs:
                rep.count('proved')
    for lab, kw in sweep.variants(fi, one=True):
        if tier == 'quick' and lab != 'defaults' and 'coord' not in lab and 'orbit' not in fi.mod.short:
            continue
        I = W.interp(skip=sweep.plots_private, fuel=60000 if tier == 'quick' else 400000)
        st = W.start()
        o, s = c04.start(W, I, st, U, A)
        where = '%s from (%s,%s), %s' % (fi.full, U, A, lab)
        I.on_ext = lambda I2, nm, args, kwargs, node: site(I2, nm, args, node, where)

        def hook(I2, g, bound, st2, node, where=where):
            if g.name in TRIPLES and g.mod.short == 'util.coordinates' and node is not None:
                site(I2, 'x.' + g.name, [bound.get(p) for p in g.params[:6]], node, where)
            return None
        I.on_call = hook
        try:
            r = I.call_func(fi, [o], dict(kw), s, None)
        except Fuel:
            rep.skip('fuel:%s' % fi.full)
            continue
        rep.count('runs')
        if fi.name == 'add_rotation':
            f0 = s.objs[o.id].fields
            for v, s2 in r:
                got = sixth(v) if fi.cls is None else [topoly(s2.objs[o.id].fields[k]) for k in STAR6]
                if got is None:
                    continue
                for i in (0, 1, 2, 5):
                    rep.count('wrappers')
                    verdict(rep, got[i], topoly(f0[STAR6[i]]), 'rotation', fi, STAR6[i], where, simpb)
    return rep.dump()


VELN = {'vx', 'vy', 'vz', 'vxgc', 'vygc', 'vzgc', 'vxc', 'vyc', 'vzc'}


def run(rep, root, tier):
    rep.rule = RULE
    rep.assumptions = ['galpy.util.coords behaves as documented']
    W = World(root)
    W._template()
    transforms(W, rep)
    wrappers(W, rep)
    L = [fi for fi in c04.ops(W) + [W.SC.methods[n] for n in sorted(sweep.CONVERSIONS) if n in W.SC.methods]]
    tasks = [(fi, U, A, tier) for fi in L for U, A in (('pckms', 'centre'), ('kpckms', 'galaxy'))]
    for d in pmap(lambda t: sitetask(W, t), tasks):
        rep.merge(d)
    return W.prog
