"""C03: origin changes shift each coordinate by its own offset."""
from .. import poly as P
from .. import judge, ref
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..report import Report
from .c01 import site_hook, compare_fields

RULE = ('abstract interpretation of every origin change (method, library function, to_origin) from every (units, origin) state and of every round '
        'trip: each star coordinate must have the normal form coordinate -/+ matching offset, mass, age and the offsets their old normal form, and '
        'the recorded origin must be the target; in sky units the projected offsets must equal the documented projection formulas')
FLOORS = {'pairs': 400, 'obligations': 6000}
ORIGINS = ['centre', 'cluster', 'galaxy']
SKYN = dict(x='ra', y='dec', z='dist', vx='pmra', vy='pmdec', vz='vlos')


def want_at(units, origin, start):
    """the fields a cluster that is physically (x..) at origin `start` has at `origin`"""
    fac = factor(units)
    w = {}
    for c in STAR6:
        f = fac['L'] if c in POS else fac['V']
        p = P.atom(c)
        # to galactocentric
        if start in ('centre', 'cluster'):
            p = P.add(p, P.atom(c + 'gc'))
        if start == 'centre':
            p = P.add(p, P.atom(c + 'c'))
        if origin in ('centre', 'cluster'):
            p = P.sub(p, P.atom(c + 'gc'))
        if origin == 'centre':
            p = P.sub(p, P.atom(c + 'c'))
        w[c] = P.mul(f, p)
        w[c + 'gc'] = P.mul(f, P.atom(c + 'gc'))
        w[c + 'c'] = P.mul(f, P.atom(c + 'c'))
    w['m'] = P.mul(fac['M'], P.atom('m'))
    w['tphys'] = P.mul(fac['T'], P.atom('tphys'))
    return w


def entries(W, V):
    out = []
    ops = W.prog.mod('cluster.operations')
    names = [('to_' + V, [])] + ([('to_center', [])] if V == 'centre' else []) + [('to_origin', [C(V)])]
    if V == 'centre':
        names.append(('to_origin', [C('center')]))
    for nm, args in names:
        m = W.SC.methods.get(nm)
        if m is not None:
            out.append(('method', m, args))
        r = W.prog.resolve(ops.name, nm)
        if r is not None and r[0] == 'func':
            out.append(('function', r[1], args))
    return out


def modes(fi, args):
    opts = [p for p in fi.params[1 + len(args):] if p in fi.defaults]
    ms = [('default', {})]
    if 'sortstars' in opts:
        ms.append(('sortstars unknown', {'sortstars': N(P.atom('opt_sortstars'))}))
    if 'centre_method' in opts:
        for v in ('orthographic', 'VandeVen'):
            ms.append(('centre_method=%s' % v, {'centre_method': C(v)}))
    return ms


def check_tags(rep, f, fi, units, origin, con, where):
    for k, w in (('units', units), ('origin', origin)):
        rep.count('obligations')
        if f.get(k) == C(w):
            rep.count('proved')
        elif isinstance(f.get(k), C):
            rep.finding('wrong-tag', fi.full, '%s:%s' % (con, k), 'recorded %s is %r, must be %r' % (k, f[k].v, w), fi.mod.rel(), fi.node.lineno, where)
        else:
            rep.skip('tag')


def cart(W, rep, U, A, B):
    ents = entries(W, B)
    if len(ents) < 3:
        raise AnalysisBroken('origin entry points for %s not found' % B)
    for lab, fi, args in ents:
        for mode, kw in modes(fi, args):
            I = W.interp()
            sites = {}
            I.on_setattr = site_hook(sites)
            st = W.start()
            o = W.cluster(st, U, A)
            r = I.call_func(fi, [o] + args, kw, st, None)
            where = '%s %s from (%s,%s), %s' % (lab, fi.full, U, A, mode)
            con = '%s->%s' % (A, B)
            rep.count('pairs')
            if not r:
                rep.finding('no-exit', fi.full, con, 'origin change has no normal exit', fi.mod.rel(), fi.node.lineno, where)
            for v, s in r:
                f = s.objs[o.id].fields
                check_tags(rep, f, fi, U, B, con, where)
                compare_fields(rep, f, want_at(U, B, A), fi.full, con, where, fi, sites)
                if mode == 'default':
                    rep.sample('%s: x -> %s' % (where, P.show(topoly(f['x']))))
                    # and back
                    for lab2, f2, a2 in entries(W, A)[:2]:
                        s2 = s.copy()
                        sites2 = dict(sites)
                        I2 = W.interp()
                        I2.on_setattr = site_hook(sites2)
                        r2 = I2.call_func(f2, [o] + a2, {}, s2, None)
                        rep.count('pairs')
                        for v2, s3 in r2:
                            g = s3.objs[o.id].fields
                            wh = where + ' and back by ' + f2.full
                            check_tags(rep, g, f2, U, A, '%s->%s->%s' % (A, B, A), wh)
                            compare_fields(rep, g, want_at(U, A, A), f2.full, '%s->%s->%s' % (A, B, A), wh, f2, sites2)


SKYF = {
    None: dict(x='(ra - OX)*np.cos(np.radians(OY))', y='dec - OY', z='dist - OZ', vx='pmra - OVX', vy='pmdec - OVY', vz='vlos - OVZ'),
    'VandeVen': dict(x='(180.0/np.pi)*np.cos(np.radians(dec))*np.sin(np.radians(ra)-np.radians(OX))',
                     y='(180.0/np.pi)*(np.sin(np.radians(dec))*np.cos(np.radians(OY))-np.cos(np.radians(dec))*np.sin(np.radians(OY))*np.cos(np.radians(ra)-np.radians(OX)))',
                     z='dist - OZ', vx='pmra - OVX', vy='pmdec - OVY', vz='vlos - OVZ'),
    'orthographic': dict(x='(180.0/np.pi)*np.cos(np.radians(dec))*np.sin(np.radians(ra)-np.radians(OX))',
                         y='(180.0/np.pi)*(np.sin(np.radians(dec))*np.cos(np.radians(OY))-np.cos(np.radians(dec))*np.sin(np.radians(OY))*np.cos(np.radians(ra)-np.radians(OX)))',
                         z='dist - OZ',
                         vx='pmra*np.cos(np.radians(ra)-np.radians(OX)) - pmdec*np.sin(np.radians(dec))*np.sin(np.radians(ra)-np.radians(OX)) - OVX',
                         vy='pmra*np.sin(np.radians(OY))*np.sin(np.radians(ra)-np.radians(OX)) + pmdec*(np.cos(np.radians(dec))*np.cos(np.radians(OY))'
                            '+np.sin(np.radians(dec))*np.sin(np.radians(OY))*np.cos(np.radians(ra)-np.radians(OX))) - OVY',
                         vz='vlos - OVZ'),
}


def sky_cluster(W, st, origin, **kw):
    ov = {}
    for c, n in SKYN.items():
        if origin == 'sky':
            ov[c] = N(P.atom(n), 'a', frozenset((('field', c),)), None, P.atom('ntot'))
        else:
            ov[c] = N(P.atom('old_' + c), 'a', frozenset((('field', c),)), None, P.atom('ntot'))
        ov[c + 'gc'] = N(P.atom(n + '_gc'), 's')
        ov[c + 'c'] = N(P.atom(n + '_c'), 's')
        ov[n] = N(P.atom(n), 'a', frozenset((('field', n),)), None, P.atom('ntot'))
        ov[n + '_gc'] = N(P.atom(n + '_gc'), 's')
        ov[n + '_c'] = N(P.atom(n + '_c'), 's')
    ov.update(kw)
    return W.cluster(st, 'radec', origin, base='raw', overrides=ov)


def want_sky(I, W, B, meth):
    env = {n: N(P.atom(n), 'a') for n in SKYN.values()}
    w = {}
    suf = {'cluster': '_gc', 'centre': '_c'}.get(B)
    if suf:
        for c, n in SKYN.items():
            env['O' + c.upper()] = N(P.atom(n + suf), 's')
    for c, n in SKYN.items():
        w[c] = P.atom(n) if B == 'sky' else ref.expr(I, W, SKYF[meth][c], env)
        w[c + 'gc'] = P.atom(n + '_gc')
        w[c + 'c'] = P.atom(n + '_c')
        for s in ('', '_gc', '_c'):
            w[n + s] = P.atom(n + s)
    w['m'] = P.atom('m')
    w['tphys'] = P.atom('tphys')
    return w


def sky(W, rep, A, B):
    for lab, fi, args in entries(W, B):
        ms = [(m, kw) for m, kw in modes(fi, args)]
        if B in ('cluster', 'centre') and A != B:
            ms += [('cluster.centre_method=%s' % v, v) for v in ('orthographic', 'VandeVen')]
        for mode, kw in ms:
            I = W.interp()
            sites = {}
            I.on_setattr = site_hook(sites)
            st = W.start()
            ov = {}
            meth = None
            if isinstance(kw, str):
                ov['centre_method'] = C(kw)
                meth = kw
                kw = {}
            elif 'centre_method' in kw:
                meth = kw['centre_method'].v
            o = sky_cluster(W, st, A, **ov)
            r = I.call_func(fi, [o] + args, kw, st, None)
            where = '%s %s from (radec,%s), %s' % (lab, fi.full, A, mode)
            con = 'sky %s->%s%s' % (A, B, ' ' + meth if meth else '')
            rep.count('pairs')
            if not r:
                rep.finding('no-exit', fi.full, con, 'origin change has no normal exit', fi.mod.rel(), fi.node.lineno, where)
            for v, s in r:
                f = s.objs[o.id].fields
                check_tags(rep, f, fi, 'radec', B, con, where)
                w = want_sky(I, W, B, meth)
                if A == B and A != 'sky':
                    for c in STAR6:
                        w[c] = P.atom('old_' + c)
                compare_fields(rep, f, w, fi.full, con, where, fi, sites)
                if A != B and mode == 'default':
                    for lab2, f2, a2 in entries(W, 'sky')[:2]:
                        s2 = s.copy()
                        I2 = W.interp()
                        sites2 = dict(sites)
                        I2.on_setattr = site_hook(sites2)
                        rep.count('pairs')
                        for v2, s3 in I2.call_func(f2, [o] + a2, {}, s2, None):
                            g = s3.objs[o.id].fields
                            wh = where + ' then ' + f2.full
                            check_tags(rep, g, f2, 'radec', 'sky', con + '->sky', wh)
                            compare_fields(rep, g, want_sky(I, W, 'sky', None), f2.full, con + '->sky', wh, f2, sites2)


def tosky(W, rep, U, A):
    """Cartesian -> sky -> Cartesian at every origin gives back the coordinates"""
    ents = [e for e in entries(W, 'sky')]
    for lab, fi, args in ents:
        I = W.interp()
        sites = {}
        I.on_setattr = site_hook(sites)
        st = W.start()
        o = W.cluster(st, U, A)
        r = I.call_func(fi, [o] + args, {}, st, None)
        where = '%s %s from (%s,%s)' % (lab, fi.full, U, A)
        rep.count('pairs')
        con = '%s->sky' % A
        if not r:
            rep.finding('no-exit', fi.full, con, 'origin change has no normal exit', fi.mod.rel(), fi.node.lineno, where)
        for v, s in r:
            f = s.objs[o.id].fields
            check_tags(rep, f, fi, 'radec', 'sky', con, where)
            compare_fields(rep, f, {'m': P.atom('m')}, fi.full, con, where, fi, sites)
            for B in ORIGINS:
                g = W.SC.methods['to_galaxy']
                s2 = s.copy()
                I2 = W.interp()
                I2.on_setattr = site_hook(sites)
                rep.count('pairs')
                for v2, s3 in I2.call_func(g, [o], {}, s2, None):
                    last = g
                    outs = [(v2, s3)]
                    if B != 'galaxy':
                        last = W.SC.methods['to_' + B]
                        outs = I2.call_func(last, [o], {}, s3, None)
                    for v3, s4 in outs:
                        h = s4.objs[o.id].fields
                        wh = where + ' then to_galaxy' + ('' if B == 'galaxy' else ' then to_' + B)
                        check_tags(rep, h, last, 'kpckms', B, con + '->' + B, wh)
                        compare_fields(rep, h, want_at('kpckms', B, A), last.full, con + '->' + B, wh, last, sites)


def task(W, t):
    rep = Report('C03')
    try:
        if t[0] == 'cart':
            cart(W, rep, *t[1:])
        elif t[0] == 'sky':
            sky(W, rep, *t[1:])
        elif t[0] == 'tosky':
            tosky(W, rep, *t[1:])
    except Fuel:
        rep.skip('fuel:%s' % (t,))
    return rep.dump()


def run(rep, root, tier):
    rep.rule = RULE
    rep.assumptions = ['galpy sky accessors of one orbit built from all six of them give the orbit back',
                       'the projection formulas are those of the initial tree (Gaia Collaboration 2018; van de Ven 2006)']
    W = World(root)
    W._template()
    tasks = [('cart', U, a, b) for U in UNITS for a in ORIGINS for b in ORIGINS]
    tasks += [('sky', a, b) for a in ('sky', 'cluster', 'centre') for b in ('sky', 'cluster', 'centre')]
    tasks += [('tosky', U, a) for U in UNITS if U != 'amuse' for a in ORIGINS]
    for d in pmap(lambda t: task(W, t), tasks):
        rep.merge(d)
    return W.prog
