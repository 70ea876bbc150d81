"""C01: every unit conversion multiplies every dimensional quantity by the factor of its dimension."""
from .. import poly as P
from .. import judge
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..report import Report

RULE = ('abstract interpretation of every conversion entry point (library function, method, to_units) from every (units, origin) state; each '
        'dimensional field of the final abstract cluster must have the normal form factor(target)*quantity, the scale parameters and offsets '
        'must not change and the recorded unit system must be the target')
FLOORS = {'pairs': 400, 'obligations': 10000}
ORIGINS = ['centre', 'cluster', 'galaxy']
BU = {'nbody': {}, 'audays': dict(semi='rbar_au', pb='tbar_days', m1='zmbar', m2='zmbar'),
      'sudays': dict(semi='rbar_su', pb='tbar_days', m1='zmbar', m2='zmbar')}


def want_fields(units):
    fac = factor(units)
    w = {}
    for k in LEN_F:
        w[k] = P.mul(fac['L'], P.atom(k))
    for k in VEL_F:
        w[k] = P.mul(fac['V'], P.atom(k))
    w['m'] = P.mul(fac['M'], P.atom('m'))
    w['tphys'] = P.mul(fac['T'], P.atom('tphys'))
    return w


KEEP = ['rbar', 'vbar', 'zmbar', 'tbar', 'rbar_su', 'rbar_au', 'tbar_days', '_ro', '_vo', '_zo', 'id', 'ntot']
BATOMS = {'m1': 'm1', 'm2': 'm2', 'semi': 'semi', 'pb': 'pb'}


def compare_fields(rep, fields, want, fn, pair, where, fi, sites):
    for k, w in want.items():
        rep.count('obligations')
        v = fields.get(k)
        if v is None:
            rep.finding('lost-field', fn, '%s:%s' % (pair, k), 'field no longer set', fi.mod.rel(), fi.node.lineno, where)
            continue
        j, alt = judge.judge(topoly(v), w)
        if j == 'bad':
            f_, l_ = sites.get(k, (fi.mod.rel(), fi.node.lineno))
            rep.finding('wrong-factor', fn, '%s:%s' % (pair, k), '%s becomes %s, must be %s' % (k, P.show(alt), P.show(w)), f_, l_, where)
        elif j == 'undecided':
            rep.skip('value:%s' % k)
        else:
            rep.count('proved')


def entries(W, V):
    """(label, FuncInfo, extra positional args)"""
    out = []
    ops = W.prog.mod('cluster.operations')
    for nm, args in (('to_units', [C(V)]), ('to_' + V, [])):
        m = W.SC.methods.get(nm)
        if m is not None:
            out.append(('method', m, args))
        r = W.prog.resolve(ops.name, nm)
        if r is not None and r[0] == 'func':
            out.append(('function', r[1], args))
    return out


def site_hook(sites):
    def h(I, o, attr, v, st, n):
        fr = I.callstack[-1] if I.callstack else None
        if fr is not None:
            sites[attr] = (fr.mod.rel(), getattr(n, 'lineno', 0))
    return h


def task(W, t):
    kind = t[0]
    rep = Report('C01')
    try:
        if kind == 'pair':
            _, U, V, origin = t
            do_pair(W, rep, U, V, origin)
        elif kind == 'bin':
            do_bin(W, rep, t[1], t[2])
        elif kind == 'radec':
            do_radec(W, rep, t[1], t[2])
    except Fuel:
        rep.skip('fuel:%s' % (t,))
    return rep.dump()


def do_pair(W, rep, U, V, origin):
    ents = entries(W, V)
    if len(ents) < 3:
        raise AnalysisBroken('conversion entry points for %s not found' % V)
    for lab, fi, args in ents:
        # the analyze/sortstars option takes its default and an unknown value
        opts = [p for p in fi.params[1 + len(args):] if p in fi.defaults]
        for mode in (['default'] + (['unknown'] if opts else [])):
            I = W.interp()
            sites = {}
            I.on_setattr = site_hook(sites)
            st = W.start()
            o = W.cluster(st, U, origin)
            kw = {} if mode == 'default' else {p: N(P.atom('opt_' + p)) for p in opts}
            r = I.call_func(fi, [o] + args, kw, st, None)
            where = '%s %s from (%s,%s) %s' % (lab, fi.full, U, origin, mode)
            rep.count('pairs')
            if not r:
                rep.finding('no-exit', fi.full, '%s->%s' % (U, V), 'conversion has no normal exit', fi.mod.rel(), fi.node.lineno, where)
            for v, s in r:
                f = s.objs[o.id].fields
                rep.count('obligations')
                if f.get('units') == C(V):
                    rep.count('proved')
                elif isinstance(f.get('units'), C):
                    rep.finding('wrong-tag', fi.full, '%s->%s' % (U, V), 'recorded unit system is %r' % (f['units'].v,), fi.mod.rel(),
                                fi.node.lineno, where)
                else:
                    rep.skip('tag')
                w = want_fields(V)
                for k in KEEP:
                    w[k] = P.atom(k.lstrip('_'))
                compare_fields(rep, f, w, fi.full, '%s->%s' % (U, V), where, fi, sites)
                rep.count('obligations')
                if f.get('origin') == C(origin):
                    rep.count('proved')
                elif isinstance(f.get('origin'), C):
                    rep.finding('origin-changed', fi.full, '%s->%s' % (U, V), 'origin %s becomes %s' % (origin, f['origin'].v), fi.mod.rel(),
                                fi.node.lineno, where)
                if not (U == V) and mode == 'default' and lab == 'function':
                    rep.sample('%s: x -> %s' % (where, P.show(topoly(f['x']))))


def do_bin(W, rep, B0, U):
    """binary units"""
    ops = W.prog.mod('cluster.operations')
    for target in ('nbody', 'audays', 'sudays'):
        for lab in ('method', 'function'):
            nm = 'to_' + target
            fi = W.SC.methods.get(nm) if lab == 'method' else None
            if lab == 'function':
                r = W.prog.resolve(ops.name, nm)
                fi = r[1] if r and r[0] == 'func' else None
            if fi is None:
                continue
            I = W.interp()
            sites = {}
            I.on_setattr = site_hook(sites)
            st = W.start()
            ov = {}
            for k in ('m1', 'm2', 'semi', 'pb', 'ecc', 'kw1', 'kw2', 'id1', 'id2'):
                p = P.atom(k)
                if k in BU[B0]:
                    p = P.mul(p, P.atom(BU[B0][k]))
                ov[k] = N(p, 'a', frozenset((('field', k),)), None, P.atom('nbpos'))
            models.COUNTS.add('nbpos')
            models.SCALARS.add('nbpos')
            ov['nb'] = N(P.atom('nbpos'), 's')
            o = W.cluster(st, U, 'cluster', bunits=B0, overrides=ov)
            r = I.call_func(fi, [o], {}, st, None)
            where = '%s %s with binary units %s, units %s' % (lab, fi.full, B0, U)
            rep.count('pairs')
            for v, s in r:
                f = s.objs[o.id].fields
                rep.count('obligations')
                if f.get('bunits') == C(target):
                    rep.count('proved')
                elif isinstance(f.get('bunits'), C):
                    rep.finding('wrong-tag', fi.full, 'binary %s->%s' % (B0, target), 'recorded binary units are %r' % (f['bunits'].v,),
                                fi.mod.rel(), fi.node.lineno, where)
                w = {}
                for k in ('m1', 'm2', 'semi', 'pb', 'ecc', 'kw1', 'kw2', 'id1', 'id2'):
                    p = P.atom(k)
                    if k in BU[target]:
                        p = P.mul(p, P.atom(BU[target][k]))
                    w[k] = p
                compare_fields(rep, f, w, fi.full, 'binary %s->%s' % (B0, target), where, fi, sites)


SKY = dict(x='ra', y='dec', z='dist', vx='pmra', vy='pmdec', vz='vlos')


def last_method(p):
    """name of the accessor a value is the result of"""
    a = p.atom()
    if isinstance(a, tuple):
        n = a[1]
        return n
    return None


def do_radec(W, rep, U, origin):
    """to the sky and back: tags, mass, age, and which accessor each coordinate comes from"""
    for lab in ('method', 'function'):
        for orbit in (False,):
            if lab == 'method':
                fi = W.SC.methods.get('to_radec')
            else:
                fi = W.prog.func('cluster.operations', 'to_radec')
            if fi is None:
                raise AnalysisBroken('to_radec not found')
            I = W.interp()
            sites = {}
            I.on_setattr = site_hook(sites)
            st = W.start()
            ov = {}
            if orbit:
                ov = dict(orbit=N(P.f('call:galpy.orbit.Orbit', 'gc'), 'n'), orbits=N(P.f('call:galpy.orbit.Orbit', 'stars'), 'n'))
            o = W.cluster(st, U, origin, overrides=ov)
            r = I.call_func(fi, [o], {}, st, None)
            where = '%s %s from (%s,%s)' % (lab, fi.full, U, origin)
            rep.count('pairs')
            fac = factor('kpckms')
            for v, s in r:
                f = s.objs[o.id].fields
                sky_check(rep, f, fi, where, sites, fac, origin, U)
                # back again
                I2 = W.interp()
                I2.on_setattr = site_hook(sites)
                s2 = s
                for V in ('kpckms', 'pckms'):
                    pass
                for V in UNITS[:4] + ['nbody', 'galpy', 'WDunits']:
                    b = W.SC.methods.get('to_' + V)
                    if b is None:
                        continue
                    s3 = s.copy()
                    r2 = I2.call_func(b, [o], {}, s3, None)
                    rep.count('pairs')
                    for v2, s4 in r2:
                        g = s4.objs[o.id].fields
                        wh = 'to_radec then %s from (%s,%s)' % (b.full, U, origin)
                        rep.count('obligations')
                        if isinstance(g.get('units'), C) and g['units'] != C(V):
                            rep.finding('wrong-tag', b.full, 'radec->%s' % V, 'recorded unit system is %r' % (g['units'].v,), b.mod.rel(),
                                        b.node.lineno, wh)
                        else:
                            rep.count('proved')
                        fv = factor(V)
                        w = dict(m=P.mul(fv['M'], P.atom('m')), tphys=P.mul(fv['T'], P.atom('tphys')))
                        compare_fields(rep, g, w, b.full, 'radec->%s' % V, wh, b, sites)
                        cart_check(rep, g, fv, b, 'radec->%s' % V, wh, sites, origin)


def acc(p):
    """(method, object poly, cofactor) if p = k * accessor(object)"""
    m = p.mono()
    if m is None:
        return None
    c, mono = m
    hit = [(a, e) for a, e in mono if isinstance(a, tuple) and a[1] == 'skyacc']
    if len(hit) != 1 or hit[0][1] != 1:
        return None
    a = hit[0][0]
    rest = P.Poly({tuple(x for x in mono if x[0] != a): c})
    return a[3], a[2], rest


def sky_check(rep, f, fi, where, sites, fac, origin, U):
    pair = '%s->radec' % U
    rep.count('obligations', 2)
    if isinstance(f.get('units'), C) and f['units'] != C('radec'):
        rep.finding('wrong-tag', fi.full, pair, 'recorded unit system is %r' % (f['units'].v,), fi.mod.rel(), fi.node.lineno, where)
    else:
        rep.count('proved')
    want_o = 'sky' if origin in ('galaxy', 'sky') else origin
    if isinstance(f.get('origin'), C) and f['origin'] != C(want_o):
        rep.finding('wrong-tag', fi.full, pair + ':origin', 'recorded origin is %r, must be %r' % (f['origin'].v, want_o), fi.mod.rel(),
                    fi.node.lineno, where)
    else:
        rep.count('proved')
    w = dict(m=P.atom('m'), tphys=P.mul(fac['T'], P.atom('tphys')))
    compare_fields(rep, f, w, fi.full, pair, where, fi, sites)
    for grp in ('', '_gc', '_c'):
        for c, name in SKY.items():
            if grp == '':
                fld, ang = c, name
            else:
                fld, ang = c + grp[1:], name + grp
            rep.count('obligations')
            a = topoly(f[ang]) if ang in f else None
            m = acc(a) if a is not None else None
            if m is None:
                rep.skip('accessor:%s' % ang)
                continue
            f_, l_ = sites.get(ang, (fi.mod.rel(), fi.node.lineno))
            if m[0] != name or m[2] != P.ONE:
                rep.finding('wrong-accessor', fi.full, '%s:%s' % (pair, ang), '%s is taken from the accessor %s()' % (ang, m[0]), f_, l_, where)
            else:
                rep.count('proved')
            if want_o == 'sky' or grp:
                rep.count('obligations')
                v = topoly(f[fld]) if fld in f else None
                if v is not None and v == a:
                    rep.count('proved')
                elif v is not None and acc(v) is not None:
                    f_, l_ = sites.get(fld, (fi.mod.rel(), fi.node.lineno))
                    rep.finding('wrong-accessor', fi.full, '%s:%s' % (pair, fld), '%s is %s, must be %s' % (fld, P.show(v), P.show(a)), f_, l_, where)
                else:
                    rep.skip('sky:%s' % fld)


def cart_check(rep, g, fv, fi, pair, where, sites, origin):
    """back in a Cartesian system the cluster has the galactocentric coordinates it started with"""
    w = {}
    for c in STAR6:
        fac = fv['L'] if c in POS else fv['V']
        tot = P.atom(c)
        if origin in ('centre', 'cluster'):
            tot = P.add(tot, P.atom(c + 'gc'))
        if origin == 'centre':
            tot = P.add(tot, P.atom(c + 'c'))
        w[c] = P.mul(fac, tot)
        w[c + 'gc'] = P.mul(fac, P.atom(c + 'gc'))
        w[c + 'c'] = P.mul(fac, P.atom(c + 'c'))
    compare_fields(rep, g, w, fi.full, pair, where, fi, sites)


def run(rep, root, tier):
    rep.rule = RULE
    rep.assumptions = ['galpy conversion functions obey their documented dimensional definitions', 'ro, vo, rbar, vbar, zmbar, tbar are positive scalars',
                       'the conversion constants of the initial tree (1.0227121650537077, 222288.4543021174, 1000) are the intended ones to 1e-7']
    W = World(root)
    W._template()
    tasks = [('pair', U, V, o) for U in UNITS for V in UNITS for o in ORIGINS]
    tasks += [('bin', B, U) for B in BU for U in ('nbody', 'pckms', 'kpckms', 'pcmyr')]
    tasks += [('radec', U, o) for U in UNITS if U != 'amuse' for o in ORIGINS]
    for d in pmap(lambda t: task(W, t), tasks):
        rep.merge(d)
    return W.prog
