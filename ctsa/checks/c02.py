"""C02: converting one quantity applies the factor that converting the whole cluster applies."""
from .. import poly as P
from .. import judge
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..report import Report

RULE = ('abstract interpretation of each single-quantity conversion for every (source, target) pair of unit systems, on scalars and arrays: the '
        'normal form of the result must be quantity * factor(target)/factor(source) with the exponents of its dimension; '
        'sky conversions must give one physical result whatever the other system is; G must scale as L V^2 / M')
FLOORS = {'pairs': 500, 'obligations': 500}


def dims(name, projected):
    return {'_convert_length': (1, 0, 0, 0), '_convert_velocity': (0, 1, 0, 0), '_convert_square_velocity': (0, 2, 0, 0),
            '_convert_time': (0, 0, 0, 1), '_convert_mass': (0, 0, 1, 0),
            '_convert_density': ((-2 if projected else -3), 0, 1, 0)}[name]


NAMES = ['_convert_length', '_convert_velocity', '_convert_square_velocity', '_convert_time', '_convert_mass', '_convert_density']


def fac(units, d):
    f = factor(units)
    r = P.ONE
    for k, e in zip('LVMT', d):
        r = P.mul(r, P.power(f[k], e))
    return r


def task(W, t):
    rep = Report('C02')
    try:
        if t[0] == 'pair':
            pair(W, rep, *t[1:])
        elif t[0] == 'sky':
            sky(W, rep, *t[1:])
        elif t[0] == 'grav':
            grav(W, rep)
        elif t[0] == 'amuse':
            amuse(W, rep)
        elif t[0] == 'orbit':
            orbit(W, rep, t[1])
    except Fuel:
        rep.skip('fuel')
    return rep.dump()


def call(W, fi, U, cu, val, projected, hook=None):
    I = W.interp()
    st = W.start()
    o = W.cluster(st, cu, 'galaxy')
    kw = {}
    if 'projected' in fi.params:
        kw['projected'] = C(projected)
    r = I.call_func(fi, [val, C(U), o], kw, st, None)
    return I, r, o


def pair(W, rep, name, U):
    fi = W.prog.func('util.units', name)
    for V in UNITS:
        for projected in ((False, True) if name == '_convert_density' else (False,)):
            d = dims(name, projected)
            for kind in 's', 'a':
                q = N(P.mul(fac(U, d), P.atom('q')), kind, frozenset((('param', 'x'),)) if kind == 'a' else None, None, P.atom('ntot') if kind == 'a' else None)
                I, r, o = call(W, fi, U, V, q, projected)
                where = '%s(%s, %r, cluster in %s%s)' % (name, 'array' if kind == 'a' else 'scalar', U, V, ', projected' if projected else '')
                con = '%s->%s%s' % (U, V, ' projected' if projected else '')
                rep.count('pairs')
                if not r:
                    rep.finding('no-exit', fi.full, con, 'conversion always fails: %s' % [e['detail'] for e in I.events][:2], fi.mod.rel(), fi.node.lineno, where)
                want = P.mul(fac(V, d), P.atom('q'))
                for v, s in r:
                    rep.count('obligations')
                    j, alt = judge.judge(topoly(v), want)
                    if j == 'bad':
                        rep.finding('wrong-factor', fi.full, con, 'result %s, must be %s' % (P.show(alt), P.show(want)), fi.mod.rel(), fi.node.lineno, where)
                    elif j == 'undecided':
                        rep.skip('value:' + name)
                    else:
                        rep.count('proved')
                        rep.sample('%s: %s' % (where, P.show(topoly(v))))


SKYDEP = {'_convert_length': 1, '_convert_density': 1, '_convert_time': 0, '_convert_mass': 0}


def sky(W, rep, name, direction):
    """to and from sky units the result must be the same physical value in every system"""
    fi = W.prog.func('util.units', name)
    for projected in ((False, True) if name == '_convert_density' else (False,)):
        d = dims(name, projected)
        ref = None
        for V in ['kpckms'] + [u for u in UNITS if u != 'kpckms']:
            if direction == 'to':
                q = N(P.mul(fac(V, d), P.atom('q')), 's')
                I, r, o = call(W, fi, V, 'radec', q, projected)
            else:
                q = N(P.atom('q'), 's')
                I, r, o = call(W, fi, 'radec', V, q, projected)
            where = '%s %s sky units, other system %s%s' % (name, direction, V, ' projected' if projected else '')
            rep.count('pairs')
            con = 'sky-%s:%s%s' % (direction, V, ' projected' if projected else '')
            vals = {topoly(v) if direction == 'to' else P.div(topoly(v), fac(V, d)) for v, s in r}
            if len(vals) != 1:
                rep.skip('sky')
                continue
            v = P.reduce(vals.pop())
            if judge.opaque(v):
                rep.skip('sky')
                continue
            rep.count('obligations')
            if ref is None:
                ref = v
                rep.count('proved')
            elif v == ref:
                rep.count('proved')
            else:
                rep.finding('wrong-factor', fi.full, '%s off by %s' % (con, P.show(P.div(v, ref))), 'gives %s where with kpckms it gives %s' % (P.show(v), P.show(ref)), fi.mod.rel(),
                            fi.node.lineno, where)


def grav(W, rep):
    fi = W.prog.func('util.constants', '_get_grav')
    vals = {}
    for U in UNITS:
        I = W.interp()
        st = W.start()
        o = W.cluster(st, U, 'centre')
        r = I.call_func(fi, [o], {}, st, None)
        vals[U] = [topoly(v) for v, s in r]
    if not vals['pckms']:
        raise AnalysisBroken('_get_grav has no value for pckms')
    g0 = vals['pckms'][0]
    for U, vs in vals.items():
        for v in vs:
            rep.count('pairs')
            rep.count('obligations')
            f = factor(U)
            want = P.ONE if U in ('nbody', 'galpy', 'WDunits') else P.mul(g0, P.div(P.mul(f['L'], P.mul(f['V'], f['V'])), f['M']))
            j, alt = judge.judge(v, want)
            if j == 'bad':
                rep.finding('wrong-G', fi.full, U, 'G is %s, must be %s' % (P.show(alt), P.show(want)), fi.mod.rel(), fi.node.lineno, 'units ' + U)
            elif j == 'undecided':
                rep.skip('grav')
            else:
                rep.count('proved')
    c = g0.const()
    rep.count('obligations')
    if c is not None and abs(c - 4.30091e-3) > 5e-6:
        rep.finding('wrong-G', fi.full, 'value', 'G = %s pc (km/s)^2/Msun' % c, fi.mod.rel(), fi.node.lineno, '')
    else:
        rep.count('proved')


AM = dict(x='x', y='y', z='z', vx='vx', vy='vy', vz='vz', mass='m')


def amuse(W, rep):
    """reading AMUSE particles: component i of the result is the particle attribute in cluster units"""
    fi = W.prog.func('util.units', '_convert_amuse')
    f0 = factor('amuse')
    for U in ('pckms', 'kpckms', 'pcmyr', 'kpcgyr'):
        I = W.interp()
        st = W.start()
        o = W.cluster(st, U, 'galaxy')
        pf = {'key': N(P.atom('key'), 'a')}
        for k, nm in AM.items():
            d = 'L' if nm in POS else ('V' if nm in VEL else 'M')
            pf[k] = N(P.mul(f0[d], P.atom(nm)), 'a')
        part = st.new_obj(None, pf, True)
        r = I.call_func(fi, [part, o], {}, st, None)
        f = factor(U)
        for v, s in r:
            if not isinstance(v, T) or len(v.items) < 7:
                rep.skip('amuse')
                continue
            for i, nm in enumerate(['x', 'y', 'z', 'vx', 'vy', 'vz', 'm', 'key']):
                if i >= len(v.items):
                    break
                rep.count('pairs')
                rep.count('obligations')
                d = 'L' if nm in POS else ('V' if nm in VEL else 'M')
                want = P.atom('key') if nm == 'key' else P.mul(f[d], P.atom(nm))
                got = topoly(v.items[i])
                # velocities expressed through length/time units
                got = P.subst(got, lambda a: P.mul(P.scale(P.atom('u.kms'), 1 / KMS), P.atom('u.Myr')) if a == 'u.parsec' and nm in VEL else None)
                j, alt = judge.judge(got, want)
                if j == 'bad':
                    rep.finding('wrong-factor', fi.full, '%s:%s' % (U, nm), '%s is read as %s, must be %s' % (nm, P.show(alt), P.show(want)), fi.mod.rel(),
                                fi.node.lineno, 'units ' + U)
                elif j == 'undecided':
                    rep.skip('amuse')
                else:
                    rep.count('proved')


def orbit(W, rep, U):
    """an orbit given in another unit system is stored in the cluster's own units"""
    fi = W.prog.cls('cluster.cluster', 'StarCluster').methods['add_orbit']
    names = ['xgc', 'ygc', 'zgc', 'vxgc', 'vygc', 'vzgc']
    for V in [u for u in UNITS if u != 'amuse'] + ['radec']:
        got = {}
        for src in ('kpckms', U):
            f = factor(src)
            I = W.interp()
            st = W.start()
            o = W.cluster(st, V, 'galaxy')
            args = [N(P.mul(f['V' if n[0] == 'v' else 'L'], P.atom('q_' + n)), 's') for n in names]
            kw = {'ounits': C(src), 'tphys': N(P.mul(f['T'], P.atom('q_t')), 'n')}
            r = I.call_func(fi, [o] + args, kw, st, None)
            got[src] = [{n: s.objs[o.id].fields.get(n) for n in names + ['tphys']} for v, s in r]
        where = 'add_orbit(ounits=%r) on a cluster in %s' % (U, V)
        rep.count('pairs')
        if not got[U]:
            rep.finding('no-exit', fi.full, '%s->%s' % (U, V), 'always fails: %s' % [e['detail'] for e in I.events][:2], fi.mod.rel(), fi.node.lineno, where)
        for e in got[U]:
            for n in names + ['tphys']:
                rep.count('obligations')
                d = 'T' if n == 'tphys' else ('V' if n[0] == 'v' else 'L')
                if V == 'radec':
                    if not got['kpckms']:
                        rep.skip('orbit')
                        continue
                    want = topoly(got['kpckms'][0][n])
                    if n != 'tphys' and judge.opaque(want) or n == 'tphys':
                        rep.skip('orbit')
                        continue
                else:
                    want = P.mul(factor(V)[d], P.atom('q_t' if n == 'tphys' else 'q_' + n))
                j, alt = judge.judge(topoly(e[n]), want)
                if j == 'bad':
                    rep.finding('wrong-factor', fi.full, '%s->%s %s' % (U, V, n), '%s is stored as %s, must be %s' % (n, P.show(alt), P.show(want)), fi.mod.rel(),
                                fi.node.lineno, where)
                elif j == 'undecided':
                    rep.skip('orbit')
                else:
                    rep.count('proved')


def run(rep, root, tier):
    rep.rule = RULE
    rep.assumptions = ['galpy/AMUSE unit definitions', 'conversion constants of the initial tree to 1e-7']
    W = World(root)
    W._template()
    tasks = [('pair', n, U) for n in NAMES for U in UNITS]
    tasks += [('sky', n, d) for n in SKYDEP for d in ('to', 'from') if (n, d) != ('_convert_density', 'from')]
    tasks += [('grav',), ('amuse',)] + [('orbit', U) for U in UNITS if U != 'amuse']
    for d in pmap(lambda t: task(W, t), tasks):
        rep.merge(d)
    return W.prog
