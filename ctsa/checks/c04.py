"""C04: analyses hand the cluster back in the units and origin it arrived in."""
from .. import poly as P
from .. import judge, sweep
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..report import Report

RULE = ('abstract interpretation of every public operation that is not a conversion, from every (units, origin) state, with options at their '
        'defaults, unknown one at a time and all unknown: on every normal exit the recorded units and origin and the normal forms of the star '
        'coordinates, masses and offsets must be those of the entry state')
FLOORS = {'runs': 800, 'exits': 800}

OFFS = [c + s for c in STAR6 for s in ('gc', 'c')]
FIELDS = STAR6 + ['m', 'tphys'] + OFFS
ALLF = frozenset(FIELDS)
# what an operation is documented to change
MAY = {'find_centre': OFFS, 'find_centre_of_density': OFFS, 'find_centre_of_mass': OFFS, 'add_orbit': OFFS + ['tphys'], 'rcore': OFFS, 'core_relaxation_time': OFFS, 'virialize': ['vx', 'vy', 'vz'],
       'add_rotation': STAR6, 'interpolate_orbit': OFFS, 'orbit_interpolate': OFFS, 'interpolate_orbits': FIELDS, 'orbits_interpolate': FIELDS,
       'add_stars': FIELDS, 'add_binary_stars': FIELDS, 'add_nbody6': FIELDS}
# operations for which the method stores what the function computes
METHOD_ONLY = {'find_centre', 'find_centre_of_density', 'find_centre_of_mass', 'virialize', 'interpolate_orbit', 'orbit_interpolate',
               'interpolate_orbits', 'orbits_interpolate', 'add_orbit', 'add_stars', 'add_binary_stars', 'add_nbody6'}
ALIAS = {}
SKIP = sweep.CONVERSIONS | {'analyze', 'analyse', 'key_params', 'sortstars'}


def ops(W):
    L = sweep.public_functions(W) + sweep.public_methods(W)
    m = W.prog.mod('cluster.operations')
    L += [b[-1][1] for n, b in m.binds.items() if b[-1][0] == 'func' and not n.startswith('_') and b[-1][1].params[:1] == ['cluster']]
    return [fi for fi in L if fi.name not in SKIP]


def start(W, I, st, U, A):
    """(object, state) of an analysed cluster; a sky cluster is one that its own conversions took there"""
    if U != 'radec':
        o = W.cluster(st, U, A)
        return o, W.analyzed(I, st, o)
    o = W.cluster(st, 'kpckms', 'galaxy')
    s = W.analyzed(I, st, o)
    I.muted += 1
    try:
        for m in ['to_radec'] + {'sky': [], 'cluster': ['to_cluster'], 'centre': ['to_centre']}[A]:
            r = I.call_func(W.SC.methods[m], [o], {}, s, None)
            s = r[0][1]
    finally:
        I.muted -= 1
    return o, s


def one(W, rep, fi, U, A, lab, kw, fuel):
    I = W.interp(skip=sweep.plots_private, fuel=fuel)
    st = W.start()
    o, s = start(W, I, st, U, A)
    if s.objs[o.id].fields.get('units') != C(U) or s.objs[o.id].fields.get('origin') != C(A):
        rep.skip('entry state (%s,%s)' % (U, A))
        return
    init = {k: s.objs[o.id].fields.get(k) for k in FIELDS}
    try:
        r = I.call_func(fi, [o], dict(kw), s, None)
    except Fuel:
        rep.skip('fuel:%s %s' % (fi.full, lab))
        return
    rep.count('runs')
    may = set(MAY.get(fi.name, ())) if fi.cls is not None or fi.name not in METHOD_ONLY else set()
    where = '%s from (%s,%s), %s' % (fi.full, U, A, lab)
    for v, s2 in r:
        rep.count('exits')
        f = s2.objs[o.id].fields
        for k, w in (('units', U), ('origin', A)):
            rep.count('obligations')
            if f.get(k) == C(w):
                rep.count('proved')
            elif isinstance(f.get(k), C):
                rep.finding(k + '-not-restored', fi.full, '%s->%s' % (w, f[k].v), 'an exit leaves the cluster with %s %r instead of %r' % (k, f[k].v, w),
                            fi.mod.rel(), fi.node.lineno, where)
            else:
                rep.skip('tag:%s' % fi.full)
        if f.get('units') != C(U) or f.get('origin') != C(A):
            continue
        for k in FIELDS:
            if k in may:
                continue
            rep.count('obligations')
            a, b = f.get(k), init.get(k)
            if b is None or a is b or (a is not None and topoly(a) == topoly(b)):
                rep.count('proved')
                continue
            if a is None:
                rep.skip('gone:%s' % k)
                continue
            j, alt = judge.judge(topoly(a), topoly(b))
            if j == 'bad':
                rep.finding('field-changed', fi.full, k, '%s is %s on exit and was %s on entry' % (k, P.show(alt)[:200], P.show(topoly(b))[:200]),
                            fi.mod.rel(), fi.node.lineno, where)
            elif j == 'undecided':
                rep.skip('value:%s.%s' % (fi.full, k))
            else:
                rep.count('proved')


def states(tier):
    st = [(U, A) for U in UNITS for A in sweep.ORIGINS]
    st += [('radec', A) for A in ('sky', 'cluster', 'centre')]
    return st


def task(W, t):
    fi, U, A, tier = t
    rep = Report('C04')
    import time, os
    t0 = time.time()
    vs = sweep.variants(fi, one=True)
    for lab, kw in vs:
        if tier == 'quick' and '=' in lab:
            continue
        if tier == 'quick' and lab != 'defaults' and (U, A) not in QUICK_OPT:
            continue
        one(W, rep, fi, U, A, lab, kw, 150000 if tier == 'quick' else 600000)
    if os.environ.get('CTSA_TIME'):
        print('TIME %.1f %s %s %s' % (time.time() - t0, fi.full, U, A), flush=True)
    return rep.dump()


QUICK_OPT = {('kpckms', 'galaxy'), ('pckms', 'cluster'), ('nbody', 'centre'), ('amuse', 'galaxy'), ('radec', 'sky'), ('galpy', 'galaxy')}


def run(rep, root, tier):
    rep.rule = RULE
    rep.assumptions = ['arguments of unknown type are not AMUSE quantities', 'plot helpers of util.plots do not touch the cluster']
    W = World(root)
    W._template()
    L = ops(W)
    rep.count('operations', len(L))
    tasks = [(fi, U, A, tier) for fi in L for U, A in states(tier)]
    heavy = ('tail', 'orbital', 'prof')
    tasks.sort(key=lambda t: (0 if any(h in t[0].name for h in heavy) else 1, 0 if (t[1], t[2]) in QUICK_OPT else 1))
    for d in pmap(lambda t: task(W, t), tasks):
        rep.merge(d)
    return W.prog
