"""C15: results do not depend on the units or origin the cluster happens to be in."""
from .. import poly as P
from .. import judge, sweep
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..report import Report
from . import c04, c05, c08

RULE = ('two-run abstract interpretation: every analysis is interpreted for the same physical cluster held in (pckms, centre) and in every other '
        '(units, origin); every returned value and stored quantity must be the first one times one product of powers of the length, velocity, mass '
        'and time factors, the same powers for every unit system, and exactly the same for every origin')
FLOORS = {'operations': 50, 'obligations': 9000, 'proved': 4800}
SKIP = {'add_stars', 'add_binary_stars', 'add_orbit', 'add_nbody6', 'add_action', 'add_actions', 'add_energies', 'add_sse', 'add_bse'}
DERIVED = set()
# documented dimension (length, velocity, mass, time) of results given in the cluster's own units
L_, V_, M_, T_, Z_ = (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (0, 0, 0, 0)
SIX = {'result[%d]' % i: (L_ if i < 3 else V_) for i in range(6)}
DIM = {'rlagrange': {'result*': L_, 'rn*': L_}, 'virial_radius': {'result': L_, 'rv': L_}, 'virial_radius_inverse_distance': {'result': L_},
       'virial_radius_critical_density': {'result': L_}, 'relaxation_time': {'result': T_, 'trelax': T_}, 'half_mass_relaxation_time': {'result': T_, 'trh': T_},
       'core_relaxation_time': {'result': T_, 'trc': T_}, 'rtidal': {'result': L_, 'rt': L_}, 'rlimiting': {'result': L_, 'rl': L_},
       'rcore': {'result': L_, 'rc': L_}, 'find_centre': SIX, 'find_centre_of_mass': SIX, 'find_centre_of_density': SIX, 'closest_star': {'result': L_},
       'rho_prof': {'result[0]': L_, 'result[1]': (-3, 0, 1, 0), 'result[2]': Z_}, 'm_prof': {'result[0]': L_, 'result[1]': M_, 'result[2]': Z_},
       'sigv_prof': {'result[0]': L_, 'result[1]': V_}, 'v_prof': {'result[0]': L_, 'result[1]': V_}, 'v2_prof': {'result[0]': L_, 'result[1]': (0, 2, 0, 0)},
       'beta_prof': {'result[0]': L_, 'result[1]': Z_}, 'vcirc_prof': {'result[0]': L_, 'result[2]': L_},
       'mass_function': {'result[0]': M_, 'result[1]': Z_, 'result[2]': (0, 0, -1, 0), 'result[3]': Z_},
       'eta_function': {'result[0]': M_, 'result[1]*': V_, 'result[2]': Z_}, 'meq_function': {'result[0]': M_, 'result[1]*': V_, 'result[2]': M_},
       'alpha_prof': {'result[1]': Z_}, 'eta_prof': {'result[1]': Z_}, 'meq_prof': {'result[1]': M_},
       'energies': {'result[0]': None}, 'sphere_coords': {'result[0]': L_, 'result[3]': V_, 'result[4]': V_, 'result[5]': V_},
       'cyl_coords': {'result[0]': L_, 'result[2]': L_, 'result[3]': V_, 'result[4]': V_, 'result[5]': V_}}


def known_dim(fi, kw, k):
    for pat, d in DIM.get(fi.name, {}).items():
        if pat == k or (pat.endswith('*') and k.startswith(pat[:-1])):
            if d is not None and fi.name == 'rho_prof' and k == 'result[1]' and kw.get('projected') == C(True):
                d = (-2, 0, 1, 0)
            if kw.get('normalize', C(False)) != C(False) or kw.get('normalise', C(False)) != C(False):
                return None
            return d
    return None


# operations whose result is by definition given in the frame the cluster is in
FRAME = {'energies', 'find_centre', 'find_centre_of_mass', 'find_centre_of_density', 'find_centre_of_density_harfst', 'subset', 'add_rotation', 'cyl_coords', 'sphere_coords', 'sky_coords', 'initialize_orbits'}
BOOK = {'units', 'origin', 'units_init', 'origin_init', 'units0', 'origin0', 'rorder0', 'rorder_origin0', 'rorder_origin', 'indx'}
ATOMS = ('rbar', 'vbar', 'zmbar', 'tbar')


def entry(W, I, st, U, A):
    f = factor(U)
    ov = {}
    for nm in STAR6:
        p = P.atom(nm)
        if A in ('cluster', 'galaxy'):
            p = P.add(p, P.atom(nm + 'c'))
        if A == 'galaxy':
            p = P.add(p, P.atom(nm + 'gc'))
        ov[nm] = N(P.mul(f['V' if nm[0] == 'v' else 'L'], p), 'a', frozenset((('field', nm),)), None, P.atom('ntot'))
    ov['rorder'] = ov['rproorder'] = C(None)
    o = W.cluster(st, U, A, overrides=ov)
    I.muted += 1
    try:
        r = I.call_func(W.SC.methods['analyze'], [o], {'sortstars': C(True)}, st, None)
    finally:
        I.muted -= 1
    return o, r[0][1]


# dimension of options given as numbers; the value is the same physical one in every unit system
OPTDIM = dict(rmin='L', rmax='L', rad='L', rgc='L', zgc='L', softening='L', vmin='V', vmax='V', mmin='M', mmax='M', dmax='L', xstart='L', ystart='L', zstart='L',
              vxstart='V', vystart='V', vzstart='V')
PURE = {'npop', 'indx', 'mfrac', 'nlagrange', 'nrad', 'nmass', 'nmax', 'qvir', 'kwmin', 'kwmax', 'bintype', 'nsphere', 'ndens', 'rsphere', 'nstar', 'ncore', 'coulomb', 'alpha', 'overdensity',
        'H', 'Om', 'method', 'ntail', 'nt', 'no', 'nneigh', 'mcorr', 'bwidth', 'nskip', 'num'}


def scaled(kw, U):
    f = factor(U)
    out = {}
    for k, v in kw.items():
        if k in OPTDIM and isinstance(v, N):
            v = N(P.mul(f[OPTDIM[k]], v.p), v.kind)
        out[k] = v
    return out


def variants(W, fi):
    for lab, kw in c08.variants(W, fi, fi.name in DIM or 'projected' in fi.params):
        if any(l.endswith(' given') and l[:-6] not in OPTDIM and l[:-6] not in PURE for l in lab.split(' & ')):
            continue
        yield lab, kw


def flat(v, key, out):
    if isinstance(v, T):
        for i, x in enumerate(v.items):
            flat(x, '%s[%d]' % (key, i), out)
    elif isinstance(v, (N, C)) and not (isinstance(v, C) and (v.v is None or isinstance(v.v, (str, bool)))):
        out[key] = topoly(v)
    elif isinstance(v, C):
        out[key] = v.v
    return out


def observe(W, fi, U, A, kw, fuel):
    I = W.interp(skip=sweep.plots_private, fuel=fuel)
    I.loop_once = True
    st = W.start()
    o, s = entry(W, I, st, U, A)
    init = dict(s.objs[o.id].fields)
    r = I.call_func(fi, [o], scaled(kw, U), s, None)
    res = []
    for v, s2 in r:
        d = flat(v, 'result', {})
        for k, x in s2.objs[o.id].fields.items():
            if k in DERIVED or k in c04.ALLF or k in BOOK or k.startswith('analyze'):
                continue
            if x is not init.get(k):
                flat(x, k, d)
        res.append(d)
    return res


def nonnum(p):
    return any(isinstance(a, tuple) and a[1] in ('tuple', 'array') and a[2:] in ((), ((),)) for a in p.atoms(True))


def power(q):
    """exponents of the scale parameters in a ratio that is a single product, or None"""
    if len(q.t) != 1:
        return None
    (m, c), = q.t.items()
    d = dict(m)
    if any(a not in ATOMS for a in d):
        return None
    return tuple(-d.get(a, 0) for a in ATOMS), c


def fac(U, e):
    f = factor(U)
    r = P.ONE
    for k, n in zip('LVMT', e):
        if n:
            r = P.mul(r, P.power(f[k], n))
    return r


def task(W, t):
    fi, tier = t
    rep = Report('C15')
    fuel = 150000 if tier == 'quick' else 600000
    for lab, kw in variants(W, fi):
        try:
            base = observe(W, fi, 'pckms', 'centre', kw, fuel)
            own = {A: observe(W, fi, 'pckms', A, kw, fuel) for A in (['cluster', 'galaxy'] if fi.name in FRAME else ['cluster'])}
            nb = observe(W, fi, 'nbody', 'centre', kw, fuel)
        except Fuel:
            rep.skip('fuel:' + fi.full)
            continue
        if not base or len(base) != len(nb):
            rep.skip('exits:' + fi.full)
            continue
        dims = []
        for b, n in zip(base, nb):
            d = {}
            for k, v in b.items():
                w = n.get(k)
                if not isinstance(v, P.Poly) or not isinstance(w, P.Poly):
                    continue
                if not v.t:
                    continue
                if v == w:
                    d[k] = (0, 0, 0, 0)
                    continue
                if known_dim(fi, kw, k) is not None:
                    continue
                q = P.reduce(P.div(w, v))
                e = power(q)
                d[k] = e[0] if e is not None and abs(e[1] - 1) < 1e-6 else None
            dims.append(d)
        states = [(U, A) for U in UNITS if U != 'amuse' for A in sweep.ORIGINS if (U, A) != ('pckms', 'centre') and not (U == 'pckms' and A in own)]
        if lab != 'defaults':
            states = [x for x in states if x in c04.QUICK_OPT] if tier == 'quick' else states
        for U, A in states:
            try:
                r = observe(W, fi, U, A, kw, fuel)
            except Fuel:
                rep.skip('fuel:' + fi.full)
                continue
            rep.count('runs')
            where = '%s from (%s,%s), %s' % (fi.full, U, A, lab)
            if len(r) != len(base):
                rep.skip('exits:' + fi.full)
                continue
            ref = own[A] if A in own and len(own[A]) == len(r) else base
            for b, d, x in zip(ref, dims, r):
                for k, v in b.items():
                    rep.count('obligations')
                    w = x.get(k)
                    if not isinstance(v, P.Poly) or not isinstance(w, P.Poly):
                        if v == w:
                            rep.count('proved')
                        else:
                            rep.skip('kind:%s %s' % (fi.full, k))
                        continue
                    e = known_dim(fi, kw, k) or d.get(k)
                    if e is None:
                        j, alt = judge.same(w, v)
                        if j == 'ok':
                            rep.count('proved')
                        else:
                            rep.skip('dimension:%s %s' % (fi.full, k))
                        continue
                    if v.const() is not None or nonnum(v):
                        rep.skip('constant:%s %s' % (fi.full, k))
                        continue
                    want = P.mul(fac(U, e), v)
                    j, alt = judge.same(w, want)
                    if j == 'ok':
                        rep.count('proved')
                        rep.sample('%s: %s' % (where, k))
                    elif j == 'undecided' or P.div(alt[1], fac(U, e)).const() is not None:
                        rep.skip('value:%s %s' % (fi.full, k))
                    else:
                        rep.finding('units-dependent', fi.full, '%s %s' % (U, k) if A == 'centre' else '%s %s from %s' % (U, k, A), 'gives %s where the other description gives %s' % (
                            P.show(alt[0])[:200], P.show(alt[1])[:200]), fi.mod.rel(), fi.node.lineno, where)
    return rep.dump()


def run(rep, root, tier):
    rep.rule = RULE
    W = World(root)
    W._template()
    DERIVED.update(c05.derived_fields(W))
    L = [fi for fi in c04.ops(W) if fi.name not in SKIP]
    rep.count('operations', len(L))
    tasks = [(fi, tier) for fi in L]
    heavy = ('tail', 'orbital', 'prof')
    tasks.sort(key=lambda t: 0 if any(h in t[0].name for h in heavy) else 1)
    for d in pmap(lambda t: task(W, t), tasks):
        rep.merge(d)
    return W.prog
