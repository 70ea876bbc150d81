"""C22: documented physical quantities are computed by their defining formulas."""
import ast
from .. import poly as P
from .. import judge, ref, sweep
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..program import AnalysisBroken
from ..report import Report
from . import c05, c12

RULE = ('abstract interpretation of each analysis with its helpers inlined, binning and selection replaced by symbols; the normal form of what it returns '
        '(or stores in each bin, or hands to a fitting routine) must equal the normal form of the defining formula, written out as a reference expression '
        'over the stars; the terms accumulated by compiled pair kernels must be the defining pair term over the defining set of pairs')
FLOORS = {'formulas': 60, 'proved': 60, 'kernels': 4}

# names used in the formulas: the cluster's fields; M selected stars, B bin number of each star, i the bin, rl rc ru its edges and middle, G gravity,
# RC core radius, vR vP vT spherical velocity components, K the pair sum of the compiled kernel
V3, V2 = 'np.mean(v**2)', 'np.mean(vpro**2)'
TREL = '(%s)**1.5/(15.4*G**2*np.mean(m[%s])**2*(np.sum(%s)/(4.0*np.pi*%s**3/3.0))*np.log(%s*ntot))*MYR'
TRH = '0.138*np.sum(m)**0.5*%s**1.5/((np.sum(m)/ntot)*np.sqrt(G)*np.log(%s*ntot))*MYR'
TRC = '(0.39/np.log(%s*ntot))*np.sqrt(RC**3/(G*np.sum(m)))*(np.sum(m)/np.mean(m))*np.sqrt(RC*%s)/(RC+%s)*MYR'
FN, PR = 'analysis.functions', 'analysis.profiles'
S = 'M*(B==i)'
VOL3, VOL2 = '(4.0/3.0*np.pi*(ru[i]**3-rl[i]**3))', '(np.pi*(ru[i]**2-rl[i]**2))'
BETA = '1.0-(np.std(vT[%s])**2+np.std(vP[%s])**2)/(2.0*np.std(vR[%s])**2)' % (S, S, S)

# (module, function, options, how the value is found, formulas that define it)
TABLE = [
    (FN, 'find_centre_of_mass', {}, ('ret', k), ['np.sum(m*%s)/np.sum(m)' % c]) for k, c in enumerate(['x', 'y', 'z', 'vx', 'vy', 'vz'])
] + [
    (FN, 'relaxation_time', {}, ('ret',), [TREL % (V3, 'r<=rm', 'r<=rm', 'rm', '0.4')]),
    (FN, 'relaxation_time', {'projected': True}, ('ret',), [TREL % (V2, 'rpro<=rmpro', 'rpro<=rmpro', 'rmpro', '0.4')]),
    (FN, 'relaxation_time', {'rad': 'q', 'coulomb': 'w'}, ('ret',), [TREL % (V3, 'r<=q', 'r<=q', 'q', 'w')]),
    (FN, 'half_mass_relaxation_time', {}, ('ret',), [TRH % ('rm', '0.4')]),
    (FN, 'half_mass_relaxation_time', {'projected': True, 'coulomb': 'w'}, ('ret',), [TRH % ('rmpro', 'w')]),
    (FN, 'core_relaxation_time', {}, ('ret',), [TRC % ('0.4', 'rm', 'rm')]),
    (FN, 'core_relaxation_time', {'projected': True, 'coulomb': 'w'}, ('ret',), [TRC % ('w', 'rmpro', 'rmpro')]),
    (FN, 'energies', {}, ('ret', 0), ['0.5*v**2']),
    (FN, 'energies', {'specific': False}, ('ret', 0), ['0.5*m*v**2']),
    (FN, 'energies', {'projected': True}, ('ret', 0), ['0.5*vpro**2']),
    (FN, 'energies', {'specific': False, 'projected': True}, ('ret', 0), ['0.5*m*vpro**2']),
    (FN, 'energies', {'ids': 'M'}, ('ret', 0), ['0.5*v[M]**2']),
    (FN, 'energies', {'ids': 'M', 'specific': False}, ('ret', 0), ['0.5*m[M]*v[M]**2']),
    (FN, 'energies', {'ids': 'M', 'projected': True}, ('ret', 0), ['0.5*vpro[M]**2']),
    (FN, 'energies', {'softening': 'w'}, ('ret', 1), ['G*K/m']),
    (FN, 'energies', {'softening': 'w', 'specific': False}, ('ret', 1), ['G*K']),
    (FN, 'energies', {'softening': 'w', 'parallel': True}, ('ret', 1), ['G*K/m']),
    (FN, 'energies', {'softening': 'w', 'parallel': True, 'specific': False}, ('ret', 1), ['G*K']),
    (FN, 'energies', {'softening': 'w', 'ids': 'M'}, ('ret', 1), ['G*K/m[M]']),
    (FN, 'energies', {'softening': 'w', 'ids': 'M', 'specific': False}, ('ret', 1), ['G*K']),
    (FN, 'energies', {'softening': 'w', 'ids': 'M', 'parallel': True}, ('ret', 1), ['G*K/m[M]']),
    (FN, 'virial_radius_inverse_distance', {}, ('ret',), ['np.sum(m)**2/(2*K)']),
    (FN, 'virial_radius_inverse_distance', {'projected': True}, ('ret',), ['np.sum(m)**2/(2*K)']),
    (FN, 'rtidal', {'pot': 'w'}, ('ext', 'galpy.potential.rtide', 1), ['np.sqrt(xgc**2+ygc**2)/ro/1000.']),
    (FN, 'rtidal', {'pot': 'w'}, ('ext', 'galpy.potential.rtide', 2), ['zgc/ro/1000.']),
    (FN, 'rtidal', {'pot': 'w', 'from_centre': True}, ('ext', 'galpy.potential.rtide', 1), ['np.sqrt((xgc+xc)**2+(ygc+yc)**2)/ro/1000.']),
    (FN, 'rtidal', {'pot': 'w', 'from_centre': True}, ('ext', 'galpy.potential.rtide', 2), ['(zgc+zc)/ro/1000.']),
    (FN, 'mass_function', {}, ('ext', 'numpy.polyfit', 0), ['np.log10(rc)']),
    (FN, 'mass_function', {}, ('ret', 0), ['rc']),
    (FN, 'eta_function', {}, ('ext', 'numpy.polyfit', 0), ['np.log10(rc)']),
    (FN, 'eta_function', {}, ('each', 1), ['np.std(v[M*(B==i)])']),
    (FN, 'eta_function', {'projected': True}, ('each', 1), ['np.std(vpro[M*(B==i)])']),
    (FN, 'eta_function', {}, ('extlist', 'numpy.polyfit', 1), ['np.log10(np.std(v[M*(B==i)]))']),
    (FN, 'meq_function', {}, ('each', 1), ['np.std(v[M*(B==i)])']),
    (FN, 'mass_function', {}, ('bins', 1), ['np.sum(M*(B==i))']),
    (PR, 'rho_prof', {}, ('bins', 1), ['np.sum(m[%s])/%s' % (S, VOL3), 'np.sum(m[%s]/%s)' % (S, VOL3)]),
    (PR, 'rho_prof', {'projected': True}, ('bins', 1), ['np.sum(m[%s])/%s' % (S, VOL2), 'np.sum(m[%s]/%s)' % (S, VOL2)]),
    (PR, 'rho_prof', {}, ('bins', 2), ['np.sum(%s)' % S]),
    (PR, 'rho_prof', {}, ('ret', 0), ['rc']),
    (PR, 'rho_prof', {'normalize': True}, ('ret', 0), ['rc/rm']),
    (PR, 'm_prof', {}, ('bins', 1), ['np.sum(m[%s])' % S]),
    (PR, 'm_prof', {}, ('bins', 2), ['np.sum(%s)' % S]),
    (PR, 'm_prof', {'cumulative': True}, ('bins', 1), ['np.sum(m[M*(B<=i)])']),
    (PR, 'm_prof', {'cumulative': True}, ('bins', 2), ['np.sum(M*(B<=i))']),
    (PR, 'v_prof', {}, ('bins', 1), ['np.mean(v[%s])' % S]),
    (PR, 'v_prof', {'projected': True}, ('bins', 1), ['np.mean(vpro[%s])' % S]),
    (PR, 'v2_prof', {}, ('bins', 1), ['np.mean(v[%s]**2)' % S]),
    (PR, 'v2_prof', {'projected': True}, ('bins', 1), ['np.mean(vpro[%s]**2)' % S]),
    (PR, 'sigv_prof', {}, ('bins', 1), ['np.std(v[%s])' % S]),
    (PR, 'sigv_prof', {'projected': True}, ('bins', 1), ['np.std(vpro[%s])' % S]),
    (PR, 'beta_prof', {}, ('bins', 1), [BETA]),
    (PR, 'vcirc_prof', {}, ('ret', 3), ['np.amax(np.sqrt(G*np.cumsum(m[o][M[o]])/r[o][M[o]]))']),
    (PR, 'vcirc_prof', {}, ('ret', 2), ['r[o][M[o]][np.argmax(np.sqrt(G*np.cumsum(m[o][M[o]])/r[o][M[o]]))]']),
    (PR, 'vcirc_prof', {'projected': True}, ('ret', 3), ['np.amax(np.sqrt(G*np.cumsum(m[op][M[op]])/rpro[op][M[op]]))']),
] + [
    (PR, f, {'coord': c}, ('bins', 1), [g % '%s[%s]' % (w, S)])
    for f, g, cs in (('sigv_prof', 'np.std(%s)', 'vx vy z x r vr phi vp vphi theta vt vtheta v'), ('v_prof', 'np.mean(%s)', 'x vx y vy z vz r vr phi vphi theta vtheta v'),
                     ('v2_prof', 'np.mean(%s**2)', 'vr vphi vtheta r phi theta'))
    for c, w in ((c, {'r': 'vR', 'p': 'vP', 't': 'vT', 'x': 'vx', 'y': 'vy', 'z': 'vz', '': 'v'}[c[1:2] if c[0] == 'v' else c[0]]) for c in cs.split())
] + [
    (PR, f, {'normalize': True}, ('ret', 0), ['rc/rm', 'np.log(rc/rm)']) for f in ('m_prof', 'v_prof', 'v2_prof', 'sigv_prof', 'beta_prof')
]
DD = 'np.sqrt((x[i]-x)**2+(y[i]-y)**2+(z[i]-z)**2)'
DP = 'np.sqrt((x[i]-x)**2+(y[i]-y)**2)'
PE = '-G*%s/np.sqrt(%s[%s!=0]**2+w**2)'
RLAG = [['%s[%s[np.cumsum(m[%s])>=np.sum(m)*i/q][0]]' % (r, o, o), 'np.max(%s)' % r] for r, o in (('r', 'o'), ('rpro', 'op'))]
TABLE += [
    (FN, 'energies', {'full': False, 'softening': 'w'}, ('append', 1), ['np.sum(%s)' % (PE % ('m[%s!=0]' % DD, DD, DD))]),
    (FN, 'energies', {'full': False, 'softening': 'w', 'specific': False}, ('append', 1), ['np.sum(%s)' % (PE % ('m[i]*m[%s!=0]' % DD, DD, DD))]),
    (FN, 'energies', {'full': False, 'softening': 'w', 'projected': True}, ('append', 1), ['np.sum(%s)' % (PE % ('m[%s!=0]' % DP, DP, DP))]),
    (FN, 'rlagrange', {'mfrac': 'q'}, ('ret',), ['r[o][np.cumsum(m[o])/np.sum(m)>=q][0]']),
    (FN, 'rlagrange', {'mfrac': 'q', 'projected': True}, ('ret',), ['rpro[op][np.cumsum(m[op])/np.sum(m)>=q][0]']),
    (FN, 'mass_function', {'mcorr': 'W'}, ('bins', 2), ['np.sum(1.0/W[M*(B==i)])/(ru-rl)']),
    (FN, 'mass_function', {}, ('fit', 3), [(0, 0)]), (FN, 'mass_function', {}, ('fit', 5), [(0, 1)]),
    (FN, 'mass_function', {}, ('fit', 4), [(1, 0)]), (FN, 'mass_function', {}, ('fit', 6), [(1, 1)]),
    (FN, 'eta_function', {}, ('fit', 2), [(0, 0)]), (FN, 'eta_function', {}, ('fit', 4), [(0, 1)]),
    (FN, 'eta_function', {}, ('fit', 3), [(1, 0)]), (FN, 'eta_function', {}, ('fit', 5), [(1, 1)]),
    (FN, 'meq_function', {}, ('fit', 2), [(0, 0)]), (FN, 'meq_function', {}, ('fit', 4), [(0, 1)]),
    (FN, 'meq_function', {}, ('fit', 3), [(1, 0)]), (FN, 'meq_function', {}, ('fit', 5), [(1, 1)]),
    (FN, 'meq_function', {}, ('ext', 'scipy.optimize.curve_fit', 1), ['rc', '10.0**np.log10(rc)']),
    (FN, 'rtidal', {'pot': 'w', 'rgc': 'q'}, ('ext', 'galpy.potential.rtide', 1), ['q/ro']),
    (FN, 'rtidal', {'pot': 'w', 'zgc': 'q'}, ('ext', 'galpy.potential.rtide', 2), ['q/ro']),
    (FN, 'rtidal', {'pot': 'w'}, ('ext', 'galpy.potential.rtide', 'M'), ['F*np.sum(m)']),
    (FN, 'rtidal', {'pot': 'w', 'indx': 'M'}, ('ext', 'galpy.potential.rtide', 'M'), ['F*np.sum(m[M])']),
    (FN, 'rlimiting', {'pot': 'w', 'rgc': 'q'}, ('ext', 'galpy.potential.evaluateDensities', 1), ['q/ro']),
    (PR, 'alpha_prof', {}, ('bins', 1), ['ALPHA']),
    (PR, 'alpha_prof', {}, ('ext', 'numpy.polyfit', 0), ['np.log(rc/rm)']),
    (PR, 'alpha_prof', {'projected': True}, ('ext', 'numpy.polyfit', 0), ['np.log(rc/rmpro)']),
    (PR, 'eta_prof', {}, ('bins', 1), ['ETA']),
    (PR, 'eta_prof', {}, ('ext', 'numpy.polyfit', 0), ['np.log(rc/rm)']),
    (PR, 'eta_prof', {'projected': True}, ('ext', 'numpy.polyfit', 0), ['np.log(rc/rmpro)']),
    (PR, 'meq_prof', {}, ('bins', 1), ['ETA']),
] + [(PR, f, {}, ('fit', 2), [(0, 0)]) for f in ('alpha_prof', 'eta_prof', 'meq_prof')
] + [(PR, f, {}, ('fit', 4), [(0, 1)]) for f in ('alpha_prof', 'eta_prof', 'meq_prof')
] + [(FN, 'rlagrange', {'nlagrange': 'q'}, ('appended', 'range'), RLAG[0]), (FN, 'rlagrange', {'nlagrange': 'q', 'projected': True}, ('appended', 'range'), RLAG[1])]
RC_, CL = 'util.recipes', 'cluster.cluster'
DX = 'H/(ru-rl)'
TABLE += [
    (RC_, 'interpolate', {'x': 'q'}, ('ret',), ['y1+(q-x1)*(y2-y1)/(x2-x1)'], ['P1', 'P2']),
    (RC_, 'interpolate', {'y': 'q'}, ('ret',), ['x1+(q-y1)*(x2-x1)/(y2-y1)'], ['P1', 'P2']),
    (RC_, 'tapered_func', {}, ('ret',), ['q*X**w*(1.0-np.exp(-(X/x1)**x2))'], ['X', 'q', 'w', 'x1', 'x2']),
    (RC_, 'dx_function', {}, ('ext', 'numpy.polyfit', 0), ['np.log10(rc[%s>0])' % DX, 'np.log10(rc)[%s>0]' % DX], ['X']),
    (RC_, 'dx_function', {}, ('ext', 'numpy.polyfit', 1), ['np.log10((%s)[%s>0])' % (DX, DX), 'np.log10(%s)[%s>0]' % (DX, DX)], ['X']),
    (RC_, 'dx_function', {}, ('ret', 0), ['rc[%s>0]' % DX], ['X']), (RC_, 'dx_function', {}, ('ret', 1), ['H[%s>0]' % DX], ['X']),
    (RC_, 'dx_function', {}, ('ret', 2), ['(%s)[%s>0]' % (DX, DX)], ['X']),
    (RC_, 'dx_function', {}, ('fit', 3), [(0, 0)], ['X']), (RC_, 'dx_function', {}, ('fit', 4), [(1, 0)], ['X']),
    (RC_, 'dx_function', {}, ('fit', 5), [(0, 1)], ['X']), (RC_, 'dx_function', {}, ('fit', 6), [(1, 1)], ['X']),
    (RC_, 'x_hist', {}, ('ret', 0), ['rc'], ['X']), (RC_, 'x_hist', {}, ('ret', 1), ['H'], ['X']),
    (CL, 'add_energies', {}, ('field', 'etot'), ['X+Y'], ['X', 'Y']), (CL, 'add_energies', {}, ('field', 'kin'), ['X'], ['X', 'Y']),
    (CL, 'add_energies', {}, ('field', 'pot'), ['Y'], ['X', 'Y']),
    (CL, 'add_energies', {}, ('field', 'ektot'), ['np.sum(np.nan_to_num(X))'], ['X', 'Y']),
    (CL, 'add_energies', {}, ('field', 'ptot'), ['np.sum(np.nan_to_num(Y))/2.0'], ['X', 'Y']),
    (CL, 'add_energies', {}, ('field', 'qvir'), ['np.sum(np.nan_to_num(X))/(np.sum(np.nan_to_num(Y))/2.0)'], ['X', 'Y']),
    (CL, 'add_energies', {'etot': 'W'}, ('field', 'etot'), ['W'], ['X', 'Y']),
]
MYRS = '3.086e13/(3600.0*24.0*365.0*1000000.0)'

# pair kernels used by a function, the term of star i (first array) and j, and the pairs it is summed over
PAIR = [
    (FN, 'energies', '-a[i][3]*b[j][3]/np.sqrt((a[i][0]-b[j][0])**2+(a[i][1]-b[j][1])**2+(a[i][2]-b[j][2])**2+s**2)', 'each'),
    (FN, 'virial_radius_inverse_distance', 'a[i][3]*b[j][3]/np.sqrt((a[i][0]-b[j][0])**2+(a[i][1]-b[j][1])**2+(a[i][2]-b[j][2])**2)', 'once'),
]


def arr(name, ln='ntot'):
    return N(P.atom(name), 'a', newbuf(), None, P.atom(ln))


def table_task(W, t):
    mod, name, opts, how, srcs = t[:5]
    args = t[5] if len(t) > 5 else None
    rep = Report('C22')
    r0 = W.prog.resolve(W.prog.mod(mod).name, name)
    fi = W.SC.methods.get(name) if mod == CL else r0[1] if r0 and r0[0] == 'func' else None
    if fi is None:
        raise AnalysisBroken('%s.%s not found' % (mod, name))
    where = '%s(%s)' % (fi.full, ', '.join('%s=%s' % kv for kv in sorted(opts.items())))
    rep.count('formulas')
    sub = W.SC.methods['subset']
    sym = {'M': arr('MASK'), 'B': arr('BIN'), 'rl': arr('rlo', 'nbin'), 'rc': arr('rmid', 'nbin'), 'ru': arr('rup', 'nbin'), 'RC': N(P.atom('RCORE'), 's'),
           'W': arr('opt_w_array'), 'ALPHA': N(P.atom('ALPHA'), 's'), 'ETA': N(P.atom('ETA'), 's'),
           'vR': arr('v_R'), 'vP': arr('v_P'), 'vT': arr('v_T'), 'q': N(P.atom('opt_q'), 's'), 'w': N(P.atom('opt_w'), 's')}
    sym.update(X=arr('X'), Y=arr('Y'), H=arr('rhist', 'nbin'), **{k: N(P.atom('opt_' + k), 's') for k in ('x1', 'x2', 'y1', 'y2')})
    sym['P1'], sym['P2'] = T([sym['x1'], sym['y1']]), T([sym['x2'], sym['y2']])
    exts, seen, apps = [], set(), []

    def fun(m, n):
        a = W.prog.resolve(W.prog.mod(m).name, n)
        return a[1] if a and a[0] == 'func' else None
    stubs = {id(fun('util.recipes', 'nbinmaker')): lambda: T([sym['rl'], sym['rc'], sym['ru'], arr('rhist', 'nbin')]),
             id(fun('util.recipes', 'binmaker')): lambda: T([sym['rl'], sym['rc'], sym['ru'], arr('rhist', 'nbin')]),
             id(fun('util.recipes', 'bin_index')): lambda: sym['B'], id(sub): lambda: sym['M'],
             id(fun('util.coordinates', 'sphere_coords')): lambda: T([arr('s_R'), arr('s_P'), arr('s_T'), sym['vR'], sym['vP'], sym['vT']]),
             id(W.SC.methods.get('rcore')): lambda: sym['RC'], id(fun(FN, 'rcore')): lambda: sym['RC']}
    scal = lambda n: [N(P.atom(n + str(k)), 's') for k in range(9)]
    stubs[id(fun(FN, 'mass_function'))] = lambda: T(scal('mf')[:3] + [sym['ALPHA']] + scal('mf')[4:7])
    stubs[id(fun(FN, 'eta_function'))] = stubs[id(fun(FN, 'meq_function'))] = lambda: T(scal('ef')[:2] + [sym['ETA']] + scal('ef')[3:6])
    if name in ('meq_function', 'eta_function', 'mass_function'):
        for q in ('meq_function', 'eta_function', 'mass_function'):
            stubs.pop(id(fun(FN, q)), None)
    stubs.pop(id(None), None)

    def hook(I, f, b, st, node):
        g = stubs.get(id(f))
        if g is not None and f is not fi:
            seen.add(f.name)
            return [(g(), st)]
        return None

    def onext(I, nm, a, kw, node):
        exts.append((nm, list(a), dict(kw)))
    I = W.interp(skip=sweep.plots_private, fuel=400000)
    o, s = c05.entry(W, I, 'pckms', 'centre', True)
    I.on_call = hook
    I.on_ext = onext
    if how[0] == 'appended':
        I.on_append = lambda I, v: apps.append(v)
    c = s.objs[o.id].fields
    kw = {k: sym[v] if isinstance(v, str) and v in sym else C(v) for k, v in opts.items()}
    env = {k: c[k] for k in ('m', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'r', 'rpro', 'v', 'vpro', 'rm', 'rmpro', 'xgc', 'ygc', 'zgc', 'xc', 'yc', 'zc', 'ntot')}
    env['ro'], env['o'], env['op'] = c['_ro'], c['rorder'], c['rproorder']
    gv = I.call_func(fun('util.constants', '_get_grav') or fun(FN, '_get_grav'), [o], {}, s.copy(), None)
    env['G'] = gv[0][0]

    env.update(sym)
    env['MYR'] = N(ref.expr(I, W, MYRS, {}), 's')
    if name == 'rtidal':
        g2 = I.call_func(W.SC.methods['to_galpy'], [o], {}, s.copy(), None)[0][1].objs[o.id].fields
        env['F'] = N(P.mul(topoly(g2['m']), P.power(topoly(c['m']), -1)), 's')
    exts.clear()
    try:
        r = I.call_func(fi, [o] if args is None else ([o] if mod == CL else []) + [sym[a] for a in args], kw, s, None)
    except Fuel:
        rep.skip('fuel:' + where)
        return rep.dump()
    got = []
    for v, s2 in r:
        if how[0] == 'field':
            f = s2.objs[o.id].fields.get(how[1])
            got += [(topoly(f), None)] if f is not None else []
        elif how[0] != 'appended':
            got += values(v, how, exts)
        if how[0] in ('ext', 'extlist'):
            break
    for v in apps:
        if isinstance(v, N):
            it = {b for b in v.p.atoms(True) if isinstance(b, tuple) and b[1] in ('ix', 'it', 'iter', 'loop')}
            got.append((v.p, P.Poly({((list(it)[0], 1),): 1}) if len(it) == 1 else None))
            if it and (len(it) > 1 or str(list(it)[0][-1]) != 'range(1, opt_q)'):
                rep.skip('index:' + where)
                got.pop()
    if how[0] == 'fit':
        for v, s2 in r:
            if isinstance(v, T) and len(v.items) > how[1]:
                for x in judge.alts(topoly(v.items[how[1]])):
                    w = fitpart(x)
                    if w is None:
                        continue
                    got.append(w)
                    if w[:2] == srcs[0]:
                        rep.count('proved')
                    else:
                        rep.finding('formula', fi.full, '%s %s' % (show(opts), how[1]), 'it is part %s of what the fit returns, not %s' % (w, srcs[0]), fi.mod.rel(),
                                    fi.node.lineno, where)
        if not got:
            rep.skip('value:%s %s' % (where, how))
        return rep.dump()
    if 'R2' in names(srcs):
        env['R2'] = [x for v, s2 in r if isinstance(v, T) for x in v.items[2:3] if isinstance(x, N) and x.p.t][0]
    if not got:
        rep.skip('value:%s %s' % (where, how))
        return rep.dump()
    # an array of star numbers is turned into a mask first
    for _ in range(3):
        got = [(P.subst(g, lambda a: P.atom('MASK') if isinstance(a, tuple) and a[1] == 'phi' and any(isinstance(x, P.Poly) and x.atom() == 'MASK' for x in a[2:4]) else None), ix) for g, ix in got]
    if how[0] in ('ret', 'field') and not apps:
        got = [(y, ix) for x, ix in got for y in judge.alts(x)]
        got = [x for x in got if x[0].t] or got       # nothing to work with: zeros
    for g, ix in got:
        e = dict(env)
        if ix is not None:
            e['i'] = N(ix, 's')
        if 'K' in ' '.join(srcs):
            k = kernel_atom(g)
            if k is None:
                rep.skip('kernel:' + where)
                continue
            e['K'] = N(P.Poly({((k, 1),): 1}), 'a', None, None, P.atom('ntot'))
        js = [judge.judge(g, ref.expr(I, W, x, e)) for x in srcs if ix is not None or 'i' not in names([x])]
        if not js:
            rep.skip('index:' + where)
        elif any(j == 'ok' for j, _ in js):
            rep.count('proved')
        elif ix is None and how[0] == 'appended' and 'idx(' in P.show(g):
            rep.skip('index:' + where)      # the number of the pass is not known
        elif all(j == 'bad' for j, _ in js):
            rep.finding('formula', fi.full, '%s %s' % (show(opts), how[-1] if len(how) > 1 else 'value'), 'it is %s, by definition %s' % (
                P.show(js[0][1])[:300], ' or '.join(srcs)), fi.mod.rel(), fi.node.lineno, where)
        else:
            rep.skip('value:%s %s' % (where, how))
    return rep.dump()


def show(opts):
    return ','.join('%s=%s' % kv for kv in sorted(opts.items())) or 'defaults'


def names(srcs):
    return {n.id for x in srcs for n in ast.walk(ast.parse(x, mode='eval')) if isinstance(n, ast.Name)}


def kernel_atom(p):
    k = [a for a in p.atoms(True) if isinstance(a, tuple) and str(a[1]).startswith('kernel:')]
    return k[0] if len(k) == 1 else None


def leaves(p):
    return judge.alts(p)


def upds(p, out, depth=0):
    """the values stored bin by bin in an array built in a loop, whatever it is afterwards multiplied with"""
    for m, cf in p.t.items():
        for a, e in m:
            if not isinstance(a, tuple) or depth > 8:
                continue
            if a[1] == 'upd' and e == 1:
                rest = P.Poly({tuple(x for x in m if x[0] != a): cf})
                u = a[2:]
                if len(u) == 1 and isinstance(u[0], tuple):
                    u = u[0]
                base, val, ix = u[0], u[1], u[2] if len(u) > 2 else None
                out.append((P.mul(rest, val), ix))
                if isinstance(base, P.Poly):
                    upds(base, out, depth + 1)
            elif a[1] == 'phi':
                for x in a[2:4]:
                    if isinstance(x, P.Poly):
                        upds(P.mul(P.Poly({tuple(y for y in m if y[0] != a): cf}), x), out, depth + 1)


def fitpart(p):
    """which part of a fitting routine's result this is: (0,k) parameter k, (1,k,k) its error"""
    def path(q):
        a = q.atom()
        if not isinstance(a, tuple):
            return None
        if a[1].startswith('call:') and ('fit' in a[1]):
            return ()
        if a[1] in ('unpack', 'idx') and isinstance(a[2], P.Poly):
            k = a[3].const() if isinstance(a[3], P.Poly) else a[3]
            w = path(a[2])
            return None if w is None or not isinstance(k, (int, float)) else w + (int(k),)
        return None
    w = path(p)
    if w is not None:
        return w
    w = path(P.power(p, 2))
    return w


def values(v, how, exts):
    """[(normal form, bin index or None)] of the value the formula defines"""
    if how[0] in ('ext', 'extlist'):
        out = []
        for nm, a, kw in exts:
            if nm == how[1] and how[2] in kw:
                out.append((topoly(kw[how[2]]), None))
            elif nm == how[1] and isinstance(how[2], int) and len(a) > how[2]:
                if how[0] == 'ext':
                    out.append((topoly(a[how[2]]), None))
                elif isinstance(a[how[2]], T):
                    out += [(topoly(x), P.num(k)) for k, x in enumerate(a[how[2]].items)]
        return out
    if len(how) > 1:
        if not isinstance(v, T) or len(v.items) <= how[1]:
            return []
        v = v.items[how[1]]
    if how[0] == 'each':
        return [(topoly(x), P.num(k)) for k, x in enumerate(v.items)] if isinstance(v, T) else []
    if v is None:
        return []
    p = topoly(v)
    if how[0] == 'ret':
        return [(p, None)]
    out = []
    if how[0] == 'append':
        for x in judge.alts(p):
            a = x.atom()
            if isinstance(a, tuple) and a[1] == 'mm:append' and isinstance(a[3], tuple) and len(a[3]) == 1:
                it = {b for b in a[3][0].atoms(True) if isinstance(b, tuple) and b[1] in ('ix', 'it')}
                out.append((a[3][0], P.Poly({((it.pop(), 1),): 1}) if len(it) == 1 else None))
        return out
    upds(p, out)
    res = []
    for val, ix in out:
        res.append((val, ix if isinstance(ix, P.Poly) else None))
    return res


def run(rep, root, tier):
    rep.rule = RULE
    W = World(root)
    W._template()
    for d in pmap(lambda t: table_task(W, t), TABLE):
        rep.merge(d)
    kernels(W, rep)
    return W.prog


def used(W, fi, seen=None, out=None):
    """compiled kernels a function and its helpers call"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    if id(fi) in seen:
        return out
    seen.add(id(fi))
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            t = W.prog.resolve(fi.mod.name, n.func.id)
            if t and t[0] == 'func':
                if c12.jit(t[1]) is not None:
                    if t[1] not in out:
                        out.append(t[1])
                elif t[1].mod.short == fi.mod.short and t[1].params[:1] != ['cluster']:
                    used(W, t[1], seen, out)
    return out


def kernels(W, rep):
    I = W.interp(fuel=200000)
    I.inline_kernels = True
    J0, J1 = P.atom('J0'), P.atom('J1')
    for mod, name, src, kind in PAIR:
        r0 = W.prog.resolve(W.prog.mod(mod).name, name)
        if not r0 or r0[0] != 'func':
            raise AnalysisBroken('%s.%s not found' % (mod, name))
        for fi in used(W, r0[1]):
            rep.count('kernels')
            where = '%s used by %s' % (fi.full, name)
            try:
                k = c12.Kernel(W, fi)
                if c12.opaque_kernel(k) or not k.out or k.ret is None:
                    raise c12.Unsupported('unknown term')
                arrays = [p for p in fi.params if p not in fi.defaults]
                two = len(arrays) == 2
                e = {'a': N(P.atom('P0'), 'a', None, 'rows'), 'b': N(P.atom('P1' if two else 'P0'), 'a', None, 'rows'), 'i': N(J0, 's'), 'j': N(J1, 's')}
                soft = [q for q in fi.params if q in fi.defaults]
                e['s'] = N(P.atom('P%d' % fi.params.index(soft[0])), 's') if soft else C(0)
                want = ref.expr(I, W, src, e)
                swap = P.subst(want, lambda a: J1 if a == 'J0' else J0 if a == 'J1' else None)
                for sizes in [(n, m) for n in range(5) for m in range(5)]:
                    n, m = sizes
                    pts = []
                    other = None
                    for (g, term), q in k.table(sizes).items():
                        if any(isinstance(x, str) and 'nan' in x for x in term.atoms(True)):
                            continue        # a star at no distance from another
                        if term == want or (not two and term == swap):
                            pts += q
                        else:
                            other = term
                    if kind == 'each':
                        exp = [(x, y) for x in range(n) for y in range(m if two else n) if two or x != y]
                    else:
                        exp = [(x, y) for x in range(n) for y in range(x + 1, n)]
                        pts = [tuple(sorted(x)) for x in pts]
                    if other is not None or sorted(pts) != exp:
                        rep.count('formulas')
                        rep.finding('pair-term', fi.full, kind, 'for %s stars it accumulates %s over the pairs %s, by definition %s over %s' % (
                            sizes, P.show(other)[:200] if other is not None else 'the right term', sorted(pts)[:12], src, exp[:12]), fi.mod.rel(), fi.node.lineno, where)
                        break
                else:
                    rep.count('formulas')
                    rep.count('proved')
            except (c12.Unsupported, Fuel) as x:
                rep.skip('kernel form:%s %s' % (where, x))
