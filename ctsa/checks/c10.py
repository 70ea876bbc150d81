"""C10: subset options select exactly the stars inside the requested limits."""
from .. import poly as P
from .. import judge, sweep, ref
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..report import Report
from . import c04

RULE = ('abstract interpretation of the star selection for every combination of one and of all criteria: the normal form of the mask must be the '
        'product of exactly the inclusive comparisons requested; of every analysis that offers the criteria: each option must arrive unchanged at '
        'the selection, and options not given as the default of the analysis; and of the extraction of a sub-cluster: every per-star array must be '
        'the same array of the cluster under that mask')
FLOORS = {'masks': 12, 'callers': 10, 'obligations': 300}

FAMILY = ['rmin', 'rmax', 'mmin', 'mmax', 'vmin', 'vmax', 'emin', 'emax', 'kwmin', 'kwmax', 'npop', 'indx']
TERM = dict(rmin='r >= rmin', rmax='r <= rmax', mmin='m >= mmin', mmax='m <= mmax', vmin='v >= vmin', vmax='v <= vmax', emin='etot >= emin',
            emax='etot <= emax', kwmin='kw >= kwmin', kwmax='kw <= kwmax', npop='npop_ == npop', indx='indx')


def selection(W):
    r = W.prog.resolve(W.SC.mod.name, '_get_subset')
    m = W.SC.methods.get('subset')
    if r is None or r[0] != 'func' or m is None:
        raise AnalysisBroken('star selection (_get_subset, StarCluster.subset) not found')
    return r[1], m


def trivially(p):
    """drop comparisons of an array with its own extreme"""
    def f(a):
        if isinstance(a, tuple) and a[1] == 'ge0' and isinstance(a[2], P.Poly):
            for b in a[2].atoms():
                if isinstance(b, tuple) and b[1] in ('min', 'max') and isinstance(b[2], P.Poly):
                    d = P.sub(b[2], P.atom(b)) if b[1] == 'min' else P.sub(P.atom(b), b[2])
                    q = P.ratio(a[2], d) if hasattr(P, 'ratio') else None
                    c = P.div(a[2], d)
                    if a[2] == d or (c.const() is not None and c.const() > 0):
                        return P.ONE
        return None
    return P.subst(p, f)


def conj(p):
    """one comparison of a product is the product itself; powers of masks are the masks"""
    out = P.ONE
    if len(p.t) != 1:
        return p
    (m, c), = p.t.items()
    for a, e in m:
        out = P.mul(out, P.atom(a))
    return P.scale(out, c) if c != 1 else out


def mask(W, rep, given, projected, sub, meth, zero=False):
    for fi, self_ in ((sub, 'function'), (meth, 'method')):
        I = W.interp()
        st = W.start()
        o = W.cluster(st, 'pckms', 'centre')
        s = W.analyzed(I, st, o)
        f = s.objs[o.id].fields
        kw = {p: N(P.atom('opt_' + p), 'a' if p == 'indx' else 'n') for p in given}
        if zero:
            kw = {p: N(P.num(0), 's') for p in given}
        if 'indx' in kw:
            kw['indx'] = N(P.atom('opt_indx'), 'a', frozenset((('param', 'indx'),)), None, P.atom('ntot'))
        # a mask of the cluster's own length that does not contain None
        env = {'r': f['rpro' if projected else 'r'], 'v': f['vpro' if projected else 'v'], 'm': f['m'], 'etot': f['etot'], 'kw': f['kw'], 'npop_': f['npop']}
        env.update(kw)
        env.setdefault('kwmin', N(P.num(0), 's'))
        env.setdefault('kwmax', N(P.num(15), 's'))
        want = P.ONE
        for p in FAMILY:
            if p in given or p in ('kwmin', 'kwmax'):
                want = P.mul(want, ref.expr(I, W, TERM[p], env))
        want = conj(trivially(want))
        args = dict(kw)
        if projected:
            args['projected'] = C(True)
        r = I.call_func(fi, [o], args, s.copy(), None)
        rep.count('masks')
        where = '%s(%s%s)' % (fi.full, ', '.join(given), ', projected' if projected else '') + (' limits of zero' if zero else '')
        if not r:
            rep.finding('no-exit', fi.full, ' '.join(given), 'no selection is returned', fi.mod.rel(), fi.node.lineno, where)
        for v, s2 in r:
            al = [conj(trivially(a)) for a in judge.alts(P.reduce(topoly(v))) if a.const() is None or a == P.ONE]
            for got in al:
                rep.count('obligations')
                # a mask that contains None counts as not given
                if got == want or 'indx' in given and want in al and P.mul(got, P.atom('opt_indx')) == want:
                    rep.count('proved')
                    rep.sample('%s: %s' % (where, P.show(want)))
                    continue
                # known atoms only?
                if judge.opaque(got):
                    rep.skip('mask:%s' % where)
                    continue
                rep.finding('wrong-selection', fi.full, '%s%s' % (' '.join(given) or 'nothing', ' projected' if projected else ''),
                            'keeps %s, must keep %s' % (P.show(got)[:400], P.show(want)[:300]), fi.mod.rel(), fi.node.lineno, where)


def callers(W):
    L = sweep.public_functions(W) + sweep.public_methods(W)
    m = W.prog.mod('cluster.cluster')
    L += [b[-1][1] for n, b in m.binds.items() if b[-1][0] == 'func' and not n.startswith('_') and b[-1][1].params[:1] == ['cluster']]
    out, seen = [], set()
    for fi in L:
        if fi.full in seen or len([p for p in FAMILY if p in fi.params]) < 4:
            continue
        seen.add(fi.full)
        out.append(fi)
    return out


def caller(W, rep, fi, sub, fuel):
    fam = [p for p in FAMILY if p in fi.params]
    runs = [('defaults', {})] + [(p, {p: N(P.atom('opt_' + p), 'n')}) for p in fam]
    if 'projected' in fi.params:
        runs.append(('projected', {'projected': C(True)}))
    rep.count('callers')
    used = {}
    for lab, kw in runs:
        calls = []

        def hook(I, f, b, st, node):
            if f is sub:
                calls.append((dict(b), getattr(node, 'lineno', 0)))
            return None
        I = W.interp(skip=sweep.plots_private, fuel=fuel, on_call=hook)
        st = W.start()
        o, s = c04.start(W, I, st, 'pckms', 'centre')
        calls.clear()
        base = {p: N(P.atom('p_' + p)) for p in sweep.required(fi)}
        try:
            I.call_func(fi, [o], dict(base, **kw), s, None)
        except Fuel:
            rep.skip('fuel:%s' % fi.full)
        where = '%s, %s' % (fi.full, lab if lab == 'defaults' else lab + ' given')
        if not calls:
            rep.skip('no selection:%s' % fi.full)
            continue
        rep.count('selections', len(calls))
        if lab == 'defaults':
            for p in fam + (['projected'] if 'projected' in fi.params else []):
                for b, line in calls:
                    v = b.get(p)
                    d = fi.default_const(p) if p != 'indx' else None
                    if not isinstance(v, C) or p == 'indx':
                        # set by the analysis itself (bins) or unknown
                        continue
                    rep.count('obligations')
                    if v.v == d or (v.v is None and d is None) or (p == 'projected' and not v.v and not d):
                        rep.count('proved')
                    elif p in ('rmin', 'rmax'):
                        rep.skip('own limits')
                    else:
                        rep.finding('default-changed', fi.full, p, 'selects with %s=%r although its own default is %r' % (p, v.v, d), fi.mod.rel(), line or fi.node.lineno, where)
            continue
        p = lab
        hits = 0
        for b, line in calls:
            v = b.get(p)
            rep.count('obligations')
            if p == 'projected':
                ok = v == C(True)
                exact = True
            else:
                pv = topoly(v) if v is not None else P.ZERO
                ok = any(a == 'opt_' + p for a in pv.atoms(True))
                exact = pv == P.atom('opt_' + p)
            if ok and (exact or p == 'indx'):
                hits += 1
                rep.count('proved')
            elif ok:
                alt = P.reduce(pv)
                if judge.opaque(alt) or len(judge.alts(alt)) > 1:
                    rep.skip('altered:%s' % p)
                else:
                    rep.finding('option-altered', fi.full, p, 'the selection gets %s' % P.show(alt)[:200], fi.mod.rel(), line or fi.node.lineno, where)
                hits += 1
            elif p in ('rmin', 'rmax'):
                rep.skip('own limits')
            elif p != 'projected' and (v is None or neutral(p, v)) and b.get('indx') is not None and any(
                    a == 'opt_' + p for a in topoly(b['indx']).atoms(True)):
                # an earlier selection by the option is handed on as the mask
                rep.count('proved')
                hits += 1
            elif v is not None and not isinstance(v, C) and judge.opaque(topoly(v)):
                rep.skip('unknown:%s' % p)
                hits += 1
            else:
                rep.finding('option-not-forwarded', fi.full, p, 'a selection made by the analysis gets %s instead of the given %s' % (
                    v.v if isinstance(v, C) else v, p), fi.mod.rel(), line or fi.node.lineno, where)
        if p in ('rmin', 'rmax') and not hits:
            rep.finding('option-not-forwarded', fi.full, p, 'no selection made by the analysis gets the given limit', fi.mod.rel(), fi.node.lineno, where)


STAR = {'x', 'y', 'z', 'vx', 'vy', 'vz', 'm', 'id', 'kw', 'logl', 'lum', 'etot', 'kin', 'pot', 'npop', 'm0'}


def uses(W, rep, fi, sub, fuel):
    """every star quantity in a result of the analysis must have passed the selection"""
    n = [0]

    def hook(I, f, b, st, node):
        if f is sub:
            n[0] += 1
            return [(N(P.atom('MASK%d' % n[0]), 'a', frozenset((('tmp', 'mask'),)), None, P.atom('ntot')), st)]
        return None
    I = W.interp(skip=sweep.plots_private, fuel=fuel, on_call=hook)
    st = W.start()
    o, s = c04.start(W, I, st, 'pckms', 'centre')
    n[0] = 0
    base = {p: N(P.atom('p_' + p)) for p in sweep.required(fi)}
    try:
        r = I.call_func(fi, [o], base, s, None)
    except Fuel:
        rep.skip('fuel:%s' % fi.full)
        return
    if not n[0]:
        rep.skip('no selection:%s' % fi.full)
        return
    for v, s2 in r:
        its = list(v.items) if isinstance(v, T) else [v]
        for i, x in enumerate(its):
            if not isinstance(x, (N, T)):
                continue
            for alt in judge.alts(P.reduce(topoly(x))):
                at = {a for a in alt.atoms(True) if isinstance(a, str)}
                if not at & STAR:
                    continue
                rep.count('obligations')
                rep.count('results')
                if any(a.startswith('MASK') for a in at):
                    rep.count('proved')
                elif judge.opaque(alt):
                    rep.skip('result:%s' % fi.full)
                else:
                    rep.finding('not-selected', fi.full, str(i), 'result %d is computed from stars without the selection: %s' % (i, P.show(alt)[:300]), fi.mod.rel(),
                                fi.node.lineno, fi.full)


def neutral(p, v):
    c = v.v if isinstance(v, C) else topoly(v).const()
    if p == 'kwmin':
        return c == 0
    if p == 'kwmax':
        return c == 15
    return isinstance(v, C) and c is None


PERSTAR = ['x', 'y', 'z', 'vx', 'vy', 'vz', 'm', 'id', 'm0', 'npop', 'kw', 'logl', 'logr', 'ep', 'ospin', 'kin', 'pot', 'etot',
           'ra', 'dec', 'dist', 'pmra', 'pmdec', 'vlos', 'gyrpot', 'gyrq', 'gyracc', 'eps', 'gyrlev']
KEEP = ['tphys', '_ro', '_vo', '_zo', 'xgc', 'ygc', 'zgc', 'vxgc', 'vygc', 'vzgc', 'xc', 'yc', 'zc', 'vxc', 'vyc', 'vzc', 'rbar', 'zmbar', 'vbar', 'tbar',
        'centre_method', 'units', 'origin', 'projected', 'ctype']


BINARY = ['id1', 'id2', 'kw1', 'kw2', 'kcm', 'ecc', 'pb', 'semi', 'm1', 'm2', 'logl1', 'logl2', 'logr1', 'logr2', 'ep1', 'ep2', 'ospin1', 'ospin2']


def extract(W, rep, U, A, sub, give='mxvpqael', binaries=True):
    r0 = W.prog.resolve(W.SC.mod.name, 'sub_cluster')
    if not r0 or r0[0] != 'func':
        raise AnalysisBroken('sub_cluster not found')
    fi = r0[1]
    M = N(P.atom('MASK'), 'a', None, None, P.atom('ntot'))

    def hook(I, f, b, st, node):
        if f is sub:
            return [(N(P.atom('MASK'), 'a', frozenset((('tmp', 'mask'),)), None, P.atom('ntot')), st)]
        return None
    I = W.interp(skip=sweep.plots_private, fuel=400000)
    st = W.start()
    o, s = c04.start(W, I, st, U, A)
    I.on_call = hook
    c = s.objs[o.id].fields
    # a cluster that has everything a star can have
    for k in PERSTAR + BINARY:
        a = c.get(k)
        if a is None or not isinstance(a, N) or not topoly(a).t or topoly(a) == P.f('array'):
            c[k] = N(P.atom('star_' + k), 'a', newbuf(), None, P.atom('nbin' if k in BINARY else 'ntot'))
    c['give'] = C(give)
    if binaries:
        c['nb'] = N(P.atom('nbin'), 's')
    c = {k: v for k, v in c.items()}
    where = '%s from (%s,%s)' % (fi.full, U, A)
    try:
        r = I.call_func(fi, [o], {}, s, None)
    except Fuel:
        rep.skip('fuel:sub_cluster')
        return
    for v, s2 in r:
        if not isinstance(v, O) or v.id not in s2.objs:
            rep.skip('sub_cluster result')
            continue
        g = s2.objs[v.id].fields
        xv = topoly(g.get('x')) if g.get('x') is not None else P.ZERO
        if not xv.t:
            continue   # nothing selected
        rep.count('extractions')
        for k in PERSTAR:
            a, b = c.get(k), g.get(k)
            if not isinstance(a, N) or not isinstance(b, (N, T)) or not topoly(a).t:
                continue
            pa = topoly(a).atom()
            if isinstance(pa, tuple) and pa[1] == 'array' and len(pa) == 2:
                continue   # the cluster has no such array
            if isinstance(b, T) or not topoly(b).t:
                rep.skip('empty:' + k)
                continue
            rep.count('obligations')
            sel = ref.expr(I, W, 'kin[M] + pot[M]', {'kin': c['kin'], 'pot': c['pot'], 'M': M}) if k == 'etot' and isinstance(c.get('kin'), N) and \
                isinstance(c.get('pot'), N) else ref.expr(I, W, 'a[M]', {'a': a, 'M': M})
            got = topoly(b)
            if k in ('ep', 'ospin'):
                # only clusters without these values are padded with zeros
                al = [x for x in judge.alts(got) if x.t]
                if len(al) == 1:
                    got = al[0]
            j, alt = judge.judge(got, sel)
            if j == 'ok':
                rep.count('proved')
            elif j == 'undecided':
                rep.skip('array:' + k)
            else:
                rep.finding('wrong-stars', fi.full, k, '%s of the selected stars is %s, must be %s' % (k, P.show(alt)[:200], P.show(sel)[:200]), fi.mod.rel(),
                            fi.node.lineno, where)
        # the binaries kept are the same ones in every array
        w = [x.atom() for x in judge.alts(topoly(g['id1'])) if x.t and x != P.f('array')] if isinstance(g.get('id1'), N) else []
        w = w[0] if len(w) == 1 else None
        if isinstance(w, tuple) and w[1] == 'sel' and isinstance(w[3], P.Poly):
            for k in BINARY:
                b = g.get(k)
                if not isinstance(b, N) or not isinstance(c.get(k), N):
                    continue
                rep.count('obligations')
                got = [x for x in judge.alts(topoly(b)) if x.t and x != P.f('array')]
                if len(got) != 1:
                    rep.skip('array:' + k)
                    continue
                j, alt = judge.judge(got[0], ref.expr(I, W, 'a[M]', {'a': c[k], 'M': N(w[3], 'a', None, None, P.atom('nbin'))}))
                if j == 'ok':
                    rep.count('proved')
                elif j == 'undecided':
                    rep.skip('array:' + k)
                else:
                    rep.finding('wrong-stars', fi.full, k, '%s of the selected binaries is %s, the binaries selected are %s' % (k, P.show(alt)[:200], P.show(w[3])[:200]),
                                fi.mod.rel(), fi.node.lineno, where)
        else:
            rep.skip('binaries')
        for k in KEEP:
            a, b = c.get(k), g.get(k)
            if a is None or b is None:
                continue
            rep.count('obligations')
            if isinstance(a, C) and isinstance(b, C):
                j = 'ok' if a.v == b.v else 'bad'
                alt = topoly(b)
            else:
                j, alt = judge.judge(topoly(b), topoly(a))
            if j == 'ok':
                rep.count('proved')
            elif j == 'undecided':
                rep.skip('keep:' + k)
            else:
                rep.finding('not-carried', fi.full, k, '%s of the extracted cluster is %s, the cluster has %s' % (k, P.show(alt)[:200], P.show(topoly(a))[:200]),
                            fi.mod.rel(), fi.node.lineno, where)


def task(W, t):
    rep = Report('C10')
    sub, meth = selection(W)
    try:
        if t[0] == 'mask':
            mask(W, rep, t[1], t[2], sub, meth, *t[3:])
        elif t[0] == 'uses':
            uses(W, rep, t[1], sub, 150000 if t[2] == 'quick' else 600000)
        elif t[0] == 'caller':
            caller(W, rep, t[1], sub, 150000 if t[2] == 'quick' else 600000)
        else:
            extract(W, rep, t[1], t[2], sub)
    except Fuel:
        rep.skip('fuel:%s' % (t[:2],))
    return rep.dump()


def run(rep, root, tier):
    rep.rule = RULE
    W = World(root)
    W._template()
    combos = [()] + [(p,) for p in FAMILY] + [tuple(FAMILY), ('emin', 'emax'), ('rmin', 'rmax', 'vmin', 'vmax'), ('mmin', 'mmax', 'npop')]
    if tier != 'quick':
        combos += [(a, b) for i, a in enumerate(FAMILY) for b in FAMILY[i + 1:]]
    tasks = [('caller', fi, tier) for fi in callers(W)]
    tasks += [('uses', fi, tier) for fi in callers(W)]
    tasks += [('mask', c, pr) for c in combos for pr in (False, True)]
    tasks += [('mask', (p,), pr, True) for p in ('rmax', 'mmax', 'vmax', 'emin', 'emax', 'kwmax', 'npop') for pr in (False, True)]
    tasks += [('extract', U, A) for U, A in c04.states(tier) if U not in ('radec', 'amuse')]
    for d in pmap(lambda t: task(W, t), tasks):
        rep.merge(d)
    return W.prog
