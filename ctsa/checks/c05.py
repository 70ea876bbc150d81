"""C05: derived quantities always describe the current coordinates."""
from .. import poly as P
from .. import judge, ref, sweep
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..report import Report
from . import c04

RULE = ('abstract interpretation of every public operation with default options from every (units, origin) state of a freshly analysed cluster: at '
        'every exit each derived field (the fields analyze itself assigns) must have the normal form that a fresh, fully re-sorted analysis of '
        'the exit state gives; and what analyze itself computes must be the documented definition of each quantity, written out as a reference formula')
FLOORS = {'runs': 1200, 'exits': 1200, 'derived_fields': 12, 'definitions': 60}
SKIPF = {'analyze_units', 'analyze_origin'}


def derived_fields(W):
    """fields assigned on the cluster by analyze and what it calls"""
    I = W.interp()
    st = W.start()
    o = W.cluster(st, 'pckms', 'galaxy', overrides={'rorder': C(None), 'rproorder': C(None)})
    out = set()

    def hook(I, obj, name, *a):
        out.add(name)
    I.on_setattr = lambda *a: out.update([x for x in a if isinstance(x, str)])
    I.call_func(W.SC.methods['analyze'], [o], {}, st, None)
    return sorted(out - SKIPF)


def ops(W):
    L = sweep.public_functions(W) + sweep.public_methods(W)
    m = W.prog.mod('cluster.operations')
    L += [b[-1][1] for n, b in m.binds.items() if b[-1][0] == 'func' and not n.startswith('_') and b[-1][1].params[:1] == ['cluster']]
    seen, out = set(), []
    for fi in L:
        if fi.cls is None and fi.mod.short == 'cluster.operations' and fi.name not in W.SC.methods:
            continue                # half of a conversion; its callers are checked
        if fi.full not in seen and fi.name not in ('analyze', 'analyse', 'key_params', 'sortstars', 'subset'):
            seen.add(fi.full)
            out.append(fi)
    return out


def entry(W, I, U, A, sort):
    st = W.start()
    ov = {'rorder': C(None), 'rproorder': C(None), 'rorder_origin': C(None)}
    if U != 'radec':
        o = W.cluster(st, U, A, overrides=ov)
        s = W.analyzed(I, st, o)
    else:
        o = W.cluster(st, 'kpckms', 'galaxy', overrides=ov)
        s = W.analyzed(I, st, o)
        I.muted += 1
        for m in ['to_radec'] + {'sky': [], 'cluster': ['to_cluster'], 'centre': ['to_centre']}[A]:
            s = I.call_func(W.SC.methods[m], [o], {}, s, None)[0][1]
        I.muted -= 1
        s.objs[o.id].fields.update(ov)
        s = W.analyzed(I, s, o)
    if not sort:
        s.objs[o.id].fields.update(ov)
    return o, s


def fresh(W, I, s, o):
    s2 = s.copy()
    s2.objs[o.id].fields.update({'rorder': C(None), 'rproorder': C(None), 'rorder_origin': C(None)})
    return W.analyzed(I, s2, o).objs[o.id].fields


def args(fi, U, A):
    kw = {p: N(P.atom('p_' + p)) for p in sweep.required(fi)}
    for p in sweep.required(fi):
        if p in ('x', 'y', 'z', 'vx', 'vy', 'vz') or p[:2] in ('xb', 'yb', 'zb') or p[:3] in ('vxb', 'vyb', 'vzb'):
            kw[p] = N(P.atom('p_' + p), 'a', newbuf(), None, P.atom('nnew'))
    if fi.name == 'return_cluster' and fi.cls is None:
        return None
    return kw


def one(W, rep, fi, U, A, der, sort, fuel, kw=None, lab='defaults'):
    I = W.interp(skip=sweep.plots_private, fuel=fuel)
    o, s = entry(W, I, U, A, sort)
    if s.objs[o.id].fields.get('units') != C(U) or s.objs[o.id].fields.get('origin') != C(A):
        rep.skip('entry state (%s,%s)' % (U, A))
        return
    kw = args(fi, U, A) if kw is None else kw
    if kw is None:
        return
    try:
        r = I.call_func(fi, [o], dict(kw), s, None)
    except Fuel:
        rep.skip('fuel:%s %s' % (fi.full, lab))
        return
    rep.count('runs')
    where = '%s from (%s,%s)%s' % (fi.full, U, A, '' if sort else ', unsorted')
    I.fuel = 10 ** 7
    for v, s2 in r:
        rep.count('exits')
        compare(W, I, rep, fi, s2, o, der, where)
        if isinstance(v, O) and v.id != o.id and v.id in s2.objs and s2.objs[v.id].cls is W.SC:
            compare(W, I, rep, fi, s2, v, der, where + ' (returned cluster)')


def compare(W, I, rep, fi, s2, o, der, where):
    f = s2.objs[o.id].fields
    g = fresh(W, I, s2, o)
    for k in der:
        rep.count('obligations')
        a, b = f.get(k), g.get(k)
        if a is b or (a is not None and b is not None and topoly(a) == topoly(b)):
            rep.count('proved')
            continue
        if a is None or b is None:
            rep.skip('missing:%s.%s' % (fi.full, k))
            continue
        j, alt = judge.same(topoly(a), topoly(b))
        if j == 'bad':
            rep.finding('stale', fi.full, k, '%s is %s; analysing the cluster as it is now gives %s' % (k, P.show(alt[0])[:160], P.show(alt[1])[:160]),
                        fi.mod.rel(), fi.node.lineno, where)
        elif j == 'undecided':
            rep.skip('value:%s.%s' % (fi.full, k))
        else:
            rep.count('proved')


HALF = ['r[o[c >= f * M][0]]', 'r[o][c >= f * M][0]', 'r[o[np.argmax(c >= f * M)]]', 'r[o][np.argmax(c >= f * M)]', 'r[o[np.where(c >= f * M)[0][0]]]',
        'r[o][np.where(c >= f * M)[0][0]]', 'r[o[np.searchsorted(c, f * M)]]', 'r[o][np.searchsorted(c, f * M)]', 'np.min(r[o][c >= f * M])',
        'np.amin(r[o[c >= f * M]])']
DEFS = {'r': 'np.sqrt(x**2 + y**2 + z**2)', 'rpro': 'np.sqrt(x**2 + y**2)', 'v': 'np.sqrt(vx**2 + vy**2 + vz**2)', 'vpro': 'np.sqrt(vx**2 + vy**2)',
        'mtot': 'np.sum(m)', 'mmean': 'np.mean(m)', 'rmean': 'np.mean(r)', 'rmax': 'np.max(r)', 'rmeanpro': 'np.mean(q)', 'rmaxpro': 'np.max(q)',
        'rm': (0.5, 'r', 'm'), 'r10': (0.1, 'r', 'm'), 'rmpro': (0.5, 'q', 'm'), 'r10pro': (0.1, 'q', 'm'),
        'rh': (0.5, 'r', 'lum'), 'rh10': (0.1, 'r', 'lum'), 'rhpro': (0.5, 'q', 'lum'), 'rh10pro': (0.1, 'q', 'lum')}


def base(p):
    return {a for a in p.atoms(True) if isinstance(a, str)}


def definitions(W, rep, U, A):
    """what analyze computes is what the documentation says the derived quantities are"""
    fi = W.SC.methods['analyze']
    I = W.interp(fuel=200000)
    st = W.start()
    o = W.cluster(st, U, A, overrides={'rorder': C(None), 'rproorder': C(None), 'rorder_origin': C(None)})
    lum = N(P.atom('lum_star'), 'a', newbuf(), None, P.atom('ntot'))
    st.objs[o.id].fields.update({'lum': lum, 'ltot': N(P.f('sum', P.atom('lum_star')))})
    c = st.objs[o.id].fields
    env = {k: c[k] for k in ('x', 'y', 'z', 'vx', 'vy', 'vz', 'm')}
    env['lum'] = lum
    e = lambda src, **kw: N(ref.expr(I, W, src, dict(env, **kw)), 'a', None, None, P.atom('ntot'))
    env['r'], env['q'] = e(DEFS['r']), e(DEFS['rpro'])
    where = 'analyze in (%s,%s)' % (U, A)
    for v, s2 in I.call_func(fi, [o], {}, st, None):
        g = s2.objs[o.id].fields
        for k, d in DEFS.items():
            rep.count('definitions')
            if not isinstance(g.get(k), N):
                rep.skip('definition:' + k)
                continue
            got = topoly(g[k])
            if isinstance(d, str):
                want = [ref.expr(I, W, d, env)]
                if 'mean' in d:
                    want.append(ref.expr(I, W, '%s / n' % d.replace('mean', 'sum'), dict(env, n=N(P.atom('ntot')))))
            else:
                f, rr, w = d
                M = N(ref.expr(I, W, 'np.sum(w)', {'w': env[w]}))
                want = []
                for oo in ('np.argsort(r)', 'r.argsort()'):
                    order = N(ref.expr(I, W, oo, {'r': env[rr]}), 'a', None, None, P.atom('ntot'))
                    cs = N(ref.expr(I, W, 'np.cumsum(w[o])', {'w': env[w], 'o': order}), 'a', None, None, P.atom('ntot'))
                    for h in HALF:
                        want.append(ref.expr(I, W, h, {'r': env[rr], 'o': order, 'c': cs, 'f': N(P.num(f)), 'M': M}))
            js = [judge.judge(got, w) for w in want]
            if any(j == 'ok' for j, _ in js):
                rep.count('proved')
                continue
            bad = [alt for j, alt in js if j == 'bad']
            if not isinstance(d, str):
                # another way of finding the same star is not a defect: only the same construction with other ingredients is
                bad = [got] if base(got) != base(want[0]) or any(heads(got) == heads(w) for w in want) else []
            if bad:
                rep.finding('definition', fi.full, k, '%s is %s, by definition it is %s' % (k, P.show(bad[0])[:200], P.show(want[0])[:200]), fi.mod.rel(),
                            fi.node.lineno, where)
            else:
                rep.skip('definition:' + k)


def heads(p):
    return {a[1] for a in p.atoms(True) if isinstance(a, tuple) and a[:1] == ('f',)}


def task(W, t, der):
    fi, U, A, tier = t
    rep = Report('C05')
    one(W, rep, fi, U, A, der, True, 150000 if tier == 'quick' else 600000)
    if fi.name in sweep.CONVERSIONS or tier != 'quick':
        one(W, rep, fi, U, A, der, False, 150000 if tier == 'quick' else 600000)
    return rep.dump()


def run(rep, root, tier):
    rep.rule = RULE
    W = World(root)
    W._template()
    der = derived_fields(W)
    rep.count('derived_fields', len(der))
    rep.sample({'derived': der})
    L = ops(W)
    rep.count('operations', len(L))
    for U, A in c04.states(tier):
        if U != 'radec':
            definitions(W, rep, U, A)
    tasks = [(fi, U, A, tier) for fi in L for U, A in c04.states(tier)]
    for d in pmap(lambda t: task(W, t, der), tasks):
        rep.merge(d)
    return W.prog
