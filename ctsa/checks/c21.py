"""C21: asking for a plot or for messages does not change what is computed."""
import ast
from .. import poly as P
from .. import judge, sweep
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..report import Report
from . import c04

RULE = ('abstract interpretation of every operation that can draw or print, once with and once without, from the same state and arguments: the values '
        'returned, every field of the cluster and the arrays handed in must have the same normal form')
FLOORS = {'runs': 60, 'obligations': 2000}
REPORTING = ('plot', 'verbose')
# what save_cluster remembers, and the sky coordinates kept from the last time they were asked for
SAVED = {'units0', 'origin0', 'rorder0', 'rorder_origin0'}
SKY = {a + b for a in ('ra', 'dec', 'dist', 'pmra', 'pmdec', 'vlos') for b in ('', '_c', '_gc')}
ARR = {'x', 'y', 'x_lower', 'x_mean', 'x_upper', 'm', 'v', 'r'}


def ops(W):
    out, seen = [], set()
    L = [(f, True) for f in sweep.public_functions(W) + sweep.public_methods(W)]
    for mod in W.prog.mods.values():
        if mod.short in ('util.recipes',):
            for n, b in mod.binds.items():
                if b[-1][0] == 'func' and not n.startswith('_'):
                    L.append((b[-1][1], False))
    for f, c in L:
        if f.full in seen:
            continue
        seen.add(f.full)
        for p in REPORTING:
            if p in f.params + f.kwonly and isinstance(f.default_const(p), bool):
                out.append((f, c, p))
    return out


def args(fi, cluster):
    kw = {}
    for p in fi.params[(1 if cluster else 0):] + fi.kwonly:
        if p in fi.defaults:
            continue
        kw[p] = N(P.atom('p_' + p), 'a', newbuf(), None, P.atom('nx')) if p in ARR else N(P.atom('p_' + p), 's')
    return kw


def once(W, fi, cluster, U, A, p, on, fuel, extra, loop_once=False):
    I = W.interp(skip=sweep.plots_private, fuel=fuel)
    I.loop_once = loop_once
    st = W.start()
    o = None
    s = st
    if cluster:
        o, s = c04.start(W, I, st, U, A)
    kw = args(fi, cluster)
    kw.update(extra)
    kw[p] = C(on)
    r = I.call_func(fi, [o] if cluster else [], kw, s, None)
    return o, r


def content(o, v, s):
    out = {'returned': v}
    if o is not None:
        for k, x in s.objs[o.id].fields.items():
            if isinstance(x, (N, C)) and k not in SAVED and not (k in SKY and s.objs[o.id].fields.get('units') != C('radec')):
                out['cluster.' + k] = x
    return out


# brought up to date by any change of frame, which drawing the sky involves
ORDERED = {'cluster.' + q for q in ('rorder', 'rproorder', 'rm', 'r10', 'rmpro', 'r10pro')}


def flat(v, s, d=0):
    if isinstance(v, T):
        return [y for x in v.items for y in flat(x, s, d)]
    if isinstance(v, D):
        return [y for k in sorted(v.items, key=repr) for y in flat(v.items[k], s, d)]
    return [v]


def has_join(p):
    return any(isinstance(a, tuple) and a[1] == 'phi' for a in p.atoms(True))


def one_sided(p, q):
    """(value, other) when one of the values a join can have is none of those the other can have"""
    A, B = judge.alts(p), judge.alts(q)
    if max(len(A), len(B)) > 8 or any(has_join(x) for x in A + B):
        return None
    for X, Y, sw in ((A, B, 0), (B, A, 1)):
        for x in X:
            if Y and all(judge.same(x, y)[0] == 'bad' for y in Y):
                return (Y[0], x) if sw else (x, Y[0])
    return None


def overridden(fi, p):
    """names that statements guarded by the reporting option give a new value that is next read outside them"""
    inside = set()
    guards = []
    for n in ast.walk(fi.node):
        if isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(n.test)) and isinstance(n.test, (ast.Name, ast.BoolOp)):
            if not n.orelse:
                guards.append(n)
                inside |= {id(x) for b in n.body for x in ast.walk(b)}
    out = {}
    occ = {}
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Name) and id(n) not in inside:
            occ.setdefault(n.id, []).append((n.lineno, isinstance(n.ctx, ast.Store), n.col_offset))
    for g in guards:
        for b in g.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not isinstance(b, (ast.For, ast.While)):
                    o = occ.get(n.id, [])
                    if not any(st and l < g.lineno for l, st, _ in o):
                        continue
                    after = sorted((l, st, c) for l, st, c in o if l > g.end_lineno)
                    if after and not after[0][1]:
                        out[n.id] = n.lineno
    return out


def alike(x, y):
    if x is None or len(x) != len(y):
        return 3
    # nothing and something are further apart than two values
    return max([0] + [0 if repr(p) == repr(q) else 2 if isinstance(p, N) and isinstance(q, N) and bool(p.p.t) != bool(q.p.t) else 1 for p, q in zip(x, y)])


def compare(rep, fi, p, o1, r1, o2, r2, where):
    if len(r1) != len(r2):
        # one way out each is compared; otherwise they cannot be paired
        rep.skip('exits:%s' % fi.full)
        return
    # the order in which the ways out are found does not matter: each goes with the one most like it
    rest, pairs = list(r2), []
    for v1, s1 in r1:
        w = {k: flat(x, s1) for k, x in content(o1, v1, s1).items()}
        best = min(range(len(rest)), key=lambda i: sum(alike(w.get(k), flat(x, rest[i][1])) for k, x in content(o2, *rest[i]).items()))
        pairs.append(((v1, s1), rest.pop(best)))
    for (v1, s1), (v2, s2) in pairs:
        a, b = content(o1, v1, s1), content(o2, v2, s2)
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                rep.skip('field:%s.%s' % (fi.full, k))
                continue
            if k in ORDERED and ('skypath' in where or 'sky' in fi.name):
                continue
            fa, fb = flat(a[k], s1), flat(b[k], s2)
            rep.count('obligations')
            if len(fa) != len(fb):
                rep.finding('changes-with-' + p, fi.full, k, '%s has %d parts with %s and %d without' % (k, len(fb), p, len(fa)), fi.mod.rel(), fi.node.lineno, where)
                continue
            bad = und = None
            for x, y in zip(fa, fb):
                if isinstance(x, N) and isinstance(y, N):
                    if x.p == y.p:
                        continue
                    j, alt = judge.same(x.p, y.p)
                    if j == 'ok':
                        continue
                    if j == 'bad' and not (has_join(x.p) or has_join(y.p)):
                        bad = alt
                        break
                    if one_sided(x.p, y.p):
                        bad = one_sided(x.p, y.p)
                        break
                    und = 1
                elif type(x) is type(y) and (x == y or isinstance(x, (O, M, E, F, K))):
                    continue
                elif isinstance(x, C) and isinstance(y, C):
                    bad = (topoly(x), topoly(y))
                    break
                else:
                    und = 1
            if bad:
                rep.finding('changes-with-' + p, fi.full, k, '%s is %s with %s=False and %s with %s=True' % (
                    k, P.show(bad[0])[:160], p, P.show(bad[1])[:160], p), fi.mod.rel(), fi.node.lineno, where)
            elif und and k == 'returned' and overridden(fi, p):
                n, ln = sorted(overridden(fi, p).items())[0]
                rep.finding('reassigned-with-' + p, fi.full, n, '%s is given a new value only with %s=True, is read afterwards, and what is returned is not provably the same' % (n, p),
                            fi.mod.rel(), ln, where)
            elif und:
                rep.skip('value:%s.%s' % (fi.full, k))
            else:
                rep.count('proved')


def task(W, t):
    fi, c, p, U, A, lab, extra, tier = t
    rep = Report('C21')
    fuel = 200000 if tier == 'quick' else 800000
    try:
        o1, r1 = once(W, fi, c, U, A, p, False, fuel, extra)
        o2, r2 = once(W, fi, c, U, A, p, True, fuel, extra)
    except Fuel:
        rep.skip('fuel:%s' % fi.full)
        return rep.dump()
    rep.count('runs')
    compare(rep, fi, p, o1, r1, o2, r2, '%s from (%s,%s), %s' % (fi.full, U, A, lab))
    # values carried round a loop are opaque: one pass through each loop shows what a pass changes
    if any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(fi.node)):
        try:
            o1, r1 = once(W, fi, c, U, A, p, False, fuel, extra, True)
            o2, r2 = once(W, fi, c, U, A, p, True, fuel, extra, True)
        except Fuel:
            return rep.dump()
        rep.count('single_passes')
        compare(rep, fi, p, o1, r1, o2, r2, '%s from (%s,%s), %s, one pass through each loop' % (fi.full, U, A, lab))
    return rep.dump()


def variants(fi):
    out = [('defaults', {})]
    # numbers that say how often a loop is repeated
    loops = {x.id for n in ast.walk(fi.node) if isinstance(n, (ast.For, ast.While)) for x in ast.walk(n.iter if isinstance(n, ast.For) else n.test) if isinstance(x, ast.Name)}
    for q in fi.params + fi.kwonly:
        d = fi.default_const(q) if q in fi.defaults else None
        if isinstance(d, bool) and q not in REPORTING:
            out.append(('%s=%s' % (q, not d), {q: C(not d)}))
        elif isinstance(d, (int, float)) and not isinstance(d, bool) and q in loops:
            out.append(('%s given' % q, {q: N(P.atom('opt_' + q), 's')}))
    return out


def tasks(W, tier):
    sts = [('pckms', 'cluster'), ('kpckms', 'galaxy'), ('nbody', 'centre')] if tier == 'quick' else [
        (u, a) for u in UNITS + ['radec'] if u != 'amuse' for a in (['cluster', 'centre', 'galaxy'] if u != 'radec' else ['sky'])]
    out = []
    for fi, c, p in ops(W):
        vs = variants(fi)
        for i, (u, a) in enumerate(sts if c else sts[:1]):
            for j, (lab, ex) in enumerate(vs):
                if tier == 'quick' and j and (i + j) % 3:
                    continue
                out.append((fi, c, p, u, a, lab, ex, tier))
    return out


def run(rep, root, tier):
    rep.rule = RULE
    W = World(root)
    W._template()
    ts = tasks(W, tier)
    rep.count('operations', len({(t[0].full, t[2]) for t in ts}))
    for d in pmap(lambda t: task(W, t), ts):
        rep.merge(d)
    return W.prog
