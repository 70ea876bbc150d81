"""C13: the three coordinate axes are treated alike."""
import ast
import re
from .. import poly as P
from .. import judge, sweep
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..report import Report
from . import c04, c08, c12

RULE = ('self-composition under a relabelling of the axes: every operation is interpreted once with symbolic coordinates; the normal form of every '
        'component of every result, of every stored quantity and of every variable carried round a loop, with the axes of all inputs relabelled '
        'cyclically (or exchanged in the sky plane for projected quantities), must be the normal form of the correspondingly relabelled component')
FLOORS = {'operations': 30, 'obligations': 1500, 'proved': 1200}
CYCLE = {'x': 'y', 'y': 'z', 'z': 'x'}
SWAP = {'x': 'y', 'y': 'x', 'z': 'z'}
AX = re.compile(r'^((?:opt_|p_)?(?:i_)?v?)([xyz])(.*)$')


class Names:
    """which names carry an axis letter: those with all three siblings"""

    def __init__(self, W):
        names = set(W._template_names) if hasattr(W, '_template_names') else set()
        self.names = names

    def add(self, L):
        self.names |= set(L)

    def ren(self, n, perm):
        m = AX.match(n)
        if not m:
            return n
        sib = [m.group(1) + a + m.group(3) for a in 'xyz']
        bare = [re.sub('^(opt_|p_)', '', s) for s in sib]
        if all(b in self.names for b in bare):
            return m.group(1) + perm[m.group(2)] + m.group(3)
        return n


def relabel(names, perm):
    def f(a):
        if isinstance(a, str):
            b = names.ren(a, perm)
            return P.atom(b) if b != a else None
        if a[1] in ('loop', 'loopdef') and len(a) > 3 and isinstance(a[3], str):
            k = a[3].rsplit('.', 1)
            b = names.ren(k[-1], perm)
            return P.f(a[1], a[2], '.'.join(k[:-1] + [b]), *a[4:]) if b != k[-1] else None
        if a[1] == 'idx' and isinstance(a[2], P.Poly) and isinstance(a[2].atom(), tuple) and a[2].atom()[1] == 'row' and isinstance(a[3], P.Poly):
            c = a[3].const()
            if c in (0, 1, 2):
                q = {0: 'x', 1: 'y', 2: 'z'}[int(c)]
                return P.f('idx', a[2], P.num('xyz'.index(perm[q])))
        return None
    return f


LOOPOK = ('loop', 'loopdef')


def opaque(p):
    """something whose dependence on the axes is not known"""
    def at(a):
        if isinstance(a, str):
            return False
        if a[1] in LOOPOK:
            return False
        return judge.opaque_name(a[1]) and a[1] != 'phi' or any(arg(x) for x in a[2:] if not (a[1] == 'slice' and judge.openend(x)))

    def arg(x):
        if isinstance(x, P.Poly):
            return any(at(a) for m in x.t for a, e in m)
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] == 'f' and isinstance(x[1], str):
                return at(x)
            return any(arg(y) for y in x)
        return False
    return arg(p)


def tokens(p):
    """(loop, variable) of every carried variable in p"""
    return {(a[2], a[3].rsplit('.', 1)[-1]) for a in p.atoms(True) if isinstance(a, tuple) and len(a) > 3 and a[1] in LOOPOK and isinstance(a[3], str)}


def axes(p, names):
    """axis letters of the inputs p is computed from"""
    out = set()
    for a in p.atoms(True):
        n = a if isinstance(a, str) else a[3].rsplit('.', 1)[-1] if a[1] in LOOPOK and len(a) > 3 and isinstance(a[3], str) else None
        if n and names.ren(n, CYCLE) != n:
            out.add(AX.match(n).group(2))
    return out


def flat(v, key, out):
    if isinstance(v, T):
        for i, x in enumerate(v.items):
            flat(x, key + (i,), out)
    elif isinstance(v, N):
        out[key] = v.p
    elif isinstance(v, C) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
        out[key] = topoly(v)
    return out


def verdicts(names, perm, vals):
    """{key: ('ok'|'undecided'|'bad', relabelled value, key it must equal)}: names with axis letters map to their sibling, anything else must be
    unchanged or be a component of an unnamed vector (equal to another entry)"""
    f = relabel(names, perm)
    memo = {}
    pool = None
    out = {}
    for k, v in vals.items():
        if v.const() is not None:
            continue
        w = P.subst(v, f, memo)
        k2 = names.ren(k, perm) if isinstance(k, str) else k
        if k2 not in vals:
            k2 = k
        j = same(w, vals[k2])
        if j == 'bad' and (not isinstance(k, str) or names.ren(k, perm) == k and names.ren(k, CYCLE) == k):
            if pool is None:
                pool = {P.digest(P.reduce(x)) for x in vals.values()}
            if P.digest(P.reduce(w)) in pool:
                j = 'vector'
        out[k] = (j, w, k2)
    return out


def closed(rep, names, perm, vals, fi, label, line, rule, unmapped=()):
    for k, (j, w, k2) in verdicts(names, perm, vals).items():
        rep.count('obligations')
        if j in ('ok', 'vector'):
            rep.count('proved')
            continue
        if j == 'undecided' or tokens(vals[k]) & set(unmapped) or tokens(vals[k2]) & set(unmapped):
            rep.skip('%s:%s %s' % (rule, fi.full, k))
            continue
        rep.finding(rule, fi.full, '%s' % (k if isinstance(k, str) else '[%s]' % ']['.join(map(str, k))),
                    '%s: relabelled %s, %s is %s' % (label, P.show(w)[:300], k2 if isinstance(k2, str) else 'the result', P.show(vals[k2])[:300]), fi.mod.rel(), line, label)


def same(v, w):
    if v == w:
        return 'ok'
    v, w = P.reduce(v), P.reduce(w)
    if v == w:
        return 'ok'
    if opaque(v) or opaque(w):
        return 'undecided'
    return 'bad'


def pairing(names, perm, nid, rounds):
    """a one-to-one map of the carried variables that turns the entry values and the loop body into themselves relabelled"""
    ent = rounds[0][1]
    base = relabel(names, perm)
    ks = sorted(ent)
    img = {k: P.subst(ent[k], base, {}) for k in ks}
    cand = {k: [q for q in ks if same(img[k], ent[q]) == 'ok'] for k in ks}
    tries = [0]

    def ok(m):
        def f(a):
            if isinstance(a, tuple) and a[1] in LOOPOK and len(a) > 3 and a[2] == nid and isinstance(a[3], str):
                return P.f(a[1], a[2], m.get(a[3], a[3]), *a[4:]) if m.get(a[3], a[3]) != a[3] else P.atom(a)
            return base(a)
        return all(same(P.subst(v, f, {}), vals[m[k]]) != 'bad' for _, vals in rounds[1:] for k, v in vals.items() if k in m and m[k] in vals)

    def go(i, m):
        if i == len(ks):
            tries[0] += 1
            return m if ok(m) else None
        for q in sorted(cand[ks[i]], key=lambda q: q != names.ren(ks[i], perm)):
            if q not in m.values():
                r = go(i + 1, {**m, ks[i]: q})
                if r is not None or tries[0] > 100:
                    return r
        return None
    return go(0, {})


def carried(rep, names, perm, nid, n, st, ends, changed, fi, where, unmapped):
    """induction over a loop: the carried variables map to each other on entry and after the body"""
    top = max([a for (w, a, k) in changed if w == 'env'], default=None)
    if top is None:
        return
    ks = [k for (w, a, k) in changed if w == 'env' and a == top]
    def read(s):
        return {k: s.frames[top].env[k].p for k in ks if top < len(s.frames) and isinstance(s.frames[top].env.get(k), N)}
    rounds = [('entry', read(st))] + [('body', read(s2)) for h, s2 in ends]
    bad = []
    for lab, vals in rounds:
        for k, (j, w, k2) in verdicts(names, perm, vals).items():
            rep.count('obligations')
            if j == 'ok':
                rep.count('proved')
                continue
            axis = names.ren(k, CYCLE) != k
            if j == 'bad' and (axis or len(axes(vals[k], names)) >= 2):
                bad.append((lab, k, k2, w, vals[k2]))
            else:
                rep.skip('loop:%s %s' % (fi.full, k))
            unmapped.add((nid, k))
    ent = rounds[0][1]
    if bad and any(axes(v, names) and (names.ren(k, CYCLE) == k or names.ren(k, CYCLE) not in ent) for k, v in ent.items()):
        # the variables of this loop are not named after the axes: look for any pairing of them under which the loop is symmetric; without one nothing is known
        rep.skip('loop:%s names' % fi.full)
        unmapped |= {(nid, k) for k in ks}
        if pairing(names, perm, nid, rounds) is not None:
            rep.count('proved')
        return
    for lab, k, k2, w, o in bad:
        if (tokens(w) | tokens(o)) & {u for u in unmapped if u not in {(nid, b[1]) for b in bad}}:
            rep.skip('loop:%s %s' % (fi.full, k))
            continue
        rep.finding('asymmetric-loop', fi.full, k, '%s, %s of the loop: relabelled %s, %s is %s' % (where, lab, P.show(w)[:300], k2, P.show(o)[:300]), fi.mod.rel(),
                    n.lineno, where)


# operations with a preferred direction by definition
DIRECTED = re.compile(r'sky|radec|sphere|cyl|rotat|orbit|tail|galpy|plot|out$|action|ttensor|rtidal|rlimiting|vcirc_prof|beta_prof|sigv_prof|v_prof|v2_prof|animate|'
                      r'to_earth|actions|sudays|audays|amuse|interpolate')


def ops(W):
    out, seen = [], set()
    for fi in sweep.public_functions(W) + sweep.public_methods(W):
        if fi.full in seen or DIRECTED.search(fi.name):
            continue
        seen.add(fi.full)
        out.append(fi)
    m = W.prog.mod('cluster.operations')
    for n, b in m.binds.items():
        if b[-1][0] == 'func' and not n.startswith('_') and b[-1][1].params[:1] == ['cluster'] and b[-1][1].full not in seen and not DIRECTED.search(n):
            seen.add(b[-1][1].full)
            out.append(b[-1][1])
    return out


SKIPF = re.compile(r'^(orbit|gal|units|origin|rorder|rproorder|analyze|ra$|dec$|dist$|pmra|pmdec|vlos|ra_|dec_|dist_|vlos_)')
PRO = re.compile(r'pro$|^rpro|^vpro|^rnpro')


def task(W, t):
    fi, U, A, tier = t
    rep = Report('C13')
    names = Names(W)
    names.add(c04.ALLF)
    for f2 in c12.all_functions(W) + list(W.SC.methods.values()):
        names.add(f2.params + f2.kwonly)
        names.add({n.id for n in ast.walk(f2.node) if isinstance(n, ast.Name)})
    fuel = 150000 if tier == 'quick' else 600000
    for lab, kw in c08.variants(W, fi, tier != 'quick'):
        if lab.startswith('starname') or 'plot' in lab or 'sky' in lab or 'radec' in lab:
            continue
        kw = dict(kw)
        for k in list(kw):
            k2 = k
            for _ in range(2):
                k2 = names.ren(k2, CYCLE)
                if k2 != k and k2 in fi.params and k2 not in kw:
                    kw[k2] = N(P.atom('opt_' + k2), 'n')
        projected = kw.get('projected') not in (None, C(False))
        loops = {}

        def on_loop(I, n, nid, st0, ends, changed):
            if not I.callstack or not DIRECTED.search(I.callstack[-1].name):
                loops[(nid, tuple(x.full for x in I.callstack))] = (n, st0, ends, changed, I.callstack[-1] if I.callstack else None)
        I = W.interp(skip=sweep.plots_private, fuel=fuel)
        st = W.start()
        try:
            o, s = c04.start(W, I, st, U, A)
            init = dict(s.objs[o.id].fields)
            I.on_loop = on_loop
            r = I.call_func(fi, [o], dict(kw), s, None)
        except Fuel:
            rep.skip('fuel:' + fi.full)
            continue
        rep.count('runs')
        where = '%s from (%s,%s), %s' % (fi.full, U, A, lab)
        for perm in ((SWAP,) if projected else (CYCLE, SWAP)):
            unmapped = set()
            if perm is CYCLE or projected:
                for (nid, cs), (n, st0, ends, changed, f2) in loops.items():
                    carried(rep, names, perm, nid, n, st0, ends, changed, f2 or fi, where, unmapped)
            for v, s2 in r:
                if v is not o and (perm is CYCLE or projected):
                    res = flat(v, (), {})
                    closed(rep, names, perm, {(k if k else (0,)): x for k, x in res.items()}, fi, where, fi.node.lineno, 'asymmetric-result', unmapped)
                if o.id not in s2.objs:
                    continue
                now = s2.objs[o.id].fields
                fl = {}
                for k, x in now.items():
                    if SKIPF.match(k) or k.startswith('_') or not isinstance(x, N) or (perm is SWAP and not projected) != bool(PRO.search(k)) and not projected:
                        continue
                    sib = [k]
                    for _ in range(2):
                        sib.append(names.ren(sib[-1], CYCLE))
                    if all(now.get(q) is init.get(q) for q in sib):
                        continue
                    fl[k] = x.p
                closed(rep, names, perm, fl, fi, where, fi.node.lineno, 'asymmetric-state', unmapped)
    return rep.dump()


def kernels(W, rep):
    """compiled kernels over rows (x, y, z, m): the terms accumulated must not change when the first three columns are relabelled"""
    names = Names(W)
    for fi in c12.all_functions(W):
        if c12.jit(fi) is None:
            continue
        try:
            k = c12.Kernel(W, fi)
        except (c12.Unsupported, Fuel):
            k = None
        if k is None or not k.out:
            rep.skip('kernel:' + fi.full)
            continue
        rep.count('kernels')
        f = relabel(names, CYCLE)
        for target, ix, loops, ig, vg, term in k.out:
            rep.count('obligations')
            if P.subst(term, f) == term:
                rep.count('proved')
            elif judge.opaque(term):
                rep.skip('kernel:' + fi.full)
            else:
                rep.finding('asymmetric-kernel', fi.full, target, 'accumulates %s' % P.show(term)[:300], fi.mod.rel(), fi.node.lineno, fi.full)


def run(rep, root, tier):
    rep.rule = RULE
    W = World(root)
    W._template()
    L = ops(W)
    rep.count('operations', len(L))
    sts = [('pckms', 'centre'), ('kpckms', 'galaxy'), ('nbody', 'cluster')] if tier == 'quick' else [(u, a) for u in UNITS if u not in ('radec', 'amuse') for a in sweep.ORIGINS]
    tasks = [(fi, U, A, tier) for fi in L for U, A in sts]
    for d in pmap(lambda t: task(W, t), tasks):
        rep.merge(d)
    kernels(W, rep)
    return W.prog
