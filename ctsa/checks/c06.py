"""C06: cluster methods and library functions are the same operation."""
import ast
import re
from .. import poly as P
from .. import sweep
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..report import Report

RULE = ('abstract interpretation of every cluster method that shares its name with a library function, with the function itself kept opaque: at '
        'every call that reaches the function each option of the method must be bound to the function option of the same name, options left out '
        'must be bound to the function default, and the opaque result must be what the method returns or stores, component by component')
FLOORS = {'pairs': 30, 'calls': 60, 'obligations': 400}

ALIAS = {'to_center': 'to_centre', 'subset': '_get_subset', 'orbit_interpolate': 'interpolate_orbit', 'orbits_interpolate': 'interpolate_orbits'}
MODS = ['cluster.operations', 'analysis.functions', 'analysis.orbits', 'tidaltail.tails', 'analysis.profiles', 'util.output', 'util.plots',
        'util.coordinates']


def pairs(W):
    out = []
    for n, fi in W.SC.methods.items():
        want = ALIAS.get(n, n)
        if n.startswith('_') or n in ('analyze', 'analyse'):
            continue
        for m in MODS + [None]:
            if m is None:
                cands = [x for x in W.prog.mods.values() if x.short not in MODS]
            else:
                cands = [x for x in W.prog.mods.values() if x.short == m]
            hit = None
            for x in cands:
                b = x.binds.get(want)
                if b and b[-1][0] == 'func' and b[-1][1].params[:1] == ['cluster']:
                    hit = b[-1][1]
            if hit:
                out.append((fi, hit))
                break
    return out


def leaves(v):
    return {a for a in topoly(v).atoms(True) if isinstance(a, str)}


def run_method(W, rep, fi, F, kw, U, A, fuel, **ckw):
    """-> list of (bound args, state) of the outermost calls of F and the results"""
    calls = []
    n = [0]

    def hook(I, f, b, st, node):
        if f is not F:
            return None
        n[0] += 1
        r = N(P.f('facade', F.name, n[0]))
        calls.append((b, getattr(node, 'lineno', 0), n[0]))
        return [(r, st)]
    I = W.interp(skip=sweep.plots_private, fuel=fuel)
    st = W.start()
    o = W.cluster(st, U, A, **ckw)
    s = W.analyzed(I, st, o)
    I.on_call = hook
    before = dict(s.objs[o.id].fields)
    try:
        r = I.call_func(fi, [o], dict(kw), s, None)
    except Fuel:
        rep.skip('fuel:' + fi.full)
        return None
    return I, calls, r, o, before


def want_default(I, F, p, st):
    return I.default_val(F, p, st)


def eqv(a, b):
    if isinstance(a, C) and isinstance(b, C):
        return a.v == b.v and isinstance(a.v, bool) == isinstance(b.v, bool)
    try:
        return topoly(a) == topoly(b)
    except Exception:
        return False


def returned(W, F, depth=0):
    """the expressions F returns; a call of another function of the package stands for what that one returns"""
    out = []
    assigned = {}
    for n in ast.walk(F.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            assigned.setdefault(n.targets[0].id, []).append(n.value)
    for n in ast.walk(F.node):
        if not isinstance(n, ast.Return):
            continue
        v = n.value
        if isinstance(v, ast.Name) and len(assigned.get(v.id, ())) == 1 and isinstance(assigned[v.id][0], (ast.Call, ast.Tuple)):
            v = assigned[v.id][0]
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and depth < 4:
            t = W.prog.resolve(F.mod.name, v.func.id)
            if t and t[0] == 'func' and t[1] is not F:
                out += returned(W, t[1], depth + 1)
                continue
        out.append(v)
    return out or [None]


def returns(W, F):
    """names in the returned tuples, if every return with a value is a tuple of the same names"""
    out = None
    for v in returned(W, F):
        if v is not None:
            if not isinstance(v, ast.Tuple) or not all(isinstance(x, ast.Name) for x in v.elts):
                return None
            t = [x.id for x in v.elts]
            if out is not None and out != t:
                return None
            out = t
    return out


def arity(W, F):
    return {0 if v is None or isinstance(v, ast.Constant) and v.value is None else len(v.elts) if isinstance(v, ast.Tuple) else 1 for v in returned(W, F)}


def task(W, t):
    fi, F, tier = t
    rep = Report('C06')
    rel, line = fi.mod.rel(), fi.node.lineno
    st_list = [('pckms', 'cluster'), ('kpckms', 'galaxy')] if tier == 'quick' else [(u, a) for u in UNITS for a in sweep.ORIGINS]
    base = {p: N(P.atom('req_' + p), 'n') for p in sweep.required(fi)}
    ops = sweep.options(fi)
    fpar = [p for p in F.params[1:] + F.kwonly]
    extra = [p for p in fpar if p not in fi.params + fi.kwonly] if fi.kwarg else []
    given = dict(base)
    for p in ops:
        given[p] = N(P.atom('opt_' + p), 'n')
    for p in extra:
        given[p] = N(P.atom('opt_' + p), 'n')
    if fi.kwarg and F.kwarg and forwards(F):
        given['other_keyword'] = N(P.atom('opt_other_keyword'), 'n')
    fuel = 150000 if tier == 'quick' else 600000
    runs = [('every option given', given, {})]
    for p in ops + extra:
        k = dict(base)
        k[p] = given[p]
        runs.append(('only %s given' % p, k, {}))
    for U, A in st_list:
        for lab, kw, ckw in runs:
            where = '%s from (%s,%s), %s' % (fi.full, U, A, lab)
            R = run_method(W, rep, fi, F, kw, U, A, fuel, **ckw)
            if R is None:
                continue
            I, calls, res, o, before = R
            rep.count('runs')
            for e in I.events:
                if e['kind'] == 'bind' and (e['name'] == F.full or not calls):
                    rep.finding('call-does-not-bind', fi.full, F.name, 'the call of %s fails: %s' % (F.full, e['detail']), rel, e.get('line') or line, where)
                elif e['kind'] == 'undefined' and not calls and fi.full in str(e.get('fn', '')):
                    rep.finding('call-fails', fi.full, F.name, 'the method fails before it reaches %s: %s' % (F.full, e.get('detail') or e['name']), rel,
                                e.get('line') or line, where)
            if not calls:
                rep.skip('function not called:%s' % fi.full)
                continue
            s0 = W.start()
            for b, ln, k in calls:
                rep.count('calls')
                if b.get('cluster') != o:
                    rep.skip('other cluster:%s' % fi.full)
                    continue
                full = dict(b)
                if F.kwarg and isinstance(b.get(F.kwarg), D):
                    full.update(b[F.kwarg].items)
                for p, v in kw.items():
                    if p not in fpar and not F.kwarg:
                        continue
                    rep.count('obligations')
                    if p not in full and decided_on(W, p, fi, F):
                        rep.skip('option decided:%s.%s' % (fi.full, p))
                    elif p not in full:
                        rep.finding('option-dropped', fi.full, p, 'option %s is given to the method but not passed on to %s' % (p, F.full), rel, ln, where)
                    elif eqv(full[p], v):
                        rep.count('proved')
                    elif ('opt_' + p if p not in base else 'req_' + p) in leaves(full[p]):
                        rep.finding('option-altered', fi.full, p, 'option %s reaches %s as %s' % (p, F.full, P.show(topoly(full[p]))[:120]), rel, ln, where) \
                            if definite(full[p]) else rep.skip('option:%s.%s' % (fi.full, p))
                    elif decided_on(W, p, fi, F):
                        rep.skip('option decided:%s.%s' % (fi.full, p))
                    else:
                        rep.finding('option-replaced', fi.full, p, 'option %s of the method reaches %s as %r' % (p, F.full, show(full[p])), rel, ln, where)
                for p in fpar:
                    if p in kw or p not in F.defaults:
                        continue
                    rep.count('obligations')
                    if p not in full:
                        rep.count('proved')
                        continue
                    d = want_default(I, F, p, s0)
                    if eqv(full[p], d) or same_attr(full[p], before, p):
                        rep.count('proved')
                    elif any(q.startswith(('opt_', 'req_')) for q in leaves(full[p])):
                        q = sorted(q for q in leaves(full[p]) if q.startswith(('opt_', 'req_')))[0]
                        rep.finding('option-crossed', fi.full, p, 'option %s of %s receives %s' % (p, F.full, q[4:]), rel, ln, where)
                    elif p in fi.params and isinstance(full[p], (C, N)) and known(full[p]) and known(d):
                        rep.finding('default-differs', fi.full, p, 'left out, %s is passed as %s; the default of %s is %s'
                                    % (p, show(full[p]), F.full, show(d)), rel, ln, where)
                    elif known(full[p]) and known(d):
                        rep.finding('option-hard-coded', fi.full, p, '%s is passed as %s; the default of %s is %s' % (p, show(full[p]), F.full, show(d)),
                                    rel, ln, where)
                    else:
                        rep.skip('default:%s.%s' % (fi.full, p))
            results(W, rep, fi, F, I, calls, res, o, before, where, rel, line)
    return rep.dump()


def axis(name):
    m = re.match(r'(v?[xyz])(?![a-z]*[xyz])', name)
    return m.group(1) if m else None


def forwards(F):
    return any(isinstance(n, ast.keyword) and n.arg is None and isinstance(n.value, ast.Name) and n.value.id == F.kwarg for n in ast.walk(F.node))


def definite(v):
    return isinstance(v, N) and not [a for a in leaves(v) if not a.startswith(('opt_', 'req_'))] and 'phi' not in repr(v.p)


def known(v):
    return isinstance(v, C) or isinstance(v, N) and v.p.const() is not None


def show(v):
    return repr(v.v) if isinstance(v, C) else P.show(topoly(v))[:80]


def same_attr(v, before, p):
    for k in (p, '_' + p, 'projected' if p == 'projected' else p):
        if k in before and eqv(v, before[k]):
            return True
    return False


def decided_on(W, p, fi, F, depth=0):
    """the method compares or tests the option itself, so a fixed value may be what that branch means"""
    for n in ast.walk(fi.node):
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            for c in ast.walk(n.test):
                if isinstance(c, ast.Name) and c.id == p:
                    t = n.test
                    if isinstance(t, ast.Compare) and len(t.comparators) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                        continue        # the value given here is never None
                    return True
    # or hands it to a helper that does
    for n in ast.walk(fi.node) if depth < 4 else ():
        if isinstance(n, ast.Call):
            g, skip = None, 0
            if isinstance(n.func, ast.Name):
                t = W.prog.resolve(fi.mod.name, n.func.id)
                g = t[1] if t and t[0] == 'func' else None
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                g, skip = W.SC.methods.get(n.func.attr), 1
            if g is None or g is F or g is fi:
                continue
            for k, a in enumerate(n.args):
                if isinstance(a, ast.Name) and a.id == p and k + skip < len(g.params) and decided_on(W, g.params[k + skip], g, F, depth + 1):
                    return True
            for a in n.keywords:
                if a.arg and isinstance(a.value, ast.Name) and a.value.id == p and decided_on(W, a.arg, g, F, depth + 1):
                    return True
    return False


def result_items(v, tag):
    """index of the component of the opaque result v is, 'all' if it is the whole result, or None"""
    if not isinstance(v, N):
        return None
    a = v.p.atom()
    if not isinstance(a, tuple):
        return None
    if a[1] == 'facade':
        return 'all'
    if a[1] in ('item', 'idx', 'getitem', 'unpack') and isinstance(a[2], P.Poly):
        b = a[2].atom()
        if isinstance(b, tuple) and b[1] == 'facade':
            k = a[3]
            k = int(k) if isinstance(k, float) else k
            if isinstance(k, P.Poly):
                k = k.const()
                k = int(k) if k is not None else None
            return k if isinstance(k, int) else None
    return None


def mentions(v, depth=0):
    if isinstance(v, T):
        return any(mentions(x) for x in v.items)
    if isinstance(v, D):
        return any(mentions(x) for x in v.items.values())
    if isinstance(v, N):
        return any(isinstance(a, tuple) and a[1] == 'facade' for a in v.p.atoms(True))
    return False


def results(W, rep, fi, F, I, calls, res, o, before, where, rel, line):
    names = returns(W, F)
    ar = arity(W, F)
    for v, s in res:
        rep.count('obligations')
        f = s.objs[o.id].fields
        stored = {k: x for k, x in f.items() if x is not before.get(k) and mentions(x)}
        if ar <= {0}:
            rep.count('proved')
            continue
        if not mentions(v) and not stored:
            if len(calls) and len(res) == 1:
                rep.finding('result-dropped', fi.full, F.name, 'the method neither returns nor stores what %s returned' % F.full, rel, line, where)
            else:
                rep.skip('result:%s' % fi.full)
            continue
        ok = True
        if isinstance(v, T) and not v.lst and len(v.items) > 1:
            idx = [result_items(x, 0) for x in v.items]
            if all(isinstance(i, int) for i in idx):
                if idx != list(range(len(idx))) or (len(ar) == 1 and max(ar) not in (len(idx),) and max(ar) > 1):
                    ok = False
                    rep.finding('result-reordered', fi.full, F.name, 'the method returns components %s of the result of %s' % (idx, F.full), rel, line, where)
        for x in (v.items if isinstance(v, T) else [v]):
            if mentions(x) and result_items(x, 0) is None:
                if isinstance(x, N) and not any(isinstance(a, tuple) and a[1] == 'phi' for a in x.p.atoms(True)):
                    ok = False
                    rep.finding('result-altered', fi.full, F.name, 'the method returns %s, not what %s returned' % (P.show(x.p)[:160], F.full), rel, line, where)
                else:
                    rep.skip('result form:%s' % fi.full)
        if names:
            for k, x in stored.items():
                i = result_items(x, 0)
                if isinstance(i, int) and (k in names and names.index(k) != i or i < len(names) and axis(k) and axis(names[i]) and axis(k) != axis(names[i])):
                    ok = False
                    rep.finding('result-misfiled', fi.full, k, 'attribute %s holds component %d of the result of %s, which names it %s'
                                % (k, i, F.full, names[i] if i < len(names) else '?'), rel, line, where)
        # one attribute, one component
        seen = {}
        for k, x in stored.items():
            i = result_items(x, 0)
            if isinstance(i, int):
                if i in seen:
                    rep.skip('stored twice:%s' % fi.full)
                seen[i] = k
        if ok:
            rep.count('proved')


def run(rep, root, tier):
    rep.rule = RULE
    W = World(root)
    W._template()
    L = pairs(W)
    rep.count('pairs', len(L))
    rep.sample({'pairs': [(a.name, b.full) for a, b in L]})
    for d in pmap(lambda t: task(W, t), [(a, b, tier) for a, b in L]):
        rep.merge(d)
    return W.prog
