"""C09: arrays supplied by the caller are never modified, results are not arrays the cluster later modifies, analyses do not write star arrays."""
import ast
from .. import poly as P
from .. import sweep
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..report import Report
from . import c04, c08

RULE = ('abstract interpretation with buffer identities: every array argument of every public function and method is given its own buffer and '
        'every in-place store, augmented assignment, mutating method or out= argument reached is checked against the caller\'s buffers and, '
        'through a local name, against the arrays held by the cluster; at every exit results and kept arguments are checked against the '
        'attributes the package modifies in place')
FLOORS = {'runs': 600, 'functions': 120, 'array_arguments': 140}

UTIL = ['util.recipes', 'util.coordinates', 'util.units', 'util.plots', 'analysis.functions', 'analysis.profiles', 'analysis.orbits', 'tidaltail.tails']
# arguments that are single numbers, names or objects by their documentation
SCALAR = {'units', 'origin', 'filename', 'ctype', 'orbit', 'model', 'pot', 'cluster', 'self', 'method', 'centre_method', 'bintype', 'steptype',
          'alpha', 'xmin', 'xmax', 'nx', 'nrad', 'tfinal', 'dt', 'dmax', 'tphys', 'rad', 'rgc', 'zgc', 'rmin', 'rmax', 'mmin', 'mmax', 'vmin',
          'vmax', 'emin', 'emax', 'npop', 'ro', 'vo', 'zo', 'qvir', 'ounits', 'softening', 'mfrac', 'xstart', 'ystart', 'zstart', 'vxstart',
          'vystart', 'vzstart', 'xgc', 'ygc', 'zgc', 'vxgc', 'vygc', 'vzgc', 'wdir', 'ofile', 'tol', 'sigma', 'eps', 'kwmin', 'kwmax', 'dx',
          'xc', 'yc', 'zc', 'vxc', 'vyc', 'vzc', 'coord', 'units0', 'origin0', 'xlabel', 'ylabel', 'title', 'epsunits'}


def arrayish(fi, p):
    if p in SCALAR:
        return False
    d = fi.defaults.get(p)
    if d is None:
        return True
    if isinstance(d, ast.Constant):
        return d.value is None
    return isinstance(d, (ast.List, ast.Tuple))


def inplace_fields(prog):
    """attributes the package modifies in place somewhere (x.f op= .., x.f[..] = ..)"""
    out = set()
    for fi in prog.functions():
        for n in ast.walk(fi.node):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
                out.add(n.target.attr)
            tg = n.targets if isinstance(n, ast.Assign) else ([n.target] if isinstance(n, ast.AugAssign) else [])
            for t in tg:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute):
                    out.add(t.value.attr)
    return out


def argval(p):
    if p == 'bins':
        return T([N(P.atom('arg_%s%d' % (p, i)), 'a', frozenset((('param', p),))) for i in range(3)])
    return N(P.atom('arg_' + p), 'a', frozenset((('param', p),)), None, P.atom('ntot') if p in ('indx', 'ids', 'rorder0') else None)


def extra(W):
    """public functions that do not take a cluster first, and the single-quantity converters"""
    out = []
    for m in UTIL:
        if m not in [x.short for x in W.prog.mods.values()]:
            continue
        for name, L in W.prog.mod(m).binds.items():
            b = L[-1]
            if b[0] == 'func' and b[1].params and b[1].params[0] != 'cluster' and (not name.startswith('_') or name.startswith('_convert_') and m == 'util.units'):
                out.append(b[1])
    return out


def roots(buf):
    return sorted({b[1] for b in buf if isinstance(b, tuple) and b[0] == 'param'})


def holders(st, o, buf):
    out = set()
    for ob in st.objs.values():
        if ob.cls is None or ob.cls.name != 'StarCluster':
            continue
        for k, x in ob.fields.items():
            if isinstance(x, N) and x.kind == 'a' and x.buf & buf:
                out.add(k)
    return out


def hook(rep, where, live):
    def h(I, a, target, st, node):
        fi = I.callstack[-1] if I.callstack else None
        fn = fi.full if fi else '<module>'
        fl = fi.mod.rel() if fi else ''
        rep.count('stores')
        ps = roots(a.buf)
        if ps:
            for p in ps:
                entry = I.callstack[0]
                rep.finding('argument-modified', fn, '%s<-%s.%s' % (ast.unparse(target), entry.name, p),
                            'the array given as %s is modified in place by %s' % (p, ast.unparse(node)[:80]), fl, getattr(node, 'lineno', 0), where)
        if isinstance(target, ast.Attribute) or not isinstance(a, N) or a.kind != 'a':
            return
        held = holders(st, None, a.buf)
        for k in sorted(held):
            rep.finding('cluster-array-modified', fn, '%s is cluster.%s' % (ast.unparse(target), k),
                        'a local name for the cluster attribute %s is modified in place by %s' % (k, ast.unparse(node)[:80]), fl, getattr(node, 'lineno', 0), where)
    return h


def leaves(v):
    if isinstance(v, (T,)):
        for x in v.items:
            yield from leaves(x)
    elif isinstance(v, D):
        for x in v.items.values():
            yield from leaves(x)
    elif isinstance(v, N):
        yield v


def runs(fi, tier):
    """(label, arguments, number of array arguments)"""
    req = [p for p in fi.params + fi.kwonly if p not in fi.defaults and p not in ('self', 'cluster')]
    opts = [p for p in fi.params + fi.kwonly if p in fi.defaults]
    base = {p: argval(p) if p not in SCALAR else N(P.atom('p_' + p), 's') for p in req}
    flips = [p for p in opts if isinstance(fi.default_const(p), bool)]
    arrs = [p for p in opts if arrayish(fi, p)]
    out = [('defaults', base)]
    for b in flips:
        out.append(('%s=%s' % (b, not fi.default_const(b)), dict(base, **{b: C(not fi.default_const(b))})))
    for p in arrs:
        out.append(('%s given' % p, dict(base, **{p: argval(p)})))
        for b in flips if tier == 'thorough' else [b for b in flips if b in ('projected', 'plot', 'normalize')]:
            out.append(('%s given, %s=%s' % (p, b, not fi.default_const(b)), dict(base, **{p: argval(p), b: C(not fi.default_const(b))})))
    if len(arrs) > 1:
        out.append(('all array options given', dict(base, **{p: argval(p) for p in arrs})))
    return out


def task(W, t):
    fi, U, A, tier, inp = t
    rep = Report('C09')
    withc = fi.params[:1] in (['cluster'], ['self'])
    for lab, kw in runs(fi, tier):
        if U and tier == 'quick' and lab != 'defaults' and (U, A) not in c04.QUICK_OPT:
            continue
        if fi.name in ('to_units', 'to_origin') or 'units' in kw and isinstance(kw['units'], N):
            kw = dict(kw)
            for p, v in (('units', 'kpckms'), ('origin', 'galaxy')):
                if p in fi.params and p not in fi.defaults:
                    kw[p] = C(v)
        I = W.interp(skip=sweep.plots_private, fuel=150000 if tier == 'quick' else 600000)
        st = W.start()
        where = '%s%s, %s' % (fi.full, ' from (%s,%s)' % (U, A) if U else '', lab)
        args = []
        if U:
            o, s = c04.start(W, I, st, U, A)
        else:
            s = st
        if withc:
            args = [o]
        elif U:
            kw = dict(kw, cluster=o)
        I.on_mutate = hook(rep, where, None)
        I.muted = 0
        try:
            r = I.call_func(fi, args, dict(kw), s, None)
        except Fuel:
            rep.skip('fuel:%s %s' % (fi.full, lab))
            continue
        rep.count('runs')
        for v, s2 in r:
            rep.count('exits')
            if not U:
                continue
            f = s2.objs[o.id].fields
            bad = set()
            for k in sorted(inp):
                x = f.get(k)
                if not isinstance(x, N) or not x.buf or x.kind != 'a':
                    continue
                for p in roots(x.buf):
                    if fi.cls is not None:
                        rep.finding('argument-kept', fi.full, '%s<-%s' % (k, p), 'the array given as %s becomes cluster.%s, which the package modifies in place' % (p, k),
                                    fi.mod.rel(), fi.node.lineno, where)
                for y in leaves(v):
                    if y.kind == 'a' and y.buf & x.buf:
                        bad.add(k)
            for k in sorted(bad):
                rep.finding('result-aliases-cluster', fi.full, k, 'the result shares its memory with cluster.%s, which the package modifies in place' % k,
                            fi.mod.rel(), fi.node.lineno, where)
    return rep.dump()


def run(rep, root, tier):
    rep.rule = RULE
    W = World(root)
    W._template()
    inp = inplace_fields(W.prog) - {'rorder', 'rproorder'}
    L = c08.ops(W)
    X = extra(W)
    rep.count('functions', len(L) + len(X))
    rep.count('array_arguments', sum(1 for fi in L + X for p in fi.params + fi.kwonly if p not in ('self', 'cluster') and arrayish(fi, p)))
    states = c04.states(tier)
    tasks = [(fi, U, A, tier, inp) for fi in L for U, A in states]
    for fi in X:
        if 'cluster' in fi.params:
            tasks += [(fi, U, A, tier, inp) for U, A in states]
        else:
            tasks.append((fi, None, None, tier, inp))
    heavy = ('tail', 'orbital', 'prof')
    tasks.sort(key=lambda t: (0 if any(h in t[0].name for h in heavy) else 1, 0 if (t[1], t[2]) in c04.QUICK_OPT else 1))
    for d in pmap(lambda t: task(W, t), tasks):
        rep.merge(d)
    return W.prog
