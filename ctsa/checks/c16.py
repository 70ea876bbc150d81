"""C16: snapshot loading and advancing use one consistent description of the source."""
import ast
import re
from .. import poly as P
from .. import judge, sweep
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..report import Report

RULE = ('interprocedural value flow by abstract interpretation, for every source type load_cluster distinguishes and every load option: load_cluster is '
        'run with each option bound to a value of its own, the readers and the StarCluster constructor are run on what load_cluster hands them, and '
        'advance_cluster is run on the cluster that results; the reader reached on advancing, each option, the units, the origin and the orbit file it '
        'is handed, and the file names it is built from, must be those of the load with only the snapshot number moved on; the cluster left when there '
        'is no further snapshot must still describe the same source')
FLOORS = {"advances": 70, "constructions": 760, "obligations": 4000, "options": 5000, "readers": 320, "source types": 6}

KINDS = {'bind', 'undefined', 'unbound', 'keyerror'}
# model realisations and orbit ensembles made in memory: there is no next snapshot
DERIVED = {'io.limepydf:_get_limepy', 'io.galpydf:_get_galpy_orbits'}
# the position in the sequence of snapshots and the objects being read, as opposed to how they are described
POSITION = {'nsnap', 'ngroup', 'ngroups', 'tphys', 'dt', 'sfile', 'bfile', 'ssefile', 'bsefile', 'ofile', 'ofilename', 'filename', 'nbody6list', 'orbit',
            'advance', 'hdf5', 'deltat', 'initialize', 'units', 'origin', 'ctype', 'particles', 'table', 'orbits', 'load_function', 'snap40', 'conf3', 'bev82',
            'sev83', 'filein', 'out3', 'out33', 'fort82', 'fort83', 'self', 'cluster', 'return_alist_only', 'f'}
# set by the readers after the cluster has been made
POST = ('hdf5', 'ngroups', 'ngroup', 'sfile', 'bfile', 'ssefile', 'bsefile')
SETTINGS = ('ctype', 'units_init', 'origin_init', 'delimiter', 'wdir', 'nzfill', 'snapbase', 'snapend', 'snapdir', 'skiprows', 'projected', 'give', '_ro',
            '_vo', '_zo', '_solarmotion', 'centre_method')


def get_keys(fi):
    """-> {key: default node or None} of X.get('k'[, d]) / X.pop('k'[, d]) on the keyword dictionary of fi"""
    out = {}
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'pop') and isinstance(n.func.value, ast.Name) \
                and n.func.value.id == fi.kwarg and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            out.setdefault(n.args[0].value, n.args[1] if len(n.args) > 1 else None)
    return out


def reach(prog, fi, depth=3):
    """fi and the functions of the io package it hands its keyword dictionary to"""
    out, work = [], [(fi, depth)]
    while work:
        f, d = work.pop()
        if f in out:
            continue
        out.append(f)
        if d == 0 or not f.kwarg:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and any(k.arg is None for k in n.keywords):
                r = prog.resolve(f.mod.name, n.func.id)
                if r and r[0] == 'func' and r[1].mod.short.startswith('io.'):
                    work.append((r[1], d - 1))
                elif r and r[0] == 'class' and '__init__' in r[1].methods:
                    work.append((r[1].methods['__init__'], 0))
    return out


def consults(W, fi):
    out = {}
    for f in reach(W.prog, fi):
        for k, d in get_keys(f).items():
            out.setdefault(k, []).append((f, d))
        if f.name != '__init__':
            for p in sweep.options(f):
                out.setdefault(p, []).append((f, f.defaults.get(p)))
    return {k: v for k, v in out.items() if k not in POSITION}


def token(W, k, uses):
    """a value for option k that is not its default: a literal where the code compares it, else an unknown of its own"""
    d = None
    lits = set()
    for f, n in uses:
        if isinstance(n, ast.Constant):
            d = n.value if d is None else d
        for m in ast.walk(f.node):
            if isinstance(m, ast.Compare) and len(m.ops) == 1:
                names = {x.id for x in ast.walk(m.left) if isinstance(x, ast.Name)} | {x.value for x in ast.walk(m.left)
                                                                                       if isinstance(x, ast.Constant) and isinstance(x.value, str)}
                if k in names:
                    lits |= {x.value for x in ast.walk(m.comparators[0]) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    if isinstance(d, bool):
        return C(not d)
    if k == 'projected':
        return C(True)
    if isinstance(d, str) and k in ('wdir', 'snapdir', 'snapbase', 'snapend', 'delimiter'):
        return C('option_' + k)
    lits = sorted(x for x in lits if x and x != d and len(x) > 1)
    if lits:
        return C(lits[-1])
    if k.endswith(('names', 'nums')):
        return T([C('m'), C('x')] if k.endswith('names') else [N(P.num(7), 's'), N(P.num(8), 's')])
    if k in ('dtout', 'nzfill'):
        return N(P.num(3), 's')
    return N(P.atom('option_' + k), 's')


KNOWN_TYPES = {'amuse', 'astropy_table', 'galpy', 'gyrfalcon', 'limepy', 'nbody6', 'nbody6++', 'nbody6pp', 'nemo', 'new_gyrfalcon', 'new_nemo', 'snapshot'}


def types(W, L):
    """source types: the names load_cluster compares ctype with, and known ones its module mentions outside docstrings"""
    out = set()
    for n in ast.walk(L.mod.tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.In)) and any(
                isinstance(x, ast.Name) and x.id == 'ctype' for x in ast.walk(n.left)):
            out |= {x.value for x in ast.walk(n.comparators[0]) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        elif isinstance(n, ast.Constant) and n.value in KNOWN_TYPES:
            out.add(n.value)
    d = L.default_const('ctype')
    if isinstance(d, str):
        out.add(d)
    return sorted(out)


def flat(b):
    out = {}
    for k, v in b.items():
        if isinstance(v, D):
            out.update({q: w for q, w in v.items.items()} if isinstance(v.items, dict) else dict(v.items))
        else:
            out[k] = v
    return out


def vkey(v):
    if isinstance(v, T):
        return '(' + ','.join(vkey(x) for x in v.items) + ')'
    if isinstance(v, N):
        return repr(v.p.key())
    return repr(v)


def key(b):
    return repr(sorted((k, vkey(v)) for k, v in b.items()))


def norm(x):
    if isinstance(x, P.Poly):
        return '+'.join(sorted('%s*%s' % (c, '*'.join('%s^%s' % (norm(a), e) for a, e in m)) for m, c in x.key()))
    if isinstance(x, tuple):
        return '(' + ','.join(norm(y) for y in x) + ')'
    return str(x)


FILES = ('os.path.isfile', 'os.path.exists', 'builtins.open', 'numpy.loadtxt', 'h5py.File', 'amuse.io.read_set_from_file', 'numpy.genfromtxt')


# the file each source argument of the binary readers is to be opened on
ROLES = {'out3': r'OUT3(?!3)', 'out33': r'OUT33', 'fort82': r'fort\.82', 'fort83': r'fort\.83', 'conf3': r'conf\.3', 'bev82': r'bev\.82', 'sev83': r'sev\.83',
         'snap40': r'snap\.40'}


def okey(b):
    return '; '.join(norm(topoly(b.get(p, NONE))) for p in ('xgc', 'ygc', 'zgc', 'vxgc', 'vygc', 'vzgc'))


class Pipe:
    """the load -> read -> construct -> advance chain of one source type"""

    def __init__(self, W, rep, fuel):
        self.W, self.rep, self.fuel = W, rep, fuel
        self.tables, self.customs = [], []
        self.L = W.prog.func('io.load', 'load_cluster')
        self.A = W.prog.func('io.load', 'advance_cluster')
        self.ctor = W.SC.methods['__init__']
        self.io = {f.full for m in W.prog.mods.values() if m.short.startswith('io.') and m.short != 'io.load'
                   for f in [b[-1][1] for b in m.binds.values() if b[-1][0] == 'func']}

    def interp(self):
        return self.W.interp(skip=sweep.plots_private, fuel=self.fuel)

    def is_reader(self, I, f):
        return f.mod.short.startswith('io.') and f.mod.short != 'io.load' and bool(I.callstack) and I.callstack[-1].mod.short == 'io.load'

    def opaque(self, f, I=None):
        """operations of the cluster itself play no part in the description of the source"""
        return f.mod.short.startswith(('cluster.', 'analysis.', 'util.', 'tidaltail.')) and f is not self.ctor and f.name not in ('save_cluster', 'return_cluster') and not (
            I is not None and any(g.name in ('save_cluster', 'return_cluster') for g in I.callstack))

    def files(self, names):
        def ext(I, name, args, kwargs, node):
            if name in FILES and args:
                try:
                    t = norm(topoly(args[0]))
                except Exception:
                    return None
                if name in ('numpy.loadtxt', 'numpy.genfromtxt') and 'skiprows' in kwargs:
                    self.tables.append((t, kwargs['skiprows'], kwargs.get('max_rows')))
                if 'phi' not in t and 'cont/' not in t:
                    names.setdefault(t, (name, getattr(node, 'lineno', 0), I.callstack[-1].full if I.callstack else ''))
            return None
        return ext

    def custom(self, I, p, args, kwargs, st, node):
        """a call of the load_function the user supplied"""
        if 'load_function' not in norm(p):
            return None
        kw = {k: v for k, v in kwargs.items() if k is not None}
        rest = kwargs.get(None)
        if isinstance(rest, D):
            kw.update(rest.items)
        self.customs.append((kw, getattr(node, 'lineno', 0)))
        made = {k: v for k, v in kw.items() if k not in ('filename', 'particles', 'orbit', 'advance')}
        cb, I.on_call = I.on_call, None
        out = []
        try:
            for v, s in I.call(K(self.W.SC), [], made, st, None):
                if isinstance(v, O):
                    s.objs[v.id].fields['ntot'] = N(P.atom('ntot'), 's')
                    out.append((v, s))
        finally:
            I.on_call = cb
        return out

    def note(self, I, where):
        for e in I.events:
            if e['kind'] in KINDS and not e.get('intry'):
                self.events.append((e, where))

    def build(self, I, st, b, full, reader):
        """cluster object made by the constructor call recorded as b"""
        kw = {k: v for k, v in b.items() if k != 'self'}
        out = []
        cb, I.on_call = I.on_call, None
        try:
            for v, s in I.call(K(self.W.SC), [], kw, st, None):
                if isinstance(v, O):
                    s.objs[v.id].fields.update({q: w for q, w in self.post.get(reader, {}).items() if w is not None})
                    s.objs[v.id].fields['tphys'] = N(P.atom('tphys'), 's')
                    s.objs[v.id].fields['ntot'] = N(P.atom('ntot'), 's') if full else N(P.num(0), 's')
                    out.append((v, s))
        finally:
            I.on_call = cb
        return out

    # -- stage 1: what load_cluster / advance_cluster hand to the readers
    def load(self, kw, made=None):
        calls, results = {}, []
        orb = set()

        def hook(I, f, b, st, node):
            if self.is_reader(I, f):
                fb = flat(b)
                calls.setdefault(f.full + key(fb), (f, dict(b), fb, getattr(node, 'lineno', 0)))
                if made is None:
                    return [(N(P.f('reader', f.name)), st)]
                out = []
                for c in made.get((f.full, True), [])[:1]:
                    out += self.build(I, st, c, True, f.full)
                return out
            if f.name == 'add_orbit':
                orb.add(okey(b))
            if self.opaque(f, I):
                return [(N(P.f('op', f.name)), st)]
            return None
        I = self.interp()
        I.on_call = hook
        I.call_model = self.custom
        names = {}
        I.on_ext = self.files(names)
        try:
            results = I.call_func(self.L, [], dict(kw), self.W.start(), None)
        except Fuel:
            self.rep.skip('fuel:load_cluster')
        self.note(I, 'load_cluster')
        return list(calls.values()), results, I, orb, names

    def advance(self, I0, o, st, made):
        """-> reader calls, restarts, file names, orbit additions of one advance from object o in state st"""
        calls, again, names, orb = {}, {}, {}, set()

        def hook(I, f, b, st, node):
            if f is self.L:
                fb = flat(b)
                again.setdefault(key(fb), (fb, getattr(node, 'lineno', 0)))
                return [(N(P.f('restart')), st)]
            if self.is_reader(I, f):
                fb = flat(b)
                calls.setdefault(f.full + key(fb), (f, dict(b), fb, getattr(node, 'lineno', 0)))
                out = []
                for full in (True, False):
                    for c in made.get((f.full, full), [])[:1]:
                        out += self.build(I, st.copy(), c, full, f.full)
                return out or [(N(P.f('reader', f.name)), st)]
            if f.name == 'add_orbit':
                orb.add(okey(b))
            if self.opaque(f, I):
                return [(N(P.f('op', f.name)), st)]
            return None
        I = self.interp()
        I.on_call = hook
        I.call_model = self.custom
        I.on_ext = self.files(names)
        kw = dict(self.extra)
        old = False
        st.objs[o.id].fields['_old'] = C(True)
        try:
            for v, s in I.call_func(self.A, [o], kw, st, None):
                if isinstance(v, O) and '_old' in s.objs[v.id].fields:
                    old = True
        except Fuel:
            self.rep.skip('fuel:advance_cluster')
        self.note(I, 'advance_cluster')
        return list(calls.values()), list(again.values()), names, orb, old

    # -- stage 2: what a reader hands to the constructor and to the orbit reader
    def read(self, f, b, where):
        ctors, orbs, filled = {}, {}, set()

        def hook(I, g, bb, st, node):
            if g is self.ctor:
                fb = flat(bb)
                me = fb.pop('self', None)
                k = key(fb)
                ctors.setdefault(k, (fb, []))[1].append(getattr(node, 'lineno', 0))
                if isinstance(me, O):
                    st.objs[me.id].fields['_site'] = C(getattr(node, 'lineno', 0))
                return None
            if g.mod.short == 'io.orbit':
                fb = flat(bb)
                orbs.setdefault(key(fb), (fb, getattr(node, 'lineno', 0), g))
                return [(NONE, st)]
            if g.name == 'add_stars' and isinstance(bb.get('self'), O):
                st.objs[bb['self'].id].fields['ntot'] = N(P.atom('ntot'), 's')
                site = st.objs[bb['self'].id].fields.get('_site')
                if isinstance(site, C):
                    filled.add(site.v)
            if self.opaque(g, I):
                return [(N(P.f('op', g.name)), st)]
            return None
        I = self.interp()
        I.on_call = hook
        names = {}
        I.on_ext = self.files(names)
        args = dict(b)
        kw = args.pop(f.kwarg, None) if f.kwarg else None
        if isinstance(kw, D):
            args.update(kw.items if isinstance(kw.items, dict) else dict(kw.items))
        try:
            for o, s in I.call_func(f, [], args, self.W.start(), None):
                if isinstance(o, O) and s.objs[o.id].fields.get('ntot') != N(P.num(0), 's'):
                    self.post.setdefault(f.full, {q: s.objs[o.id].fields.get(q) for q in POST})
        except Fuel:
            self.rep.skip('fuel:' + f.full)
        self.note(I, where)
        # a construction with the same arguments can occur for an empty and for a filled cluster
        out = []
        for k, (fb, lns) in ctors.items():
            for full in sorted({ln in filled for ln in lns}, reverse=True):
                out.append((fb, [ln for ln in lns if (ln in filled) == full][0], full))
        return out, list(orbs.values()), names


def show(v):
    return 'nothing' if v is None else str(v)[:60]


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, C) and isinstance(b, C):
        return a.v == b.v
    if isinstance(a, T) and isinstance(b, T):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    try:
        x, y = topoly(a), topoly(b)
    except Exception:
        return False
    return x == y


def atoms(v):
    try:
        return topoly(v).atoms(True)
    except Exception:
        return set()


def carries(v, tok):
    """v is the token, or computed from it (int(token), a path made from it)"""
    if same(v, tok):
        return True
    if isinstance(tok, C) and isinstance(tok.v, str) and tok.v.startswith('option_'):
        return tok.v in vkey(v)
    if isinstance(tok, N):
        return bool(atoms(tok) & atoms(v))
    return False


def find(rep, rule, fi, construct, detail, line, where):
    rep.finding(rule, fi.full, construct, detail, fi.mod.path, line or fi.node.lineno, where)


def task(W, t, ev=None):
    ct, U, A, given, src, tier = t
    rep = Report('C16')
    pp = Pipe(W, rep, 150000 if tier == 'quick' else 600000)
    pp.events, pp.extra, pp.post = ev if ev is not None else [], {}, {}
    L, AD = pp.L, pp.A
    where = 'ctype=%s, units=%s, origin=%s, %s, %s' % (ct, U, A, 'all options given' if given else 'options left out', src)
    of = N(P.atom('orbit_file'), 's')
    base = dict(ctype=C(ct), units=C(U), origin=C(A), ofile=of, wdir=C('option_wdir'))
    n0 = 5 if given else 0
    if given:
        base['nsnap'] = N(P.num(5), 's')
    if 'orbit' in src:
        base.update(orbit=N(P.atom('galpy_orbit'), 's'))
        del base['ofile']
    if 'particles' in src:
        base['particles'] = N(P.atom('particles'), 's')
    if 'hdf5' in src:
        base['hdf5'] = C(True)
    calls, _, _, _, _ = pp.load(base)
    readers = {f.full: f for f, _, _, _ in calls}
    if not readers:
        rep.skip('no reader for ' + ct)
        return rep.dump()
    rep.sample('%s: %s' % (ct, ', '.join(sorted(readers))))
    readers = {n: f for n, f in readers.items() if 'advance' in f.params}
    readers = {n: f for n, f in readers.items() if n not in DERIVED}
    if not readers:
        if ev is not None:
            for f, b, _, _ in calls:
                pp.read(f, b, f.full)
        return rep.dump()            # a model realisation or a table: there is no next snapshot
    uses = {}
    for f in readers.values():
        for k, u in consults(W, f).items():
            uses.setdefault(k, []).extend(u)
    toks = {k: token(W, k, u) for k, u in uses.items()}
    kw = dict(base)
    if given:
        kw.update({k: v for k, v in toks.items() if k not in base})
        calls, _, _, _, _ = pp.load(kw)
    toks = {k: kw[k] for k in toks if k in kw}
    rep.count('source types', len({ct}) if given and src == 'file' and (U, A) == ('pckms', 'galaxy') else 0)
    seen = {}
    made, fnames, rid, rargs, fulls, first = {}, {}, None, {}, [], {}
    for f, b, fb, ln in calls:
        rid = f
        rep.count('readers')
        rargs.setdefault(f.full, fb)
        for k, tv in toks.items():
            if k in L.params:
                continue
            rep.count('options')
            if not carries(fb.get(k), tv):
                find(rep, 'option-not-passed', L, '%s %s' % (f.name, k), 'the %s option given to load_cluster reaches %s as %s' % (k, f.name, show(fb.get(k))), ln, where)
        for k, v in (('units', C(U)), ('origin', C(A)), ('ofile', kw.get('ofile'))):
            if k in f.params and v is not None:
                rep.count('obligations')
                if not same(fb.get(k), v):
                    find(rep, 'source-not-passed', L, '%s %s' % (f.name, k), 'load_cluster hands %s to %s as %s instead of what it was given' % (
                        k, f.name, show(fb.get(k))), ln, where)
        roles(rep, f, fb, ln, where)
        pp.tables = []
        ctors, orbs, _ = pp.read(f, b, f.full)
        first.setdefault(f.full, []).extend(pp.tables)
        for c, cl, full in ctors:
            rep.count('constructions')
            made.setdefault((f.full, full), []).append(c)
            if full:
                fulls.append((f, c, cl))
            want = {k: v for k, v in toks.items() if full and (k in get_keys(pp.ctor) or k in pp.ctor.params)}
            want['wdir'] = kw['wdir']
            if 'units' in f.params:
                want.update(units=C(U), origin=C(A))
            for k, v in want.items():
                rep.count('obligations')
                if k in fb and same(fb[k], v) and not carries(c.get(k), v):
                    find(rep, 'setting-dropped', f, '%s%s' % ('' if full else 'empty cluster ', k),
                         'the cluster is made with %s %s although the reader was given another value: advancing uses the wrong one' % (k, show(c.get(k))), cl, where)
        cts = {repr(c.get('ctype')) for c, _, _ in ctors}
        rep.count('obligations')
        if len(cts) > 1:
            find(rep, 'source-type', f, 'ctype', 'the cluster returned says its source is %s depending on the path' % ' or '.join(sorted(cts)), ctors[0][1], where)
        if kw.get('ofile') is not None and 'ofile' in f.params and same(fb.get('ofile'), of):
            seen.setdefault((f, 'loading'), []).extend(orbs)
            orbit_calls(W, rep, pp, f, fb, orbs, toks, C(False), where)
    # the files a load of the next snapshot with the same options would look for
    step = int(toks['dtout'].p.key()[0][1]) if 'dtout' in toks else 1
    for n in {n0 + step} | ({n0} if 'hdf5' in src else set()):
        c2, _, _, _, names = pp.load(dict(kw, nsnap=N(P.num(n), 's')))
        fnames.update(names)
        for f, b, _, _ in c2:
            fnames.update(pp.read(f, b, f.full)[2])
    # the cluster load_cluster returns
    _, res, I, orb0, _ = pp.load(kw, made)
    done = set()
    for o, s in res:
        if not isinstance(o, O):
            continue
        F = s.objs[o.id].fields
        k = key({q: F[q] for q in SETTINGS + ('ofile', 'nsnap') if q in F})
        if k in done:
            continue
        done.add(k)
        # the user has since moved it to other units and another origin
        if 'dt' in F:
            F['dt'] = N(P.atom('cluster_dt'), 's')
        F['units'], F['origin'] = C('pcmyr' if U != 'pcmyr' else 'kpckms'), C('centre' if A != 'centre' else 'cluster')
        pp.extra = {'orbit': kw['orbit']} if 'orbit' in kw else {}
        c1, again, anames, orb1, old = pp.advance(I, o, s, made)
        rep.count('advances')
        rep.count('obligations')
        if old:
            find(rep, 'not-advanced', AD, rid.name, 'on some path the cluster handed in is returned as if it were the next snapshot', 0, where)
        ctt = F.get('ctype')
        if not c1 and ({'advance', 'filename'} <= set(rid.params) or any('call:' in vkey(v) for v in rargs[rid.full].values())):
            find(rep, 'no-reader', AD, show(ctt), 'a cluster read by %s cannot be advanced: no reader is called for source type %s' % (rid.name, show(ctt)), 0, where)
        for f, b, fb, ln in c1:
            if f.full not in rargs:
                find(rep, 'other-reader', AD, f.name, 'a cluster read by %s is advanced with %s' % (', '.join(sorted(rargs)), f.name), ln, where)
                continue
            fl = rargs[f.full]
            if 'nsnap' in fb:
                rep.count('obligations')
                if not any(same(fb['nsnap'], N(P.num(n), 's')) for n in ({n0 + step} | ({n0} if 'hdf5' in src else set()))):
                    find(rep, 'snapshot-number', AD, f.name, 'snapshot %d is followed by snapshot %s instead of %d' % (n0, show(fb['nsnap']), n0 + step), ln, where)
            roles(rep, f, fb, ln, where)
            for q in f.params:
                # what is being read goes where it went on loading
                o = [p for p in f.params if p != q and p in fl and isinstance(fl[p], N) and q in fb and same(fb[q], fl[p])]
                if q in fl and isinstance(fl[q], N) and o and not same(fb.get(q), fl[q]):
                    find(rep, 'source-role', AD, '%s %s' % (f.name, q), 'on advancing the reader is given as %s what it was given as %s on loading' % (q, o[0]), ln, where)
            if 'dt' in F and any('dt' in get_keys(g) for g in reach(W.prog, f)):
                rep.count('options')
                if not carries(fb.get('dt'), F['dt']):
                    find(rep, 'option-lost', AD, '%s dt' % f.name, 'the time step of the cluster is not handed to the reader on advancing (it is given %s)' % show(fb.get('dt')), ln, where)
            if 'hdf5' in src and 'nsnap' in fb and same(fb['nsnap'], N(P.num(n0), 's')) and step:
                rep.count('obligations')
                g0 = topoly(F.get('ngroup', NONE)).const()
                g1 = topoly(fb.get('ngroup', NONE)).const()
                if g0 is not None and g1 is not None and g1 != g0 + 1:
                    find(rep, 'snapshot-number', AD, '%s group' % f.name, 'group %s of a file is followed by group %s' % (g0, g1), ln, where)
            for q in sorted(set(uses)):
                if q in POSITION:
                    continue
                rep.count('options')
                if q in toks:
                    ok = carries(fb.get(q), toks[q])
                elif q in fl and q in fb:
                    ok = same(fb.get(q), fl[q])
                elif q in fl:
                    ds = [d for g, d in uses[q] if g is f]
                    ok = not ds or any(not isinstance(d, ast.Constant) or same(W.interp().lit(d.value), fl[q]) for d in ds)
                elif q in fb:
                    ds = [W.interp().lit(d.value) for g, d in uses[q] if g is f and isinstance(d, ast.Constant)]
                    ok = not ds or any(same(fb[q], d) for d in ds) or {str(fb[q]), str(ds[0])} <= {"C('')", "C('./')"}
                else:
                    ok = True
                if not ok:
                    find(rep, 'option-lost', AD, '%s %s' % (f.name, q), 'on loading %s was %s; on advancing the reader is given %s' % (
                        q, show(toks.get(q, fl.get(q)) if q in toks or q in fl else uses[q][0][1] and ast.unparse(uses[q][0][1])), show(fb.get(q))), ln, where)
            for q, v in (('units', C(U)), ('origin', C(A)), ('ofile', kw.get('ofile')), ('advance', C(True))):
                if q in f.params and v is not None and q in fl or q == 'advance' and q in f.params:
                    rep.count('obligations')
                    if not same(fb.get(q), v):
                        find(rep, 'source-lost', AD, '%s %s' % (f.name, q), 'on advancing the reader is given %s %s' % (q, show(fb.get(q))), ln, where)
            pp.tables = []
            ctors, orbs, names = pp.read(f, b, f.full + ' (advancing)')
            if n0 == 0 and step == 1:
                skips(rep, f, first.get(f.full, []), pp.tables, where)
            anames.update(names)
            for c, cl, full in ctors:
                rep.count('constructions')
                want = {q: F[q] for q in ('ctype',)}
                if 'units' in f.params:
                    want.update(units=C(U), origin=C(A))
                want['wdir'] = kw['wdir']
                for q, v in want.items():
                    rep.count('obligations')
                    if not carries(c.get(q), v):
                        find(rep, 'setting-dropped', f, '%s%s advancing' % ('' if full else 'empty cluster ', q),
                             'after advancing the cluster has %s %s' % (q, show(c.get(q))), cl, where)
            if kw.get('ofile') is not None and 'ofile' in f.params and same(fb.get('ofile'), of):
                seen.setdefault((f, 'advancing'), []).extend(orbs)
                orbit_calls(W, rep, pp, f, fb, orbs, toks, C(True), where)
        if anames:
            for q in sorted(set(anames) - set(fnames)):
                n, ln, fn = anames[q]
                rep.count('obligations')
                find(rep, 'file-name', AD, '%s %s' % (rid.name, fn.split(':')[-1]), 'advancing looks for a file no load with the same options would look for: %s' % q[:300], ln, where)
        for fb, ln in again:
            rep.count('restarts')
            for q in sorted(toks):
                if q not in L.params and q not in ('wdir', 'ofilename'):
                    rep.count('options')
                    if not carries(fb.get(q), toks[q]):
                        find(rep, 'restart', AD, '%s %s' % (rid.name, q), 'a restart is loaded with %s %s instead of what was given on loading' % (q, show(fb.get(q))), ln, where)
            for q, v in (('ctype', F.get('ctype')), ('units', C(U)), ('origin', C(A))):
                if q in ('units', 'origin') and 'units' not in rid.params:
                    continue
                rep.count('obligations')
                if not same(fb.get(q), v):
                    find(rep, 'restart', AD, '%s %s' % (rid.name, q), 'a restart is loaded with %s %s' % (q, show(fb.get(q))), ln, where)
        if 'orbit' in kw and orb0 and orb1:
            rep.count('obligations')
            for q in sorted(orb1 - orb0):
                find(rep, 'orbit', AD, U, 'the orbit given is added with other values than on loading: %s' % q[:200], 0, where)
    for (f, how), orbs in seen.items():
        rep.count('obligations')
        if not orbs:
            find(rep, 'orbit-file', f, 'not read', 'an orbit file is given but on %s no path reads the orbit of the cluster from it' % how, 0, where)
    return rep.dump()


def roles(rep, f, fb, ln, where):
    for p, pat in ROLES.items():
        t = norm(topoly(fb[p])) if p in f.params and isinstance(fb.get(p), N) else ''
        if any(re.search(x, t) for x in ROLES.values()):
            rep.count('obligations')
            if not re.search(pat, t) or any(re.search(x, t) for q, x in ROLES.items() if q != p):
                find(rep, 'source-role', f, p, '%s is handed %s' % (p, t[:160]), ln, where)


def skips(rep, f, was, now, where):
    """a table read again from one file: the first snapshot is header, rows; the next must start one header and one set of rows later"""
    for name, sk, mx in was:
        if not isinstance(mx, N) or not isinstance(sk, N):
            continue
        for n2, s2, m2 in now:
            if n2 != name or not isinstance(s2, N) or not isinstance(m2, N) or not same(mx, m2):
                continue
            rep.count('obligations')
            want = P.add(P.add(sk.p, sk.p), mx.p)
            if s2.p != want and not P.sub(s2.p, want).atoms(True) - sk.p.atoms(True) - mx.p.atoms(True):
                find(rep, 'snapshot-rows', f, 'skiprows', 'the second snapshot of a file is read after %s lines; it starts after %s' % (P.show(s2.p), P.show(want)), 0, where)


def filename_task(W):
    """the name chosen for a snapshot is one that was found to exist"""
    rep = Report('C16')
    try:
        f = W.prog.func('io.load', '_get_filename')
    except Exception:
        f = None
    if f is None or not f.kwarg:
        return rep.dump()
    ks = {k: token(W, k, [(f, d)]) for k, d in get_keys(f).items()}
    for lab, kw in (('options left out', {}), ('options given', ks)):
        asked = {}

        def ext(I, name, args, kwargs, node):
            if name in ('os.path.isfile', 'os.path.exists') and args:
                asked.setdefault(norm(topoly(args[0])), P.f('call:' + name, (topoly(args[0]),), ()))
            return None
        I = W.interp(fuel=100000)
        I.on_ext = ext
        try:
            res = I.call_func(f, [NONE], dict(kw), W.start(), None)
        except Fuel:
            continue
        for v, s in res:
            if isinstance(v, C) and v.v is None:
                continue
            if not isinstance(v, (C, N)):
                continue
            for q in judge.alts(topoly(v)):
                t = norm(q)
                if 'phi' in t or not asked or q == topoly(NONE):
                    continue
                rep.count('obligations')
                if t in asked:
                    continue
                find(rep, 'file-name', f, 'not looked for', 'the name returned was not among the files looked for: %s' % t[:200], 0, lab)
    return rep.dump()


def custom_task(W, t):
    """a source read by the function of the user"""
    U, A, named = t
    rep = Report('C16')
    pp = Pipe(W, rep, 150000)
    pp.events, pp.extra, pp.post = [], {}, {}
    fn = N(P.atom('load_function'), 's')
    opts = {k: (C('option_' + k) if k in ('wdir', 'snapdir', 'snapbase', 'snapend', 'delimiter') else N(P.num(3), 's') if k == 'nzfill' else
                N(P.atom('option_' + k), 's')) for k in ('wdir', 'snapdir', 'snapbase', 'snapend', 'delimiter', 'nzfill', 'skiprows', 'otime', 'give', 'myoption')}
    kw = dict(opts, units=C(U), origin=C(A), ofile=N(P.atom('orbit_file'), 's'), load_function=fn)
    if named:
        kw['filename'] = N(P.atom('file_name'), 's')
    where = 'custom source, units=%s, origin=%s%s' % (U, A, ', filename' if named else '')
    _, res, I, _, _ = pp.load(kw)
    first, pp.customs = pp.customs, []
    if not first:
        rep.skip('load_function not called')
        return rep.dump()
    for o, s in res:
        if not isinstance(o, O):
            continue
        F = s.objs[o.id].fields
        F['units'], F['origin'] = C('pcmyr'), C('sky')
        pp.extra = {'load_function': fn}
        if named:
            pp.extra['filename'] = N(P.atom('file_name'), 's')
        pp.customs = []
        pp.advance(I, o, s, {})
        rep.count('advances')
        rep.count('obligations')
        if not pp.customs:
            find(rep, 'other-reader', pp.A, 'load_function', 'a cluster read by a load_function is advanced without it', 0, where)
        for b, ln in pp.customs:
            want = {k: v for k, v in first[0][0].items() if k not in POSITION or k in ('units', 'origin', 'ctype', 'ofile', 'filename')}
            want['advance'] = C(True)
            for k, v in want.items():
                rep.count('options')
                if not carries(b.get(k), v):
                    find(rep, 'option-lost', pp.A, 'load_function ' + k, 'on loading the function was given %s %s; on advancing %s' % (k, show(v), show(b.get(k))), ln, where)
    for k, v in kw.items():
        if k != 'load_function':
            rep.count('options')
            if not all(carries(b.get(k), v) for b, _ in first):
                find(rep, 'option-not-passed', pp.L, 'load_function ' + k, 'the %s option reaches the function as %s' % (k, show(first[0][0].get(k))), first[0][1], where)
    return rep.dump()


def orbit_calls(W, rep, pp, f, fb, orbs, toks, adv, where):
    for ob, ln, g in orbs:
        ks = {k for h in [g] for k in list(get_keys(h)) + sweep.options(h)} - POSITION
        for k in sorted(ks & set(toks)):
            rep.count('options')
            if k in fb and same(fb[k], toks[k]) and not carries(ob.get(k), toks[k]):
                find(rep, 'option-not-passed', f, '%s %s' % (g.name, k), 'the %s option reaches the orbit reader as %s' % (k, show(ob.get(k))), ln, where)
        if 'advance' in g.params:
            rep.count('obligations')
            if not same(ob.get('advance', NONE), adv):
                find(rep, 'orbit-file', f, 'advance', 'the orbit reader is told advance=%s' % show(ob.get('advance')), ln, where)


def errors(W, t):
    """the internal errors met on the way, for C08; inside the readers only those that do not depend on what the file holds"""
    ev = []
    rep = Report('C08')
    task(W, t, ev)
    rep.count('load and advance runs')
    for e, w in ev:
        if e['kind'] in ('bind', 'undefined') or e['kind'] in ('unbound', 'keyerror') and e['fn'].startswith('io.load:'):
            rep.finding(e['kind'], e['fn'], str(e.get('name') or ''), str(e.get('detail') or ''), e.get('file', ''), e.get('line', 0),
                        'ctype=%s, units=%s, origin=%s, %s, %s' % (t[0], t[1], t[2], 'options given' if t[3] else 'options left out', t[4]))
    return rep.dump()


def tasks(W, tier):
    L = W.prog.func('io.load', 'load_cluster')
    out = []
    for ct in types(W, L):
        for U, A in ([('pckms', 'galaxy'), ('kpckms', 'cluster')] if tier == 'quick' else
                     [(U, A) for U in UNITS for A in ('cluster', 'centre', 'galaxy')]):
            part = 'particles' if ct in ('astropy_table', 'galpy') else 'file'
            for given in (True, False):
                for src in [part] + (['hdf5'] if ct.startswith('nbody6') and ct != 'nbody6' else []):
                    out.append((ct, U, A, given, src, tier))
        for U in UNITS:
            out.append((ct, U, 'galaxy', False, part + ' orbit', tier))
    return out


def run(rep, root, tier):
    rep.rule = RULE
    W = World(root)
    W._template()
    for d in pmap(lambda t: task(W, t), tasks(W, tier)):
        rep.merge(d)
    rep.merge(filename_task(W))
    for U, A in (('pckms', 'galaxy'), ('kpckms', 'cluster')):
        for named in (True, False):
            rep.merge(custom_task(W, (U, A, named)))
    return W.prog
