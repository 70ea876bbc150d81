"""C17: snapshots written can be read back column for column; records are decoded as what they hold."""
import re
from .. import poly as P
from .. import judge, sweep
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..report import Report
from . import c04
from .c03 import want_at

SIZE = {'i': 4, 'I': 4, 'f': 4, 'l': 4, 'L': 4, 'd': 8, 'q': 8, 'Q': 8, 'h': 2, 'H': 2, 'b': 1, 'B': 1, 'c': 1}


def fmt_items(s):
    """-> list of type letters of a struct format, or None"""
    s = s.lstrip('<>=!@').replace(' ', '')
    out = []
    for n, c in re.findall(r'(\d*)([a-zA-Z?])', s):
        if c not in SIZE or c == 's':
            return None
        out += [c] * int(n or 1)
    return out if re.fullmatch(r'(\d*[a-zA-Z?])*', s) else None


class Streams:
    """counts what is read from each file on the current path: bytes of binary files in words of four, lines of text files"""

    def __init__(self, I):
        self.recs = {}          # atom -> (stream, word, letter, loop counts, file, line)
        self.broken = set()
        self.lines = {}         # (stream, line, where) -> loop counts
        I.ext_model = self.ext
        I.call_model = self.call
        I.loop_exact = True

    def pos(self, st, k, n):
        e = st.frames[0].env
        v = e.get('#' + k)
        if v is None:
            v = C(0)
        if not isinstance(v, C) or v.v is None or n is None:
            self.broken.add(k)
            e['#' + k] = C(None)
            return None
        e['#' + k] = C(v.v + n)
        return v.v

    def loops(self, st):
        v = st.frames[0].env.get('__loops')
        return tuple(topoly(x) for x in v.items) if isinstance(v, T) else ()

    def call(self, I, p, a, k, st, node):
        at = p.atom()
        if not (isinstance(at, tuple) and at[1] == 'attr'):
            return None
        src, meth = P.show(at[2]), str(at[3]).strip("'")
        if meth == 'read':
            c = a[0].p.const() if a and isinstance(a[0], N) else None
            n = int(c) // 4 if c is not None and int(c) % 4 == 0 else None
            q = self.pos(st, src, n)
            return [(N(P.atom('bytes:%s:%s:%s' % (src, q, n)), 'n'), st)]
        if meth == 'readline':
            q = self.pos(st, src, 1)
            self.lines[(src, q, getattr(node, 'lineno', 0))] = self.loops(st)
            return [(N(P.atom('line:%s:%s' % (src, q))), st)]
        if meth in ('seek', 'readlines', 'readinto'):
            self.pos(st, src, None)
        return None

    def ext(self, I, name, a, k, st, node):
        if name == 'struct.unpack' and len(a) == 2:
            at = a[1].p.atom() if isinstance(a[1], N) else None
            its = fmt_items(a[0].v) if isinstance(a[0], C) and isinstance(a[0].v, str) else None
            if isinstance(at, str) and at.startswith('bytes:') and its is not None:
                _, src, q, n = at.rsplit(':', 3) if at.count(':') > 3 else at.split(':')
                if q != 'None' and sum(SIZE[x] for x in its) == 4 * int(n):
                    out, w = [], int(q)
                    for x in its:
                        nm = 'rec:%s:%d:%s' % (src, w, x)
                        self.recs[nm] = (src, w, x, self.loops(st), None)
                        out.append(N(P.atom(nm), 's'))
                        w += SIZE[x] // 4
                    return [(T(out), st)]
            return None
        if name == 'numpy.fromfile' and a:
            self.pos(st, P.show(topoly(a[0])), None)
        if name in ('numpy.loadtxt', 'numpy.genfromtxt') and a:
            return [(N(P.f('table', topoly(a[0])), 'a', newbuf(), '2d'), st)]
        return None


def stream_of(p):
    for x in p.atoms(True):
        if isinstance(x, str) and x.startswith('line:'):
            return x.split(':')[1]
    return None


def cols(v):
    """what of the input a value is made of: {(stream, column or word or key)}"""
    out, seen = set(), set()

    def walk(x):
        if isinstance(x, P.Poly):
            if id(x) in seen:
                return
            seen.add(id(x))
            for m in x.t:
                for a, e in m:
                    walk(a)
        elif isinstance(x, tuple) and len(x) > 1 and x[0] == 'f':
            if x[1] in ('idx', 'sel', 'sel2', 'unpack', 'item') and len(x) > 3:
                b, k = x[2], x[3]
                at = b.atom() if isinstance(b, P.Poly) else None
                if x[1] == 'idx' and isinstance(at, tuple) and at[1] == 'm:split' and stream_of(b):
                    out.add((stream_of(b), num(k)))
                    return
                tb = tables(b) if x[1] == 'sel2' and isinstance(k, tuple) and len(k) == 2 else ()
                if len(tb) == 1:
                    out.add((tb[0], num(k[1])))
                    return
                if x[1] == 'idx' and isinstance(b, P.Poly):
                    bu = built(b)
                    if bu is not None:
                        out.add((bu, num(k)))
                        return
                key = strkey(k)
                if key is not None:
                    out.add(('key', key))
                    return
            for y in x[2:]:
                walk(y)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, str):
            if x.startswith('rec:'):
                out.add(tuple(x.split(':')[1:3]))

    walk(topoly(v))
    return out


def tables(b):
    out = {}
    for a in b.atoms(True) if isinstance(b, P.Poly) else ():
        if isinstance(a, tuple) and len(a) == 3 and a[1] == 'table':
            w = P.show(a[2])
            out['table:' + w if 'attr(' in w else 'table'] = 1
    return sorted(out)


def num(k):
    c = k.const() if isinstance(k, P.Poly) else k if isinstance(k, (int, float)) else None
    return int(c) if c is not None else '?'


def strkey(k):
    if isinstance(k, P.Poly):
        k = k.atom()
    if isinstance(k, str):
        return k.strip('\'"')
    if isinstance(k, tuple) and k[1] == 'const' and isinstance(k[2], str) and k[2][:1] in '\'"':
        return k[2].strip('\'"')
    return None


def built(p):
    """the record a list read in a loop is made of (through joins with other ways of returning it)"""
    got = set()

    def walk(q):
        a = q.atom() if isinstance(q, P.Poly) else None
        if isinstance(a, tuple) and a[1] == 'phi':
            walk(a[2])
            walk(a[3])
        elif isinstance(a, tuple) and a[1] == 'built' and len(a) == 3:
            r = a[2].atom() if isinstance(a[2], P.Poly) else None
            if isinstance(r, str) and r.startswith('rec:'):
                got.add('list:%s:%s' % tuple(r.split(':')[1:3]))
            else:
                got.add(None)
    walk(p)
    return got.pop() if len(got) == 1 else None


def read(W, fi, args, kw, fuel=2000000):
    """run a reader; -> (calls [(method, {parameter: value})], sets {field: [values]}, Streams, exits)"""
    I = W.interp(skip=sweep.plots_private, fuel=fuel)
    S = Streams(I)
    st = W.start()
    calls = []

    def on_call(I, f, b, st, node):
        if f.cls is not None and f.cls.name == 'StarCluster' and f.name.startswith('add_'):
            calls.append((f.name, dict(b), node))
            return [(C(None), st)]
        return None
    I.on_call = on_call
    r = I.call_func(fi, args, dict(kw), st, None)
    return calls, S, r


# ------------------------------------------------------------------ what the formats hold
SIX = ('x', 'y', 'z', 'vx', 'vy', 'vz')
# the NBODY6 list of scalars written ahead of the stars (AS in output.f), counted from zero
AS = dict(tphys=0, nb=1, rbar=2, zmbar=3, rtide=4, xc=6, yc=7, zc=8, tbar=10, vbar=11, rc=12, nc=13, rscale=17)


def H(n):
    return N(P.atom(n), 'n')


def words(*spec):
    """((letters, count word or None), ...) -> {word: (letter, count word)}"""
    out, w = {}, 0
    for let, cnt in spec:
        for x in let:
            out[w] = (x, cnt)
            w += 1
    return out


def as_list(src, w):
    return {k: {('list:%s:%d' % (src, w), i)} for k, i in AS.items()}


FAC = C(False)


def sources():
    """-> [(label, module, reader, args, keyword options, layouts {stream: words}, [(method, nth, {parameter: allowed sources})], {field: allowed})]"""
    out = []
    names = ['m', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'id', 'kw']
    base = dict(units=C('pckms'), origin=C('cluster'), analyze=FAC)

    def nums(ks):
        return T([N(P.num(k), 's') for k in ks], True)

    def strs(ks):
        return T([C(k) for k in ks], True)
    for lab, kw in (('filename', dict(filename=C('f'))), ('default', dict(snapbase=C('s'), snapend=C('.e')))):
        out.append(('snapshot, default columns, by ' + lab, 'io.snapshot', '_get_snapshot', [], dict(base, **kw), {},
                    [('add_stars', {k: {('table', i)} for i, k in enumerate(names[:7])})], {}))
        out.append(('snapshot, columns as written, by ' + lab, 'io.snapshot', '_get_snapshot', [],
                    dict(base, col_names=strs(names), col_nums=nums(range(9)), **kw), {},
                    [('add_stars', {k: {('table', i)} for i, k in enumerate(names[:8])})], {'kw': {('table', 8)}}))
        perm = [3, 0, 8, 5, 1, 7, 2, 6, 4]
        out.append(('snapshot, permuted columns, by ' + lab, 'io.snapshot', '_get_snapshot', [],
                    dict(base, col_names=strs([names[i] for i in perm]), col_nums=nums([2, 5, 7, 11, 0, 3, 9, 4, 1]), **kw), {},
                    [('add_stars', {names[i]: {('table', c)} for i, c in zip(perm, [2, 5, 7, 11, 0, 3, 9, 4, 1]) if names[i] != 'kw'})], {'kw': {('table', 7)}}))
    gy = {k: i for i, k in enumerate(names[:7])}
    extra = {'mxv': {}, 'mxve': dict(eps=7), 'mxvpqael': dict(gyrpot=7, gyrq=8, gyracc=9, eps=10, gyrlev=11)}
    for give, ex in extra.items():
        kw = dict(units=C('WDunits'), origin=C('galaxy'), analyze=FAC, give=C(give))
        out.append(('gyrfalcon, give=' + give, 'io.gyrfalcon', '_get_gyrfalcon', [H('fh')], kw, {},
                    [('add_stars', {k: {('line', i)} for k, i in gy.items()})], {k: {('line', i)} for k, i in ex.items()}))
        out.append(('new gyrfalcon, give=' + give, 'io.gyrfalcon', '_get_new_gyrfalcon', [C('f')], kw, {},
                    [('add_stars', {k: {('table', i)} for k, i in gy.items()})], {k: {('table', i)} for k, i in ex.items()}))
    # NBODY6: OUT3 (stars), OUT33 (tail), fort.82/fort.83 (stellar evolution)
    out3 = words(('iiiiii', None), ('i', None), ('f', 4), ('f', 1), ('fff', 1), ('fff', 1), ('i', 1), ('i', None))
    out33 = words(('iiiii', None), ('i', None), ('f', 3), ('f', 1), ('fff', 1), ('fff', 1), ('i', 1), ('i', None))
    n6 = dict({k: v for k, v in as_list('out3', 7).items() if k != 'tphys'}, ns={('out3', '1')}, n_p={('out3', '1'), ('list:out3:7', 1)})
    stars = []
    for f, w, e in (('out3', 8, 15), ('out33', 7, 14)):
        d = {k: {(f, str(w + 1 + i))} for i, k in enumerate(SIX)}
        d.update(m={(f, str(w))}, id={(f, str(e))})
        stars.append(d)
    tail = {k: {('list:out33:6', i)} for i, k in enumerate(('xgc', 'ygc', 'zgc', 'vxgc', 'vygc', 'vzgc'))}
    b82 = dict(id1=0, id2=1, kw1=2, kw2=3, kcm=4, ecc=6, pb=7, semi=8, m1=9, m2=10, logl1=11, logl2=12, logr1=13, logr2=14)
    sse = dict(kw={('fort82', 4), ('fort83', 1)}, logl={('fort82', 11), ('fort82', 12), ('fort83', 4)}, logr={('fort82', 13), ('fort82', 14), ('fort83', 5)})
    bse = {k: {('fort82', i)} for k, i in b82.items()}
    out.append(('nbody6', 'io.nbody6', '_get_nbody6', [],
                dict(out3=H('out3'), out33=H('out33'), fort82=H('fort82'), fort83=H('fort83'), analyze=FAC), {'out3': out3, 'out33': out33},
                [('add_nbody6', n6), ('add_stars', stars), ('add_orbit', tail), ('add_sse', sse), ('add_bse', bse)], {'tphys': {('list:out3:7', 0)}}))
    # NBODY6++: conf.3, sev.83/bev.82
    conf = words(('iiiiii', None), ('i', None), ('f', 4), ('f', 1), ('f', 1), ('f', 1), ('fff', 1), ('fff', 1), ('f', 1), ('i', 1), ('i', None))
    npairs = ('list:conf3:7', 1)
    pp = dict({k: v for k, v in as_list('conf3', 7).items() if k != 'tphys'}, ns={('conf3', '1')}, n_p={('conf3', '1'), npairs})
    st = {k: {('conf3', str(11 + i))} for i, k in enumerate(SIX)}
    st.update(m={('conf3', '8')}, id={('conf3', '18')}, nb={npairs})
    sv, bv = 'table:attr(sev83, name)', 'table:attr(bev82, name)'
    bcols = dict(id1=3, id2=4, kw1=5, kw2=6, kcm=7, ecc=9, pb=10, semi=11, m1=12, m2=13, logl1=14, logl2=15, logr1=16, logr2=17)
    # a star's place in the arrays is its address (column 1), counted past the pairs
    at = {npairs, (sv, 1), (bv, 1), (bv, 2)}
    out.append(('nbody6++ conf.3', 'io.nbody6pp', '_get_nbody6pp', [], dict(conf3=H('conf3'), bev82=H('bev82'), sev83=H('sev83'), analyze=FAC),
                {'conf3': conf},
                [('add_nbody6', pp), ('add_stars', st), ('add_energies', {'pot': {('conf3', '17'), npairs}}),
                 ('add_sse', dict(kw={(sv, 3), (bv, 5), (bv, 6)} | at, logl={(sv, 6), (bv, 14), (bv, 15)} | at, logr={(sv, 7), (bv, 16), (bv, 17)} | at)),
                 ('add_bse', {k: {(bv, i)} for k, i in bcols.items()})],
                {'tphys': {('list:conf3:7', 0)}, 'rhos': {('conf3', '9'), npairs}}))
    six = ('X1', 'X2', 'X3', 'V1', 'V2', 'V3')
    com = ('XC1', 'XC2', 'XC3', 'VC1', 'VC2', 'VC3')
    hs = [dict({k: {('key', n[i])} for i, k in enumerate(SIX)}, m={('key', x) for x in m}, id={('key', x) for x in d})
          for n, m, d in ((six, ('M',), ('NAM',)), (com, ('M1', 'M2'), ('NAM1', 'NAMC')))]
    hb = dict(id1='NAM1', id2='NAM2', kw1='KW1', kw2='KW2', kcm='KWC', ecc='ECC', pb='P', semi='A', m1='M1', m2='M2', logl1='L1', logl2='L2', logr1='RS1',
              logr2='RS2', ep1='TE1', ep2='TE2')
    hss = [dict(kw=('KW',), logl=('L',), logr=('RS',)), dict(kw=('KW1', 'KW2', 'KWC'), logl=('L1', 'L2'), logr=('RS1', 'RS2'))]
    hbs = {}
    for i in (1, 2):
        for j, c in enumerate('xyz'):
            hbs['%sb%d' % (c, i)] = {('key', 'XR%d' % (j + 1)), ('key', 'M1'), ('key', 'M2')}
            hbs['v%sb%d' % (c, i)] = {('key', 'VR%d' % (j + 1)), ('key', 'M1'), ('key', 'M2')}
    out.append(('nbody6++ hdf5', 'io.nbody6pp', '_get_nbody6pp', [], dict(conf3=C(None), snap40=H('snap40'), analyze=FAC), {},
                [('add_stars', hs), ('add_sse', [{k: {('key', x) for x in v} for k, v in h.items()} for h in hss]), ('add_bse', {k: {('key', v)} for k, v in hb.items()}),
                 ('add_binary_stars', hbs)], {}))
    return out


# column of the header of a block that holds the number of lines
COUNT = {'fort82': 2, 'fort83': 2}
# quantities that are whole numbers
WHOLE = {'id', 'kw', 'id1', 'id2', 'kw1', 'kw2', 'kcm', 'ns', 'nb', 'n_p'}


def lines(c, one):
    return {('line', v) if isinstance(k, str) and k in one else (k, v) for k, v in c}


def truncated(v):
    """is what is read rounded to a whole number on its way?"""
    hit = []

    def walk(x, d):
        if d > 12:
            return
        if isinstance(x, P.Poly):
            for m in x.t:
                for a, e in m:
                    walk(a, d + 1)
        elif isinstance(x, tuple) and len(x) > 2 and x[0] == 'f':
            if x[1] == 'int':
                if cols(N(x[2]) if isinstance(x[2], P.Poly) else N(P.ONE)):
                    hit.append(1)
                return
            if x[1] in ('built', 'phi', 'append', 'array', 'concatenate', 'nan_to_num'):
                for y in x[2:]:
                    walk(y, d + 1)
            elif x[1] in ('upd', 'sel', 'sel2'):
                for y in x[2:4] if x[1] == 'upd' else x[2:3]:
                    walk(y, d + 1)
    walk(topoly(v), 0)
    return bool(hit)


def readers(W, rep, t):
    lab, mod, fn, args, kw, layouts, calls, fields = t
    fi = W.prog.func(mod, fn)
    if fi is None:
        rep.skip('no reader %s:%s' % (mod, fn))
        return
    try:
        got, S, exits = read(W, fi, list(args), kw)
    except Fuel:
        rep.skip('fuel:' + fi.full)
        return
    rep.count('readers')
    where = '%s (%s)' % (fi.full, lab)

    def find(rule, construct, detail, line=None):
        rep.finding(rule, fi.full, '%s:%s' % (lab.split(',')[0], construct), detail, fi.mod.rel(), line or fi.node.lineno, where)
    # records of binary files
    for nm, (src, w, let, loops, _) in sorted(S.recs.items()):
        lay = layouts.get(src)
        if lay is None or src in S.broken:
            rep.skip('stream:%s' % src)
            continue
        rep.count('obligations')
        if w not in lay:
            find('record-order', '%s.%d' % (src, w), 'more is read from %s than a snapshot of one star holds (word %d)' % (src, w))
            continue
        want, cnt = lay[w]
        if let != want:
            find('record-type', '%s.%d' % (src, w), 'word %d of %s holds %s but is decoded as %r' % (w, src, 'a whole number' if want == 'i' else 'a real number', let))
            continue
        rep.count('proved')
        if loops or cnt is not None:
            rep.count('obligations')
            c = set()
            for p in loops:
                c |= cols(N(p))
            c = {q for q in c if q[0] == src}
            need = set() if cnt is None else {(src, str(cnt))}
            if not loops or (cnt is not None and not c):
                rep.skip('count:%s' % src)
            elif c != need:
                find('record-count', '%s.%d' % (src, w), 'word %d of %s is read %s times; the file holds %s' % (
                    w, src, ' x '.join(P.show(p) for p in loops)[:120], 'one' if cnt is None else 'as many as its word %d says' % cnt))
            else:
                rep.count('proved')
    # lines of text files
    for (src, q, ln), loops in sorted(S.lines.items(), key=str):
        if src not in COUNT or not loops:
            continue
        c = set()
        for p in loops:
            c |= cols(N(p))
        rep.count('obligations')
        if {x for x in c if x[0] == src} - {(src, COUNT[src])}:
            find('record-count', '%s line' % src, 'lines of %s are read as often as its column %s says; it is column %d that holds the number' % (
                src, ', '.join(str(x[1]) for x in sorted(c, key=str)), COUNT[src]), ln)
        else:
            rep.count('proved')
    one = {'fh'} if fn.endswith('gyrfalcon') else set()
    for m, want in calls:
        hit = 0
        for nm, b, node in got:
            if nm != m:
                continue
            alts = want if isinstance(want, list) else [want]
            have = {k: lines(cols(b[k]), one) for k in b}
            w1 = min(alts, key=lambda a: sum(bool(have[k] - a[k]) for k in a if k in have))
            for k, w in sorted(w1.items()):
                if k not in b or b[k] == C(None):
                    continue
                if value(rep, find, '%s:%s' % (m, k), k, b[k], w, S, one, getattr(node, 'lineno', None)):
                    hit += 1
        if not hit:
            rep.skip('nothing decided of %s' % m)
    for k, w in sorted(fields.items()):
        for v, s in exits:
            if isinstance(v, O) and k in s.objs[v.id].fields:
                value(rep, find, k, k, s.objs[v.id].fields[k], w, S, one, None)


def value(rep, find, con, k, v, want, S, one, line):
    c = lines(cols(v), one)
    if not c:
        return False
    if any(x[1] == '?' or x[0] in S.broken and x[0] not in one for x in c):
        rep.skip('column:%s' % k)
        return False
    rep.count('obligations')
    bad = c - want
    if bad:
        find('wrong-column', con, '%s is made of %s; the file keeps it in %s' % (k, describe(c), describe(want)), line)
        return True
    if k not in WHOLE and truncated(v):
        find('record-type', con, '%s is a real number but is cut to a whole one on reading' % k, line)
        return True
    rep.count('proved')
    return True


def describe(c):
    return ', '.join(sorted('%s %s' % ('key' if k == 'key' else 'column' if 'table' in k or k == 'line' else k + ' word', v) for k, v in c))


# ------------------------------------------------------------------ writers
EMPTY = P.f('array')


def columns(v):
    """the columns of a table handed to savetxt, or None"""
    if isinstance(v, T):
        return None
    if not isinstance(v, N):
        return None
    mo = v.p.mono()
    if mo is None:
        return None
    k, at = mo
    tab = [a for a, e in at if isinstance(a, tuple) and a[1] == 'column_stack' and e == 1]
    if len(tab) != 1:
        return None
    rest = P.div(v.p, P.f(*tab[0][1:]))
    return [P.mul(rest, x) for x in tab[0][2:]]


def wants(W, I, s, o, name, U, A, kw, f0):
    """-> [[(column name, value)]] for each file the writer makes, in order"""
    def own(*ks):
        return [(k, topoly(f0[k])) for k in ks]
    if name == 'snapout':
        out = own('m', *SIX) + own('id')
        if 'nokw' not in kw:
            out += own('kw')
        if 'energies' in kw:
            out += own('kin', 'pot', 'etot')
        if 'radec' in kw:
            I.muted += 1
            try:
                r = I.call_func(W.prog.func('util.coordinates', 'sky_coords'), [o], {}, s.copy(), None)
            finally:
                I.muted -= 1
            v = r[0][0]
            if len(r) != 1 or not isinstance(v, T) or len(v.items) != 6:
                return None
            out += list(zip(('ra', 'dec', 'dist', 'pmra', 'pmdec', 'vlos'), [topoly(x) for x in v.items]))
        return [out]
    pc = want_at('pckms', 'cluster', 'cluster')
    sse = own('m0', 'kw') + [('m', pc['m'])] + own('ep', 'ospin')
    if name == 'sseout':
        return [sse]
    if name == 'fortout':
        w = want_at('nbody', 'centre', A)
        return [[(k, w[k]) for k in ('m',) + SIX]] + ([sse] if 'sse' in kw else [])
    if name == 'gyrout':
        w = want_at('kpckms', 'galaxy', A)
        g = want_at('WDunits', 'galaxy', A)
        out = [(k, g[k]) for k in ('m',) + SIX]
        if 'eps' in kw:
            eu = kw['epsunits'].v if 'epsunits' in kw else U
            out.append(('eps', P.mul(P.div(factor('kpckms')['L'], factor(eu)['L']), P.atom('eps'))))
        return [out]
    return None


def writers(W, rep, t):
    name, U, A, opts = t
    fi = W.prog.func('util.output', name)
    if fi is None:
        rep.skip('no writer ' + name)
        return
    kw = {}
    for o_ in opts:
        if o_ == 'eps':
            kw['eps'] = N(P.atom('eps'), 's')
        elif o_.startswith('epsunits='):
            kw['epsunits'] = C(o_.split('=')[1])
        elif o_ != 'nokw':
            kw[o_] = C(True)
    flags = dict(kw, **({'nokw': 1} if 'nokw' in opts else {}))
    I = W.interp(skip=sweep.plots_private, fuel=400000)
    st = W.start()
    o, s = c04.start(W, I, st, U, A)
    f = s.objs[o.id].fields
    if f.get('units') != C(U) or f.get('origin') != C(A):
        rep.skip('entry state (%s,%s)' % (U, A))
        return
    if 'nokw' in opts:
        f['kw'] = N(P.f('array'), 'a', newbuf(), None, P.ZERO)
    f0 = {k: v for k, v in f.items() if isinstance(v, N)}
    want = wants(W, I, s, o, name, U, A, flags, f0)
    got = []

    def ext(I, nm, a, k, node):
        if nm == 'numpy.savetxt' and len(a) >= 2:
            got.append((a[0], a[1], k, node))
    I.on_ext = ext
    args = [o] + ([] if name == 'fortout' else [C('out.dat')])
    try:
        I.call_func(fi, args, kw, s, None)
    except Fuel:
        rep.skip('fuel:' + fi.full)
        return
    where = '%s from (%s,%s)%s' % (fi.full, U, A, ', ' + ', '.join(opts) if opts else '')
    rep.count('writes')
    if want is None:
        rep.skip('no expectation:' + name)
        return
    if not got:
        rep.skip('nothing written by savetxt:' + name)
        return
    tabs = [columns(tab) for _, tab, _, _ in got]
    if 'nokw' in flags and any(c is not None and EMPTY not in c for c in tabs):
        # the way taken when there are as many types as stars, none of either
        got = [g for g, c in zip(got, tabs) if c is None or EMPTY not in c]
    for fname, tab, k, node in got:
        cs = columns(tab)
        if cs is None:
            rep.skip('table:' + name)
            continue
        w = want[0]
        if len(want) > 1 and isinstance(fname, C) and '12' in str(fname.v):
            w = want[1]
        rep.count('obligations')
        if len(cs) != len(w):
            rep.finding('columns', fi.full, '%d for %d' % (len(cs), len(w)), 'writes %d columns where the format has %d: %s' % (
                len(cs), len(w), ', '.join(n for n, _ in w)), fi.mod.rel(), getattr(node, 'lineno', fi.node.lineno), where)
            continue
        rep.count('proved')
        for i, (c, (n, p)) in enumerate(zip(cs, w)):
            rep.count('obligations')
            j, alt = judge.judge(c, p)
            if j == 'bad':
                rep.finding('wrong-column', fi.full, '%d:%s' % (i, n), 'column %d holds %s; the format keeps %s there, %s' % (i, P.show(alt)[:160], n, P.show(p)[:160]),
                            fi.mod.rel(), getattr(node, 'lineno', fi.node.lineno), where)
            elif j == 'undecided':
                rep.skip('value:%s.%s' % (name, n))
            else:
                rep.count('proved')


def tasks(tier):
    out = [('r', i) for i in range(len(sources()))]
    full = tier != 'quick'
    US = [u for u in UNITS if u != 'amuse']
    AS_ = ['cluster', 'centre', 'galaxy']
    states = [(u, a) for u in US for a in AS_] if full else [(u, AS_[(i + j) % 3]) for j in range(2) for i, u in enumerate(US)]
    snap = [(), ('energies',), ('radec',), ('energies', 'radec'), ('nokw',), ('energies', 'nokw'), ('radec', 'nokw'), ('energies', 'radec', 'nokw')]
    for i, (u, a) in enumerate(states):
        for op in snap if full else [snap[i % len(snap)], snap[(i + 3) % len(snap)]]:
            out.append(('w', 'snapout', u, a, op))
        out.append(('w', 'sseout', u, a, ()))
        for op in ((), ('sse',)):
            out.append(('w', 'fortout', u, a, op))
        for op in [(), ('eps',)] + [('eps', 'epsunits=' + x) for x in (US if full else US[i % 2::2])]:
            out.append(('w', 'gyrout', u, a, op))
    return out


def task(W, t):
    rep = Report('C17')
    if t[0] == 'r':
        readers(W, rep, sources()[t[1]])
    else:
        writers(W, rep, t[1:])
    return rep.dump()


RULE = ('(1) abstract interpretation of every snapshot writer from every (units, origin) state and option: each column of the table it saves must have the '
        'normal form of the quantity the format keeps there, in the format\'s units and origin; (2) dataflow from each word, text column, table column or '
        'key of every input format to the arguments of the methods that fill the cluster: each must come from where the format keeps it, in the order of '
        'the file, decoded with the type of the quantity and read as often as the header says')
FLOORS = {'readers': 8, 'writes': 80, 'obligations': 1000}


def run(rep, root, tier):
    rep.rule = RULE
    W = World(root)
    W._template()
    for d in pmap(lambda t: task(W, t), tasks(tier)):
        rep.merge(d)
    return W.prog
