"""Initial abstract clusters."""
import ast
from . import poly as P
from . import models
from .program import Program, AnalysisBroken
from .interp import Interp
from .values import *

UNITS = ['pckms', 'kpckms', 'pcmyr', 'kpcgyr', 'nbody', 'galpy', 'WDunits', 'amuse']
POS = ['x', 'y', 'z']
VEL = ['vx', 'vy', 'vz']
STAR6 = POS + VEL
LEN_F = ['x', 'y', 'z', 'xc', 'yc', 'zc', 'xgc', 'ygc', 'zgc']
VEL_F = ['vx', 'vy', 'vz', 'vxc', 'vyc', 'vzc', 'vxgc', 'vygc', 'vzgc']
SCALE = ['rbar', 'vbar', 'zmbar', 'tbar', 'rbar_su', 'rbar_au', 'tbar_days', 'ro', 'vo', 'zo']
KMS = 1.0227121650537077
MCON = 222288.4543021174

PERSTAR = ['id', 'm', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'm0', 'npop', 'kw', 'logl', 'logr', 'ep', 'ospin', 'lum', 'kin', 'pot', 'etot',
           'r', 'rpro', 'v', 'vpro', 'ra', 'dec', 'dist', 'pmra', 'pmdec', 'vlos', 'rhos']

models.SCALARS.update(SCALE)
models.SCALARS.update(['xc', 'yc', 'zc', 'vxc', 'vyc', 'vzc', 'xgc', 'ygc', 'zgc', 'vxgc', 'vygc', 'vzgc', 'tphys',
                       'ra_gc', 'dec_gc', 'dist_gc', 'pmra_gc', 'pmdec_gc', 'vlos_gc', 'ra_c', 'dec_c', 'dist_c', 'pmra_c', 'pmdec_c',
                       'vlos_c', 'ntot', 'nb'])
models.SIGNED.update(['xc', 'yc', 'zc', 'vxc', 'vyc', 'vzc', 'xgc', 'ygc', 'zgc', 'vxgc', 'vygc', 'vzgc', 'tphys', 'zo',
                       'ra_gc', 'dec_gc', 'pmra_gc', 'pmdec_gc', 'vlos_gc', 'ra_c', 'dec_c', 'pmra_c', 'pmdec_c', 'vlos_c'])
models.POSITIVE.update(['m', 'r', 'rpro', 'ntot', 'dist', 'nnew', 'nbold'])
models.SCALARS.update(['nnew', 'nbold'])
models.COUNTS.update(['nnew', 'nbold'])
models.INTLIKE.update(['nnew', 'id', 'kw', 'ntot', 'nb', 'npop', 'ns'])
for _a in PERSTAR + ['X', 'Y', 'Z', 'VX', 'VY', 'VZ', 'M']:
    models.LENGROUP[_a] = 'stars'


def factor(units):
    """value(units) = factor * value(pckms); dict dim->Poly"""
    ro, vo = P.atom('ro'), P.atom('vo')
    one = P.ONE
    a = P.atom
    G = a('Ggalpy')
    models.SCALARS.add('Ggalpy')
    if units == 'pckms':
        return dict(L=one, V=one, M=one, T=one)
    if units == 'kpckms':
        return dict(L=P.num(1e-3), V=one, M=one, T=P.num(1e-3))
    if units == 'pcmyr':
        return dict(L=one, V=P.num(KMS), M=one, T=one)
    if units == 'kpcgyr':
        return dict(L=P.num(1e-3), V=P.num(KMS), M=one, T=P.num(1e-3))
    if units == 'nbody':
        return dict(L=P.div(one, a('rbar')), V=P.div(one, a('vbar')), M=P.div(one, a('zmbar')), T=P.div(one, a('tbar')))
    if units == 'galpy':
        return dict(L=P.div(P.num(1e-3), ro), V=P.div(one, vo), M=P.div(G, P.mul(ro, P.mul(vo, vo))),
                    T=P.scale(P.div(vo, ro), 1e-3 * KMS))
    if units == 'WDunits':
        return dict(L=P.num(1e-3), V=P.num(KMS), M=P.num(1 / MCON), T=P.num(1e-3))
    if units == 'amuse':
        return dict(L=a('u.parsec'), V=a('u.kms'), M=a('u.MSun'), T=a('u.Myr'))
    raise KeyError(units)


class World:
    """a program plus a template of a populated cluster"""

    def __init__(self, root):
        self.prog = Program(root)
        self.SC = self.prog.cls('cluster.cluster', 'StarCluster')
        self.template = None
        self.derived = None

    def interp(self, **kw):
        return Interp(self.prog, **kw)

    def _template(self):
        """fields set by the constructor, from its own source"""
        if self.template is not None:
            return self.template
        I = self.interp()
        I.muted += 1
        st = State()
        st.frames.append(Frame({}, None, self.SC.mod, None))
        r = I.call(K(self.SC), [], dict(units=C('pckms'), origin=C('galaxy')), st, None)
        if not r:
            raise AnalysisBroken('StarCluster constructor has no normal exit')
        o, s = r[0]
        self.template = dict(s.objs[o.id].fields)
        return self.template

    def cluster(self, st, units='pckms', origin='galaxy', base='phys', ctype='snapshot', overrides=None, orbit='none', oid_open=True,
                projected=False, bunits='nbody'):
        """A populated cluster object.  base='phys': fields are physical atoms times the unit factor;
        base='raw': fields are plain atoms."""
        f = dict(self._template())
        for k, v in list(f.items()):
            if isinstance(v, (N, T, D)):
                f[k] = I_fresh(v)
        if base == 'phys' and units in UNITS:
            fac = factor(units)
        else:
            fac = dict(L=P.ONE, V=P.ONE, M=P.ONE, T=P.ONE)
        nt = P.atom('ntot')

        def arr(name, p=None):
            return N(p if p is not None else P.atom(name), 'a', frozenset((('field', name),)), None, nt)

        def sca(name, p=None):
            return N(p if p is not None else P.atom(name), 's')
        for k in POS:
            f[k] = arr(k, P.mul(fac['L'], P.atom(k)))
        for k in VEL:
            f[k] = arr(k, P.mul(fac['V'], P.atom(k)))
        f['m'] = arr('m', P.mul(fac['M'], P.atom('m')))
        for k in LEN_F[3:]:
            f[k] = sca(k, P.mul(fac['L'], P.atom(k)))
        for k in VEL_F[3:]:
            f[k] = sca(k, P.mul(fac['V'], P.atom(k)))
        f['tphys'] = sca('tphys', P.mul(fac['T'], P.atom('tphys')))
        for k in ('id', 'm0', 'npop', 'kw', 'logl', 'logr', 'ep', 'ospin', 'lum'):
            if k in f:
                f[k] = arr(k)
        for k in ('ra', 'dec', 'dist', 'pmra', 'pmdec', 'vlos'):
            if units == 'radec':
                f[k] = arr(k)
                f[k + '_gc'] = sca(k + '_gc')
                f[k + '_c'] = sca(k + '_c')
        for k in SCALE[:7]:
            f[k] = sca(k)
        f['_ro'], f['_vo'], f['_zo'] = sca('ro'), sca('vo'), sca('zo')
        f['_solarmotion'] = N(P.atom('solarmotion'), 'n')
        f['units'] = C(units)
        f['origin'] = C(origin)
        f['bunits'] = C(bunits)
        f['ctype'] = C(ctype)
        f['units_init'] = C(units)
        f['origin_init'] = C(origin)
        f['projected'] = C(projected)
        f['ntot'] = sca('ntot', nt)
        f['nb'] = N(P.ZERO, 's')
        f['ns'] = N(P.atom('ns'), 's')
        f['kin'] = arr('kin')
        f['pot'] = arr('pot')
        f['etot'] = arr('etot')
        for k in ('rorder', 'rproorder'):
            f[k] = N(P.f('argsort', P.atom(k + '0')), 'a', frozenset((('field', k),)), None, nt)
        f['rorder_origin'] = C(origin)
        if orbit == 'some':
            f['orbit'] = N(P.f('call:galpy.orbit.Orbit', 'gc'), 'n')
        if overrides:
            f.update(overrides)
        o = st.new_obj(self.SC, f, oid_open)
        return o

    def start(self):
        st = State()
        st.frames.append(Frame({}, None, self.SC.mod, None))
        return st

    def analyzed(self, I, st, o):
        """give the cluster its derived quantities by (abstractly) calling its own analyze"""
        m = self.SC.methods.get('analyze')
        if m is None:
            raise AnalysisBroken('StarCluster.analyze not found')
        I.muted += 1
        try:
            r = I.call_func(m, [o], {}, st, None)
        finally:
            I.muted -= 1
        if not r:
            raise AnalysisBroken('StarCluster.analyze has no normal exit')
        return r[0][1]


def I_fresh(v):
    if isinstance(v, N):
        return N(v.p, v.kind, newbuf() if v.buf else None, v.prov, v.ln)
    if isinstance(v, T):
        return T(v.items, v.lst)
    return D(v.items, v.rest)
