"""Meaning of the galpy coordinate helpers and of Orbit objects that are only used as containers of
phase-space coordinates: Orbit([R,vR,vT,z,vz,phi]) and its accessors."""
from . import poly as P
from .poly import Poly
from .values import *


def _mk(p, kind):
    return N(p, kind, newbuf() if kind != 's' else None)


def coords_call(I, base, args, kwargs):
    from . import models
    if any(not isinstance(a, N) for a in args) or not args:
        return None
    U = models.UNARY
    k = models.kindj(*args)
    g = [a.p for a in args]
    ln = models.lnj(*args)

    def out(*ps):
        return T([N(p, k, newbuf(), None, ln) for p in ps])
    if base == 'rect_to_cyl' and len(g) == 3:
        R = models.power(P.add(P.mul(g[0], g[0]), P.mul(g[1], g[1])), P.fr(0.5))
        return out(R, models.fn_arctan2(g[1], g[0]), g[2])
    if base == 'cyl_to_rect' and len(g) == 3:
        return out(P.mul(g[0], U['cos'](g[1])), P.mul(g[0], U['sin'](g[1])), g[2])
    if base == 'rect_to_cyl_vec' and len(g) == 6:
        cyl = kwargs.get('cyl')
        if cyl is not None and cyl != C(False):
            phi = g[4] if cyl == C(True) else None
            if phi is None:
                return None
        else:
            phi = models.fn_arctan2(g[4], g[3])
        c, s = U['cos'](phi), U['sin'](phi)
        return out(P.reduce(P.add(P.mul(g[0], c), P.mul(g[1], s))), P.reduce(P.sub(P.mul(g[1], c), P.mul(g[0], s))), g[2])
    if base == 'cyl_to_rect_vec' and len(g) == 4:
        c, s = U['cos'](g[3]), U['sin'](g[3])
        return out(P.reduce(P.sub(P.mul(g[0], c), P.mul(g[1], s))), P.reduce(P.add(P.mul(g[0], s), P.mul(g[1], c))), g[2])
    return None


def _coord6(v):
    """six coordinate Polys of a phase-space argument"""
    if isinstance(v, T) and len(v.items) == 6 and all(isinstance(x, N) for x in v.items):
        return [x.p for x in v.items]
    if isinstance(v, N):
        m = v.p.mono()
        if m is None:
            return None
        c, mono = m
        hit = [a for a, e in mono if isinstance(a, tuple) and a[1] in ('column_stack', 'Tcol') and e == 1]
        if len(hit) == 1 and len(hit[0]) == 8:
            k = Poly({tuple(x for x in mono if x[0] != hit[0]): c})
            return [P.mul(k, q) for q in hit[0][2:]]
    return None


CARTN = ('x', 'y', 'z', 'vx', 'vy', 'vz')


def _cart(c6, ro, vo):
    from . import models
    U = models.UNARY
    R, vR, vT, z, vz, phi = c6
    c, s = U['cos'](phi), U['sin'](phi)
    L = [P.mul(ro, P.mul(R, c)), P.mul(ro, P.mul(R, s)), P.mul(ro, z), P.mul(vo, P.sub(P.mul(vR, c), P.mul(vT, s))),
         P.mul(vo, P.add(P.mul(vR, s), P.mul(vT, c))), P.mul(vo, vz)]
    return [P.reduce(p) for p in L]


SKYN = ('ra', 'dec', 'dist', 'pmra', 'pmdec', 'vlos')
ALIAS = {'ra': 'ra', 'dec': 'dec', 'dist': 'dist', 'pmra': 'pmra', 'pmdec': 'pmdec', 'vlos': 'vlos', 'll': 'll', 'bb': 'bb'}


def orbit_call(I, args, kwargs):
    from . import models
    v = args[0] if args else kwargs.get('vxvv')
    if v is None:
        return None
    c6 = _coord6(v)
    if c6 is None:
        return None
    opt = tuple((k, topoly(kwargs[k])) for k in ('ro', 'vo', 'zo', 'solarmotion') if k in kwargs)
    if set(kwargs) - {'ro', 'vo', 'zo', 'solarmotion', 'radec', 'vxvv'} or 'ro' not in kwargs or 'vo' not in kwargs:
        return None
    rd = kwargs.get('radec')
    kind = 'n'
    ln = v.ln if isinstance(v, N) and v.kind == 'a' else None
    if rd is None or rd == C(False):
        ph = c6[5].atom()
        if isinstance(ph, tuple) and ph[1] == 'arctan2':
            # built from Cartesian coordinates: keep those (physical units) as the orbit's identity
            cart = _cart(c6, topoly(kwargs['ro']), topoly(kwargs['vo']))
            orb = None
            for nm, p in zip(CARTN, cart):
                a = p.atom()
                if not (isinstance(a, tuple) and a[1] == 'cartacc' and a[3] == nm) or (orb is not None and orb != a[2]):
                    orb = None
                    break
                orb = a[2]
            if orb is not None and orb.atom()[-1] == opt:
                return N(orb, kind, newbuf(), None, ln)
            return N(P.f('OrbitCart', *(cart + [opt])), kind, newbuf(), None, ln)
        return N(P.f('OrbitCyl', *(c6 + [opt])), kind, newbuf(), None, ln)
    if rd == C(True):
        # the six sky coordinates of one known orbit give that orbit back
        orb = None
        for nm, p in zip(SKYN, c6):
            a = p.atom()
            if not (isinstance(a, tuple) and a[1] == 'skyacc' and a[3] == nm) or (orb is not None and orb != a[2]):
                orb = None
                break
            orb = a[2]
        if orb is not None:
            b = orb.atom()
            if isinstance(b, tuple) and b[1] in ('OrbitCyl', 'OrbitSky', 'OrbitCart') and b[-1] == opt:
                return N(orb, kind, newbuf(), None, ln)
        return N(P.f('OrbitSky', *(c6 + [opt])), kind, newbuf(), None, ln)
    return None


def orbit_attr(o, attr):
    """o: N holding an Orbit atom; -> BM for a modelled accessor"""
    a = o.p.atom()
    if isinstance(a, tuple) and a[1] in ('OrbitCyl', 'OrbitSky', 'OrbitCart') and attr in (
            'x', 'y', 'z', 'vx', 'vy', 'vz', 'R', 'vR', 'vT', 'phi') + SKYN:
        return BM(o, 'orbit.' + attr)
    return None


def orbit_method(I, bm, args, kwargs):
    from . import models
    o, m = bm.obj, bm.name[6:]
    a = o.p.atom()
    opt = dict(a[-1])
    t = tuple(topoly(x) for x in args)
    kw = tuple((k, topoly(v)) for k, v in sorted(kwargs.items()))
    U = models.UNARY
    ak = 'a' if o.ln is not None else None
    if t or kw:
        return N(P.f('orbacc:' + m, o.p, t, kw), ak, newbuf(), None, o.ln)
    if m in SKYN:
        if a[1] == 'OrbitSky':
            return N(a[2 + SKYN.index(m)], ak, newbuf(), None, o.ln)
        return N(P.f('skyacc', o.p, m), ak, newbuf(), None, o.ln)
    if a[1] == 'OrbitSky':
        return N(P.f('cartacc', o.p, m), ak, newbuf(), None, o.ln)
    if a[1] == 'OrbitCart':
        X, Y, Z, VX, VY, VZ = a[2:8]
        if m in CARTN:
            return N(a[2 + CARTN.index(m)], ak, newbuf(), None, o.ln)
        if m == 'phi':
            return N(models.fn_arctan2(Y, X), ak, newbuf(), None, o.ln)
        R = models.power(P.add(P.mul(X, X), P.mul(Y, Y)), P.fr(0.5))
        if m == 'R':
            return N(R, ak, newbuf(), None, o.ln)
        if m == 'vR':
            return N(P.div(P.add(P.mul(X, VX), P.mul(Y, VY)), R), ak, newbuf(), None, o.ln)
        return N(P.div(P.sub(P.mul(X, VY), P.mul(Y, VX)), R), ak, newbuf(), None, o.ln)
    R, vR, vT, z, vz, phi = a[2:8]
    ro, vo = opt['ro'], opt['vo']
    if m == 'phi':
        return N(phi, ak, newbuf(), None, o.ln)
    if m in CARTN:
        return N(_cart(a[2:8], ro, vo)[CARTN.index(m)], ak, newbuf(), None, o.ln)
    val = {'R': lambda: P.mul(ro, R), 'vR': lambda: P.mul(vo, vR), 'vT': lambda: P.mul(vo, vT)}[m]()
    return N(P.reduce(val), ak, newbuf(), None, o.ln)
