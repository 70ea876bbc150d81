"""Every public operation on a cluster, from every state, with every option at its default, unknown one at a time, and all unknown."""
from . import poly as P
from .model import *
from .interp import Fuel

MODS = ['analysis.functions', 'analysis.profiles', 'analysis.orbits', 'tidaltail.tails', 'util.output', 'util.plots', 'util.coordinates']
ORIGINS = ['centre', 'cluster', 'galaxy']
CONVERSIONS = {'to_centre', 'to_center', 'to_cluster', 'to_galaxy', 'to_sky', 'to_origin', 'to_pckms', 'to_kpckms', 'to_pcmyr', 'to_kpcgyr',
               'to_nbody', 'to_radec', 'from_radec', 'to_galpy', 'to_WDunits', 'to_amuse', 'from_amuse', 'to_units', 'to_sudays', 'to_audays',
               'return_cluster', 'save_cluster'}


def public_functions(W, mods=MODS):
    """library functions whose first parameter is the cluster"""
    out = []
    for m in mods:
        if m not in [x.short for x in W.prog.mods.values()]:
            continue
        mod = W.prog.mod(m)
        for name, L in mod.binds.items():
            b = L[-1]
            if b[0] != 'func':
                continue
            fi = b[1]
            if name.startswith('_') or not fi.params or fi.params[0] != 'cluster':
                continue
            out.append(fi)
    return out


def public_methods(W):
    return [fi for n, fi in W.SC.methods.items() if not n.startswith('_') and not any(d in ('staticmethod', 'property') for d in fi.decos)]


def options(fi):
    return [p for p in fi.params[1:] + fi.kwonly if p in fi.defaults]


def required(fi):
    return [p for p in fi.params[1:] + fi.kwonly if p not in fi.defaults]


def variants(fi, one=True):
    base = {p: N(P.atom('p_' + p)) for p in required(fi)}
    out = [('defaults', dict(base))]
    ops = options(fi)
    if ops:
        allu = dict(base)
        for p in ops:
            allu[p] = N(P.atom('opt_' + p))
        if fi.kwarg:
            allu['**'] = P.atom('opt_kwargs')
        out.append(('every option unknown', allu))
    if one:
        for p in ops:
            k = dict(base)
            k[p] = N(P.atom('opt_' + p))
            out.append(('%s unknown' % p, k))
            d = fi.default_const(p)
            if isinstance(d, bool):
                k = dict(base)
                k[p] = C(not d)
                out.append(('%s=%s' % (p, not d), k))
    return out


def plots_private(fi):
    return fi.mod.short == 'util.plots' and fi.name.startswith('_')


def run(W, fi, U, A, kw, fuel=400000, setup=None, on_call=None, analyzed=True, **ckw):
    """-> (interp, results, cluster object, initial state) ; Fuel may be raised"""
    I = W.interp(skip=plots_private, fuel=fuel)
    st = W.start()
    o = W.cluster(st, U, A, **ckw)
    s = W.analyzed(I, st, o) if analyzed else st
    if setup:
        setup(I, s, o)
    s0 = s.copy()
    I.on_call = on_call
    r = I.call_func(fi, [o], dict(kw), s, None)
    return I, r, o, s0
