"""C08: every supported configuration runs without an internal programming error."""
import ast
import re
from .. import poly as P
from .. import sweep
from ..model import *
from ..par import pmap
from ..interp import Fuel
from ..report import Report
from . import c04, c16

RULE = ('abstract interpretation of every public operation from every (units, origin) state with documented option values: no path reads a name '
        'without a value, calls an internal function with arguments it does not accept, uses an attribute the object does not have, computes with '
        'None or takes apart a result of a different length')
FLOORS = {'runs': 1500, 'operations': 100}

KINDS = {'bind', 'undefined', 'unbound', 'noattr', 'noneattr', 'nonearith', 'unpack', 'keyerror', 'indexerror'}


def literals(prog, fi, p, depth=0):
    """string values the function (or the function it hands the option to) compares its option with"""
    out = set(re.findall(r"\b%s\s*==?=?\s*'([A-Za-z_]+)'" % re.escape(p), ast.get_docstring(fi.node) or ''))
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and n.left.id == p:
            for o, c in zip(n.ops, n.comparators):
                if isinstance(o, (ast.Eq, ast.NotEq)) and isinstance(c, ast.Constant) and isinstance(c.value, str):
                    out.add(c.value)
                if isinstance(o, (ast.In, ast.NotIn)) and isinstance(c, (ast.List, ast.Tuple)):
                    out |= {x.value for x in c.elts if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        if depth < 2 and isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            for k in n.keywords:
                if isinstance(k.value, ast.Name) and k.value.id == p and k.arg:
                    r = prog.resolve(fi.mod.name, n.func.id)
                    if r and r[0] == 'func' and k.arg in r[1].params and r[1] is not fi:
                        out |= literals(prog, r[1], k.arg, depth + 1)
    return out


def variants(W, fi, pairs=False):
    base = {p: N(P.atom('p_' + p)) for p in sweep.required(fi)}
    if any(p in base for p in ('units', 'origin')):
        return [('%s=%s' % (p, v), dict(base, **{p: C(v)})) for p in ('units', 'origin') if p in base
                for v in (UNITS + ['radec'] if p == 'units' else sweep.ORIGINS + ['sky'])]
    out = [('defaults', base)]
    for p in sweep.options(fi):
        d = fi.default_const(p)
        lits = literals(W.prog, fi, p)
        if isinstance(d, bool):
            out.append(('%s=%s' % (p, not d), dict(base, **{p: C(not d)})))
        elif lits:
            for v in sorted(lits):
                if v != d:
                    out.append(('%s=%r' % (p, v), dict(base, **{p: C(v)})))
        elif isinstance(d, str):
            pass
        else:
            out.append(('%s given' % p, dict(base, **{p: N(P.atom('opt_' + p), 'n')})))
    if pairs:
        single = out[1:]
        lits = [(l, k) for l, k in out[1:] if "='" in l]
        bools = [(l, k) for l, k in out[1:] if l.endswith(('=True', '=False'))]
        for i, (l, k) in enumerate(lits + bools):
            for l2, k2 in (lits + bools)[i + 1:]:
                if l.split('=')[0] != l2.split('=')[0]:
                    out.append((l + ', ' + l2, dict(k, **{q: v for q, v in k2.items() if q not in base})))
        # options the operation itself tests, given together
        ts = {m.id for n in ast.walk(fi.node) if isinstance(n, (ast.If, ast.IfExp, ast.While)) for m in ast.walk(n.test) if isinstance(m, ast.Name)}
        opt = lambda l: l.replace('=', ' ').split(' ')[0]
        own = [(l, k) for l, k in single if opt(l) in ts]
        for i, (l, k) in enumerate(own):
            for l2, k2 in own[i + 1:]:
                if opt(l) != opt(l2) and (l.endswith(' given') or l2.endswith(' given')):
                    out.append((l + ' & ' + l2, dict(k, **{q: v for q, v in k2.items() if q not in base})))
    return out


def ops(W):
    L = sweep.public_functions(W) + sweep.public_methods(W)
    m = W.prog.mod('cluster.operations')
    L += [b[-1][1] for n, b in m.binds.items() if b[-1][0] == 'func' and not n.startswith('_') and b[-1][1].params[:1] == ['cluster']]
    seen, out = set(), []
    for fi in L:
        if fi.full not in seen:
            seen.add(fi.full)
            out.append(fi)
    return out


def note(rep, I, fi, where):
    for e in I.events:
        if e['kind'] not in KINDS or e.get('intry'):
            continue
        rep.finding(e['kind'], e['fn'], str(e.get('name') or ''), str(e.get('detail') or ''), e.get('file', ''), e.get('line', 0), where)


def task(W, t):
    fi, U, A, tier = t
    rep = Report('C08')
    for lab, kw in variants(W, fi, True):
        if tier == 'quick' and lab != 'defaults' and (U, A) not in c04.QUICK_OPT:
            continue
        if tier == 'quick' and ' & ' in lab and (U, A) != ('pckms', 'cluster'):
            continue
        I = W.interp(skip=sweep.plots_private, fuel=150000 if tier == 'quick' else 600000)
        st = W.start()
        o, s = c04.start(W, I, st, U, A)
        I.events[:] = []
        I.evkeys.clear()
        where = '%s from (%s,%s), %s' % (fi.full, U, A, lab)
        try:
            I.call_func(fi, [o], dict(kw), s, None)
        except Fuel:
            rep.skip('fuel:%s %s' % (fi.full, lab))
        rep.count('runs')
        note(rep, I, fi, where)
    return rep.dump()


def run(rep, root, tier):
    rep.rule = RULE
    W = World(root)
    W._template()
    L = ops(W)
    rep.count('operations', len(L))
    tasks = [(fi, U, A, tier) for fi in L for U, A in c04.states(tier)]
    heavy = ('tail', 'orbital', 'prof')
    tasks.sort(key=lambda t: (0 if any(h in t[0].name for h in heavy) else 1, 0 if (t[1], t[2]) in c04.QUICK_OPT else 1))
    for d in pmap(lambda t: task(W, t), tasks):
        rep.merge(d)
    for d in pmap(lambda t: c16.errors(W, t), c16.tasks(W, tier)):
        rep.merge(d)
    return W.prog
