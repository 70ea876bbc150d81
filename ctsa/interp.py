"""Interprocedural abstract interpreter over the Python syntax tree.

Domain: values.py (finite constants, canonical numeric forms, tuples, dicts, objects,
functions).  States that reach a join are merged unless they differ in the typestate
(tags of tracked objects) or in the definedness / shape of live locals; differing
numeric values become phi tokens.  Nothing is executed; unknown conditions take both
branches; loops over unknown iterables are summarised by havoc to a fixpoint.
"""
import ast
import builtins as _bi
from fractions import Fraction

from . import poly as P
from .poly import Poly
from .values import *
from .program import FuncInfo, ClassInfo
from . import models

MAXUNROLL = 48
BUILTINS = set(dir(_bi))


class Fuel(Exception):
    pass


class Interp:
    def __init__(self, prog, scalars=(), skip=None, on_call=None, track=('units', 'origin', 'bunits'),
                 fuel=400000, maxstates=24, strict_fields=False, summarize=None):
        self.prog = prog
        models.SCALARS.update(scalars)
        self.skip = skip
        self.on_call = on_call
        self.track = track
        self.fuel0 = fuel
        self.fuel = fuel
        self.maxstates = maxstates
        self.events = []
        self.evkeys = set()
        self.modcache = {}
        self.intry = 0
        self.calls = 0
        self.seq = 0
        self.muted = 0
        self.visited = set()
        self.on_setattr = None
        self.on_mutate = None
        self.on_getattr = None
        self.on_loop = None
        self.on_arr = None
        self.on_ext = None
        self.loop_exact = False      # follow each for loop over an unknown sequence for exactly one iteration
        self.on_append = None         # (I, value): a value is appended to a list
        self.ext_model = None        # (I, name, args, kwargs, st, node) -> None or [(value, state)]
        self.call_model = None       # the same for a call of an unknown value (name is its Poly)
        self.loop_once = False       # follow each loop for at most one iteration (from its entry state)
        self.inline_kernels = False
        self.callstack = []
        self.rand = 0
        self.uncertain_calls = 0
        self.mask_events = False

    # ------------------------------------------------------------------ events
    def event(self, kind, node, **kw):
        if self.muted:
            return
        fr = self.callstack[-1] if self.callstack else None
        d = dict(kind=kind, fn=fr.full if fr else '<module>', file=(fr.mod.rel() if fr else ''),
                 line=getattr(node, 'lineno', 0), intry=self.intry > 0,
                 stack=[x.full for x in self.callstack])
        d.update(kw)
        key = (kind, d['fn'], d['line'], str(kw.get('name')), str(kw.get('detail')), d['intry'], str(kw.get('tags')))
        if key in self.evkeys:
            return
        self.evkeys.add(key)
        self.events.append(d)

    def tick(self, n=1):
        self.fuel -= n
        if self.fuel < 0:
            raise Fuel()

    # ------------------------------------------------------------------ states
    def shape(self, v, depth=0):
        if isinstance(v, C):
            return ('C', type(v.v).__name__, v.v)
        if isinstance(v, N):
            c = v.p.const()
            if c is not None and not isinstance(c, complex) and float(c).is_integer() and abs(c) < 50 and v.kind != 'a':
                return ('num', c)
            return ('N', v.kind is None and v.p.atom() is not None and 'U' or 'n')
        if isinstance(v, T):
            if depth < 2:
                return ('T', v.lst, tuple(self.shape(x, depth + 1) if isinstance(x, (C, O)) else type(x).__name__ for x in v.items[:12]), len(v.items))
            return ('T', len(v.items))
        if isinstance(v, D):
            return ('D', tuple(sorted(map(str, v.items))))
        if isinstance(v, O):
            return ('O', v.id)
        if isinstance(v, F):
            return ('F', v.fi.full)
        if isinstance(v, E):
            return ('E', v.name)
        return (type(v).__name__,)

    def tagkey(self, st):
        out = []
        for oid, ob in st.objs.items():
            for t in self.track:
                if t in ob.fields:
                    v = ob.fields[t]
                    out.append((oid, t, self.shape(v) if isinstance(v, C) else '?'))
        return tuple(out)

    def nonekey(self, st):
        out = []
        for oid, ob in st.objs.items():
            for t, v in ob.fields.items():
                y = type(v)
                if y is C:
                    out.append((oid, t, v.v if type(v.v) is not float else 0))
                elif y is O:
                    out.append((oid, t, v.id))
        return frozenset(out)

    jtag = ()

    def join_val(self, a, b, key):
        if a is b or a == b:
            return a
        if a is None or b is None or a is MU or b is MU:
            return MU
        if isinstance(a, T) and isinstance(b, T) and len(a.items) == len(b.items) and a.lst == b.lst:
            return T([self.join_val(x, y, key + (str(i),)) for i, (x, y) in enumerate(zip(a.items, b.items))], a.lst,
                     a.buf | b.buf)
        if isinstance(a, N) and isinstance(b, N):
            prov = a.prov if a.prov == b.prov else None
            kind = a.kind if a.kind == b.kind else ('n' if a.kind and b.kind else None)
            if a.p == b.p:
                return N(a.p, kind, a.buf | b.buf, prov, a.ln)
            if kind == 'a' and a.ln is not None and a.ln == b.ln:
                ia, ib = models.known_items(a), models.known_items(b)
                if ia is not None and ib is not None:
                    return N(P.f('array', *[x if x == y else models.joint('phi', [x, y], extra=(self.jtag,)) for x, y in zip(ia, ib)]), kind,
                             a.buf | b.buf, prov, a.ln)
            return N(models.joint('phi', [a.p, b.p], extra=(self.jtag,)), kind, a.buf | b.buf, prov,
                     a.ln if a.ln == b.ln else None)
        if isinstance(a, D) and isinstance(b, D) and set(a.items) == set(b.items):
            return D({k: self.join_val(a.items[k], b.items[k], key + (str(k),)) for k in a.items},
                     a.rest if a.rest == b.rest else P.f('phi', a.rest or P.ZERO, b.rest or P.ZERO, self.jtag), a.buf | b.buf)
        ba = getattr(a, 'buf', NOBUF) or NOBUF
        bb = getattr(b, 'buf', NOBUF) or NOBUF
        return N(P.f('phi', topoly(a), topoly(b), self.jtag), None, ba | bb)

    def join_states(self, a, b):
        r = a.copy()
        for k in list(r.objs):
            ob = b.objs.get(k)
            if ob is None:
                continue
            fa, fb = r.objs[k].fields, ob.fields
            for n in list(fa) + [x for x in fb if x not in fa]:
                if n in fa and n in fb:
                    fa[n] = self.join_val(fa[n], fb[n], (k, n))
                else:
                    fa[n] = N(P.f('maybefield', k, n))
        for k, ob in b.objs.items():
            if k not in r.objs:
                r.objs[k] = ob.copy()
        r.nobj = max(a.nobj, b.nobj)
        for fa, fb in zip(r.frames, b.frames):
            for n in list(fa.env) + [x for x in fb.env if x not in fa.env]:
                if n in fa.env and n in fb.env:
                    fa.env[n] = self.join_val(fa.env[n], fb.env[n], (n,))
                else:
                    fa.env[n] = MU
        r.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        if a.log != b.log:
            r.log = a.log if len(a.log) >= len(b.log) else b.log
        return r

    def merge(self, sts, line_end=None):
        """merge states (same frame depth)"""
        if len(sts) <= 1:
            return sts
        fi = sts[0].frames[-1].fi if sts[0].frames else None
        live = None
        if fi is not None and line_end is not None:
            live = fi.live_after(line_end) | set(fi.params)
        groups = {}
        order = []
        at = (fi.full if fi else '', line_end)
        for i, s in enumerate(sts):
            self.jtag = at + (i,)
            env = s.frames[-1].env if s.frames else {}
            names = env.keys() if live is None else [n for n in env if n in live]
            k = (self.tagkey(s), self.nonekey(s), frozenset((n, self.shape(env[n])) for n in names))
            if k not in groups:
                groups[k] = s
                order.append(k)
            else:
                groups[k] = self.join_states(groups[k], s)
        out = [groups[k] for k in order]
        if len(out) > self.maxstates:
            g2 = {}
            order = []
            for i, s in enumerate(out):
                self.jtag = at + ('x', i)
                k = self.tagkey(s)
                if k not in g2:
                    g2[k] = s
                    order.append(k)
                else:
                    g2[k] = self.join_states(g2[k], s)
            out = [g2[k] for k in order]
        return out

    # ------------------------------------------------------------------ calls
    def call(self, fv, args, kwargs, st, node, star=False):
        """-> list of (value, state); args list of values, kwargs dict, star: unknown extra arguments"""
        self.tick()
        if isinstance(fv, F):
            a = list(args)
            if fv.self_val is not None:
                a = [fv.self_val] + a
            return self.call_func(fv.fi, a, kwargs, st, node, fv.closure, star)
        if isinstance(fv, K):
            o = st.new_obj(fv.ci)
            init = fv.ci.methods.get('__init__')
            if init is None:
                return [(o, st)]
            return [(o, s) for v, s in self.call_func(init, [o] + list(args), kwargs, st, node, None, star)]
        if isinstance(fv, E):
            return models.ext_call(self, fv.name, args, kwargs, st, node)
        if isinstance(fv, BM):
            return models.method_call(self, fv, args, kwargs, st, node)
        if isinstance(fv, O):
            cls = st.objs[fv.id].cls
            if cls is not None and '__call__' in cls.methods:
                return self.call_func(cls.methods['__call__'], [fv] + list(args), kwargs, st, node, None, star)
        if self.call_model is not None:
            r = self.call_model(self, topoly(fv), args, kwargs, st, node)
            if r is not None:
                return r
        p = P.f('call', topoly(fv), tuple(topoly(x) for x in args), tuple((k, topoly(v)) for k, v in sorted(kwargs.items())))
        return [(N(p), st)]

    def opaque_call(self, name, args, kwargs, kind=None):
        p = P.f('call:' + name, tuple(topoly(x) for x in args),
                tuple((k, topoly(v)) for k, v in sorted(kwargs.items())))
        return N(p, kind, newbuf())

    def bind(self, fi, args, kwargs, star=False, rest=None):
        """-> (bound dict name->value or missing, error or None)"""
        b = {}
        n = len(fi.params)
        extra = list(args[n:])
        for p, v in zip(fi.params, args):
            b[p] = v
        if extra and not fi.vararg:
            return b, 'takes %d positional arguments but %d were given' % (n, len(args))
        kw = {}
        for k, v in kwargs.items():
            if k in fi.params and k not in fi.posonly or k in fi.kwonly:
                if k in b:
                    return b, "got multiple values for argument '%s'" % k
                b[k] = v
            elif fi.kwarg:
                kw[k] = v
            else:
                return b, "got an unexpected keyword argument '%s'" % k
        if fi.vararg:
            b[fi.vararg] = T(extra)
        if fi.kwarg:
            b[fi.kwarg] = D(kw, rest)
        for p in fi.params + fi.kwonly:
            if p not in b and p not in fi.defaults:
                if star or rest is not None:
                    b[p] = N(P.f('restarg', fi.full, p))
                else:
                    return b, "missing required argument '%s'" % p
        return b, None

    def call_func(self, fi, args, kwargs, st, node, closure=None, star=False):
        self.calls += 1
        self.visited.add(fi.full)
        kwargs = dict(kwargs)
        rest = kwargs.pop('**', None)
        b, err = self.bind(fi, args, kwargs, star, rest)
        if err:
            self.event('bind', node, name=fi.full, detail=err, tags=self.tagdesc(st))
            return []
        if self.on_call is not None:
            r = self.on_call(self, fi, b, st, node)
            if r is not None:
                return r
        if self.skip is not None and self.skip(fi):
            self.uncertain_calls += 1
            return [(self.opaque_call('skip:' + fi.full, [b[k] for k in sorted(b)], {}), st)]
        if fi.numba and not self.inline_kernels:
            return [(N(P.f('kernel:' + fi.full, tuple(topoly(b[p]) for p in fi.params if p in b)), None, newbuf()), st)]
        if sum(1 for x in self.callstack if x is fi) >= 2 or len(self.callstack) > 40:
            self.uncertain_calls += 1
            return [(self.opaque_call('rec:' + fi.full, [b[k] for k in sorted(b)], {}), st)]
        st.frames.append(Frame({}, fi, fi.mod, closure))
        self.callstack.append(fi)
        intry, self.intry = self.intry, self.intry
        try:
            outs = []
            sts = [st]
            # defaults
            env = st.frames[-1].env
            env.update(b)
            for p in fi.params + fi.kwonly:
                if p not in b:
                    v = self.default_val(fi, p, st)
                    env[p] = v
            for kind, s, v in self.block(fi.body(), st):
                if kind == 'return':
                    outs.append((v, s))
                elif kind == 'next':
                    outs.append((NONE, s))
        finally:
            self.callstack.pop()
            self.intry = intry
        for v, s in outs:
            s.frames.pop()
        return self.merge_ret(outs)

    def default_val(self, fi, p, st):
        d = fi.defaults[p]
        try:
            v = ast.literal_eval(d)
            return self.lit(v)
        except Exception:
            pass
        r = self.module_eval(fi.mod, d)
        return r

    def lit(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return C(v)
        if isinstance(v, (int, float, complex)):
            return N(P.num(v), 's')
        if isinstance(v, (list, tuple)):
            return T([self.lit(x) for x in v], isinstance(v, list))
        if isinstance(v, dict):
            return D({k: self.lit(x) for k, x in v.items()})
        return N(P.f('lit', repr(v)))

    def module_eval(self, mod, node):
        key = (mod.name, id(node))
        if key in self.modcache:
            v = self.modcache[key]
            if isinstance(v, (T, D)):
                v = self.fresh(v)
            return v
        self.modcache[key] = N(P.f('modcycle', mod.name, getattr(node, 'lineno', 0)))
        s = State()
        s.frames.append(Frame({}, None, mod, None))
        self.muted += 1
        try:
            r = self.ev(node, s)
        except Fuel:
            raise
        finally:
            self.muted -= 1
        v = r[0][0] if r else N(P.f('moderr', mod.name, getattr(node, 'lineno', 0)))
        if isinstance(v, O):
            v = N(P.f('modobj', mod.name, getattr(node, 'lineno', 0)))
        self.modcache[key] = v
        return v

    def fresh(self, v):
        if isinstance(v, T):
            return T([self.fresh(x) for x in v.items], v.lst)
        if isinstance(v, D):
            return D({k: self.fresh(x) for k, x in v.items.items()}, v.rest)
        return v

    def merge_ret(self, outs):
        if len(outs) <= 1:
            return outs
        groups = {}
        order = []
        fi = outs[0][1].frames[-1].fi if outs[0][1].frames else None
        at = (fi.full if fi else '', 'ret')
        for i, (v, s) in enumerate(outs):
            self.jtag = at + (i,)
            env_key = ()
            if s.frames:
                env = s.frames[-1].env
                env_key = frozenset((n, self.shape(x)) for n, x in env.items() if isinstance(x, C))
            k = (self.tagkey(s), self.nonekey(s), self.shape(v), env_key)
            if k not in groups:
                groups[k] = (v, s)
                order.append(k)
            else:
                v0, s0 = groups[k]
                groups[k] = (self.join_val(v0, v, ('ret',)), self.join_states(s0, s))
        out = [groups[k] for k in order]
        if len(out) > self.maxstates:
            g2 = {}
            order = []
            for i, (v, s) in enumerate(out):
                self.jtag = at + ('x', i)
                k = (self.tagkey(s),)
                if k not in g2:
                    g2[k] = (v, s)
                    order.append(k)
                else:
                    v0, s0 = g2[k]
                    g2[k] = (self.join_val(v0, v, ('ret',)), self.join_states(s0, s))
            out = [g2[k] for k in order]
        return out

    def tagdesc(self, st):
        out = []
        for oid, ob in st.objs.items():
            t = [str(ob.fields[x].v) if isinstance(ob.fields.get(x), C) else '?' for x in self.track if x in ob.fields]
            if t:
                out.append('/'.join(t))
        return ' '.join(out)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        """-> list of (kind, state, value)"""
        cur = [st]
        outs = []
        for s in stmts:
            nxt = []
            for c in cur:
                for kind, s2, v in self.stmt(s, c):
                    if kind == 'next':
                        nxt.append(s2)
                    else:
                        outs.append((kind, s2, v))
            cur = self.merge(nxt, getattr(s, 'end_lineno', None)) if len(nxt) > 1 else nxt
            if not cur:
                break
        return outs + [('next', c, None) for c in cur]

    def stmt(self, n, st):
        self.tick()
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            return [('next', st, None)]
        return m(n, st)

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [('next', st, None)]
        return [('next', s, None) for v, s in self.ev(n.value, st)]

    def s_Pass(self, n, st):
        return [('next', st, None)]

    def s_Break(self, n, st):
        return [('break', st, None)]

    def s_Continue(self, n, st):
        return [('continue', st, None)]

    def s_Return(self, n, st):
        if n.value is None:
            return [('return', st, NONE)]
        return [('return', s, v) for v, s in self.ev(n.value, st)]

    def s_Raise(self, n, st):
        return [('raise', st, None)]

    def s_Global(self, n, st):
        return [('next', st, None)]

    s_Nonlocal = s_Global

    def s_Assert(self, n, st):
        return [('next', s, None) for b, s in self.cond(n.test, st) if b]

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return [('next', st, None)]

    def s_Import(self, n, st):
        for a in n.names:
            nm = a.name if a.asname else a.name.split('.')[0]
            st.env[a.asname or nm] = M(nm) if nm in self.prog.mods else E(nm)
        return [('next', st, None)]

    def s_ImportFrom(self, n, st):
        mod = st.frames[-1].mod
        base = mod._abs(n)
        for a in n.names:
            if a.name == '*':
                continue
            r = None
            if base in self.prog.mods:
                r = self.prog.resolve(base, a.name)
                if r is None and base + '.' + a.name in self.prog.mods:
                    r = ('mod', base + '.' + a.name)
                if r is None:
                    self.event('undefined', n, name=a.name, detail='import from ' + base)
                    return [('raise', st, None)]
            else:
                r = ('ext', base + '.' + a.name)
            st.env[a.asname or a.name] = self.resolved(r)
        return [('next', st, None)]

    def s_FunctionDef(self, n, st):
        fi = FuncInfo(st.frames[-1].mod, n, outer=st.frames[-1].fi)
        fr = st.frames[-1]
        st.env[n.name] = F(fi, None, len(st.frames))
        return [('next', st, None)]

    def s_ClassDef(self, n, st):
        st.env[n.name] = K(ClassInfo(st.frames[-1].mod, n))
        return [('next', st, None)]

    def s_Assign(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            sts = [s]
            for t in n.targets:
                sts = [s3 for s2 in sts for s3 in self.assign(t, v, s2)]
            out += [('next', s2, None) for s2 in sts]
        return out

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [('next', st, None)]
        return [('next', s2, None) for v, s in self.ev(n.value, st) for s2 in self.assign(n.target, v, s)]

    def s_AugAssign(self, n, st):
        t = n.target
        out = []
        if isinstance(t, ast.Name):
            ld = ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
            for vals, s in self.evs([ld, n.value], st):
                a, b = vals
                v = self.binop(n.op, a, b, n)
                self.inplace(a, v, s, n, lambda nv, s: s.env.__setitem__(t.id, nv))
                out.append(('next', s, None))
        elif isinstance(t, ast.Attribute):
            for vals, s in self.evs([t.value, n.value], st):
                o, b = vals
                for a, s2 in self.getattr(o, t.attr, s, t):
                    v = self.binop(n.op, a, b, n)
                    self.inplace(a, v, s2, n, lambda nv, s3: self.setattr(o, t.attr, nv, s3, n))
                    out.append(('next', s2, None))
        elif isinstance(t, ast.Subscript):
            for vals, s in self.evs([t.value, n.value], st):
                o, b = vals
                for ix, s2 in self.ev_index(t.slice, s):
                    a = self.subscript(o, ix, s2, t)
                    v = self.binop(n.op, a, b, n)
                    out += [('next', s3, None) for s3 in self.store_sub(t, o, ix, v, s2, n)]
        return out

    def inplace(self, a, v, st, node, store):
        """x op= y"""
        if self.on_mutate and getattr(a, 'buf', None) and not self.muted and (isinstance(a, N) and a.kind in ('a', None) or isinstance(a, T) and a.lst):
            self.on_mutate(self, a, node.target, st, node)
        if isinstance(a, N) and isinstance(v, N) and a.kind in ('a', None) and a.buf:
            if a.kind == 'a' or True:
                self.event('mutate', node, name='augassign', detail=bufdesc(a.buf), buf=a.buf, akind=a.kind, op='aug',
                           tags=None)
            if a.kind == 'a':
                nv = N(v.p, 'a', a.buf, v.prov, a.ln)
                self.mutated(a, nv, st)
                store(nv, st)
                return
            nv = N(v.p, v.kind if v.kind else a.kind, newbuf(), v.prov, a.ln)
            store(nv, st)
            return
        if isinstance(a, T) and a.lst and isinstance(v, T):
            nv = T(v.items, True, a.buf)
            self.mutated(a, nv, st)
            store(nv, st)
            return
        if isinstance(a, N) and isinstance(v, N) and v.kind != 'a':
            v = N(v.p, v.kind, a.buf or v.buf, v.prov, v.ln) if False else v
        store(v, st)

    def mutated(self, old, new, st):
        """all aliases of old (same buffer) see the new value"""
        buf = old.buf
        if not buf:
            return

        def upd(x):
            if isinstance(x, N) and x.buf and x is not new and (x.buf & buf):
                if x.p == old.p and x.buf == buf:
                    return N(new.p, x.kind, x.buf, new.prov, x.ln)
                return N(P.f('mut', x.p, new.p), x.kind, x.buf, x.prov, x.ln)
            if isinstance(x, T):
                if x.lst and x.buf & buf and x is not new and isinstance(new, T):
                    return T(new.items, True, x.buf)
                its = [upd(y) for y in x.items]
                if any(p is not q for p, q in zip(its, x.items)):
                    return T(its, x.lst, x.buf)
                return x
            if isinstance(x, D):
                if x.buf & buf and x is not new and isinstance(new, D):
                    return new
            return x
        for ob in st.objs.values():
            for k, x in ob.fields.items():
                y = upd(x)
                if y is not x:
                    ob.fields[k] = y
        for fr in st.frames:
            for k, x in fr.env.items():
                y = upd(x)
                if y is not x:
                    fr.env[k] = y

    def assign(self, t, v, st):
        """-> list of states"""
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for o, s in self.ev(t.value, st):
                self.setattr(o, t.attr, v, s, t)
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for o, s in self.ev(t.value, st):
                for ix, s2 in self.ev_index(t.slice, s):
                    out += self.store_sub(t, o, ix, v, s2, t)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            sts = [st]
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                vals = [N(P.f('unpack', topoly(v), i)) for i in range(n)]
            elif isinstance(v, T) and len(v.items) == n:
                vals = list(v.items)
            elif isinstance(v, T):
                self.event('unpack', t, name='', detail='cannot unpack %d values into %d targets' % (len(v.items), n),
                           tags=self.tagdesc(st))
                return []
            elif isinstance(v, C) and v.v is None:
                self.event('unpack', t, name='', detail='cannot unpack None into %d targets' % n, tags=self.tagdesc(st))
                return []
            elif isinstance(v, N) and v.p.mono() and v.kind == 's' and v.p.const() is not None:
                vals = [N(P.f('unpack', topoly(v), i)) for i in range(n)]
            else:
                p = topoly(v)
                vals = [models.item(v, i) if isinstance(v, N) else N(P.f('unpack', p, i)) for i in range(n)]
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    e = e.value
                sts = [s2 for s in sts for s2 in self.assign(e, x, s)]
            return sts
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        return [st]

    def store_sub(self, tnode, o, ix, v, st, node):
        if self.on_mutate and getattr(o, 'buf', None) and not self.muted:
            self.on_mutate(self, o, tnode.value, st, node)
        if isinstance(o, D):
            if isinstance(ix, C) or (isinstance(ix, N) and ix.p.const() is not None):
                k = ix.v if isinstance(ix, C) else ix.p.const()
                nd = D({**o.items, k: v}, o.rest, o.buf)
            else:
                nd = D(o.items, P.f('dstore', o.rest or P.ZERO, topoly(ix), topoly(v)), o.buf)
            self.mutated_replace(o, nd, tnode, st)
            return [st]
        if isinstance(o, T):
            i = models.const_int(ix)
            if i is not None and -len(o.items) <= i < len(o.items):
                its = list(o.items)
                its[i] = v
                nt = T(its, o.lst, o.buf)
            else:
                # unknown position: whole list becomes unknown
                nt = N(P.f('upd', topoly(o), topoly(ix), topoly(v)), None, o.buf or newbuf())
            self.mutated_replace(o, nt, tnode, st)
            return [st]
        if isinstance(o, N):
            self.event('mutate', node, name='store', detail=bufdesc(o.buf), buf=o.buf, akind=o.kind, op='store', tags=None)
            np_ = models.update_known(o, ix, v)
            if np_ is None:
                np_ = models.update(o, ix, v)
            nv = N(np_, o.kind if o.kind else None, o.buf or newbuf(), o.prov, o.ln)
            if o.buf:
                self.mutated(o, nv, st)
            self.mutated_replace(o, nv, tnode, st)
            return [st]
        if isinstance(o, O):
            return [st]
        return [st]

    def mutated_replace(self, old, new, tnode, st):
        """replace the value held at the syntactic base of a subscript store"""
        if isinstance(old, (D, T)) and old.buf:
            def sub(x):
                if type(x) is type(old) and x.buf == old.buf:
                    return new
                return x
            for ob in st.objs.values():
                for k, x in list(ob.fields.items()):
                    ob.fields[k] = sub(x)
            for fr in st.frames:
                for k, x in list(fr.env.items()):
                    fr.env[k] = sub(x)
        b = tnode.value
        if isinstance(b, ast.Name):
            if b.id in st.env:
                st.env[b.id] = new
        elif isinstance(b, ast.Attribute):
            for o, s in self.ev(b.value, st)[:1]:
                self.setattr(o, b.attr, new, st, tnode, quiet=True)
        elif isinstance(b, ast.Subscript):
            pass

    def s_If(self, n, st):
        outs = []
        nxt = []
        for b, s in self.cond(n.test, st):
            body = n.body if b else n.orelse
            for kind, s2, v in self.block(body, s):
                if kind == 'next':
                    nxt.append(s2)
                else:
                    outs.append((kind, s2, v))
        nxt = self.merge(nxt, n.end_lineno)
        return outs + [('next', s, None) for s in nxt]

    def s_With(self, n, st):
        sts = [st]
        for it in n.items:
            new = []
            for s in sts:
                for v, s2 in self.ev(it.context_expr, s):
                    if it.optional_vars is not None:
                        new += self.assign(it.optional_vars, v, s2)
                    else:
                        new.append(s2)
            sts = new
        return [o for s in sts for o in self.block(n.body, s)]

    def s_Try(self, n, st):
        pre = st.copy()
        self.intry += 1
        try:
            outs = self.block(n.body, st)
        finally:
            self.intry -= 1
        res = []
        nxt = []
        for kind, s, v in outs:
            if kind == 'next':
                for k2, s2, v2 in (self.block(n.orelse, s) if n.orelse else [('next', s, None)]):
                    (nxt.append(s2) if k2 == 'next' else res.append((k2, s2, v2)))
            elif kind == 'raise':
                pass
            else:
                res.append((kind, s, v))
        for h in n.handlers:
            s = pre.copy()
            if h.name:
                s.env[h.name] = N(P.f('exc', h.lineno))
            for k2, s2, v2 in self.block(h.body, s):
                (nxt.append(s2) if k2 == 'next' else res.append((k2, s2, v2)))
        nxt = self.merge(nxt, n.end_lineno)
        if n.finalbody:
            r2 = []
            for s in nxt:
                r2 += self.block(n.finalbody, s)
            for kind, s, v in res:
                for k2, s2, v2 in self.block(n.finalbody, s):
                    r2.append((kind, s2, v) if k2 == 'next' else (k2, s2, v2))
            return r2
        return res + [('next', s, None) for s in nxt]

    # loops -------------------------------------------------------------
    def s_For(self, n, st):
        out = []
        for it, s in self.ev(n.iter, st):
            items = models.iter_items(it)
            if items is not None and len(items) <= MAXUNROLL:
                out += self.unroll(n, items, s)
            elif self.loop_exact:
                out += self.exactloop(n, s, it)
            else:
                out += self.absloop(n, s, it)
        return out

    def unroll(self, n, items, st):
        cur = [st]
        outs = []
        brk = []
        for x in items:
            nxt = []
            for s in cur:
                for s1 in self.assign(n.target, x, s):
                    for kind, s2, v in self.block(n.body, s1):
                        if kind in ('next', 'continue'):
                            nxt.append(s2)
                        elif kind == 'break':
                            brk.append(s2)
                        else:
                            outs.append((kind, s2, v))
            cur = self.merge(nxt, n.body[-1].end_lineno) if len(nxt) > 1 else nxt
            if not cur:
                break
        fin = []
        for s in cur:
            for k, s2, v in (self.block(n.orelse, s) if n.orelse else [('next', s, None)]):
                (fin.append(s2) if k == 'next' else outs.append((k, s2, v)))
        fin = self.merge(fin + brk, n.end_lineno)
        return outs + [('next', s, None) for s in fin]

    def exactloop(self, n, st, it):
        nid = '%s:%d' % (st.frames[-1].fi.full if st.frames[-1].fi else '', n.lineno - (st.frames[-1].fi.node.lineno if st.frames[-1].fi else 0))
        ctx = (st.frames[0].env.get('__loops') if isinstance(st.frames[0].env.get('__loops'), T) else T([])).items
        cnt = N(topoly(it)) if it is not None else N(P.atom('?'))
        st.frames[0].env['__loops'] = T(tuple(ctx) + (cnt,))
        before = {k: v for k, v in st.env.items() if isinstance(v, T)}
        outs = []
        for kind, s2, v in self.unroll(n, [models.iter_elem(it, nid)], st):
            if '__loops' in s2.frames[0].env:
                s2.frames[0].env['__loops'] = T(ctx)
            if kind == 'next':
                for k, w in list(s2.env.items()):
                    b = before.get(k)
                    if b is not None and isinstance(w, T) and len(w.items) != len(b.items):
                        s2.env[k] = N(P.f('built', *[topoly(x) for x in w.items[len(b.items):]]), 'a', w.buf)
            outs.append((kind, s2, v))
        return outs

    def read_digest(self, n, st, extra=None):
        names = set()
        attrs = set()
        hascall = False
        for m in ast.walk(n):
            if isinstance(m, ast.Name):
                names.add(m.id)
            elif isinstance(m, ast.Attribute):
                attrs.add(m.attr)
        parts = []
        env = st.frames[-1].env
        for k in sorted(names):
            if k in env:
                v = env[k]
                if isinstance(v, O):
                    f_ = st.objs[v.id].fields
                    core = {'x', 'y', 'z', 'vx', 'vy', 'vz', 'm', 'r', 'v'}
                    for a in sorted((attrs | core) & set(f_)):
                        if not isinstance(f_[a], O):
                            parts.append((k + '.' + a, topoly(f_[a])))
                elif v is not MU and not isinstance(v, F):
                    parts.append((k, topoly(v)))
        return P.digest(tuple(parts))

    def absloop(self, n, st, it):
        isfor = isinstance(n, ast.For)
        nid = '%s:%d' % (st.frames[-1].fi.full if st.frames[-1].fi else '', n.lineno - (st.frames[-1].fi.node.lineno if st.frames[-1].fi else 0))
        dg = self.read_digest(n, st)
        pend = [(st, set())]
        seen = {}
        outs = []
        exits = []
        rounds = 0
        iterval = None
        if isfor:
            iterval = models.iter_elem(it, nid)

        def havoc(s, changed, tag):
            for (w, a, b) in changed:
                if w == 'env':
                    old = s.frames[a].env.get(b)
                    if old is None:
                        continue
                    s.frames[a].env[b] = self.hav(old, (tag, nid, b, dg))
                else:
                    f_ = s.objs[a].fields if a in s.objs else None
                    if f_ is not None and b in f_:
                        f_[b] = self.hav(f_[b], (tag, nid, a + '.' + b, dg))

        changed = set()
        entry_tags = {}
        while rounds < 6:
            rounds += 1
            newchanged = set(changed)
            exits = []
            outs_r = []
            brks = []
            ends = []
            entries = {self.tagkey(st): st}
            work = [st]
            done = set()
            self.muted += (0 if rounds > 1 else 1)
            try:
                while work:
                    base = work.pop()
                    tk = self.tagkey(base)
                    if tk in done:
                        continue
                    done.add(tk)
                    s = base.copy()
                    havoc(s, changed, 'loop')
                    if rounds > 1:
                        s.facts = {}
                    heads = []
                    s0 = s.copy()
                    if isfor:
                        heads = self.assign(n.target, iterval, s)
                        ex = []
                    else:
                        for b, s2 in self.cond(n.test, s):
                            if b:
                                heads.append(s2)
                            else:
                                exits.append(s2)
                    for h in heads:
                        h0 = h.copy()
                        for kind, s2, v in self.block(n.body, h):
                            if kind in ('next', 'continue'):
                                if not self.loop_once:
                                    newchanged |= self.diff(s0, s2)
                                ends.append((h0, s2))
                                if isfor:
                                    exits.append(s2)
                                else:
                                    for b, s3 in self.cond(n.test, s2.copy()):
                                        if not b:
                                            exits.append(s3)
                                t2 = self.tagkey(s2)
                                if t2 not in done and not self.loop_once:
                                    b2 = s2.copy()
                                    work.append(b2)
                            elif kind == 'break':
                                brks.append(s2)
                                newchanged |= set()
                            else:
                                outs_r.append((kind, s2, v))
            finally:
                self.muted -= (0 if rounds > 1 else 1)
            outs = outs_r
            if newchanged == changed and rounds > 1:
                break
            changed = newchanged
        if self.on_loop is not None:
            self.on_loop(self, n, nid, st, ends, changed)
        # variables still carrying loop tokens keep them (value of an unknown iteration)
        fin = []
        for s in exits + brks:
            s.facts = {}
            fin.append(s)
        if isfor and it is not None and not exits and not brks:
            pass
        # zero iterations: only when nothing new is defined by the loop
        z = st.copy()
        if isfor:
            for k in assigned_names(n):
                if k not in z.env:
                    z.env[k] = N(P.f('loopdef', nid, k, dg))
            fin.append(z)
        res = []
        for s in self.merge(fin, n.end_lineno):
            for k, s2, v in (self.block(n.orelse, s) if n.orelse else [('next', s, None)]):
                res.append((k, s2, v))
        return outs + res

    def hav(self, old, key):
        if isinstance(old, N):
            return N(P.f(*key), old.kind, old.buf, None)
        if isinstance(old, C):
            return N(P.f(*key))
        if isinstance(old, T):
            return N(P.f(*key), None, old.buf)
        if isinstance(old, (O, F, K, M, E)):
            return old
        return N(P.f(*key))

    def diff(self, a, b):
        ch = set()
        for i, (fa, fb) in enumerate(zip(a.frames, b.frames)):
            for k, v in fb.env.items():
                w = fa.env.get(k)
                if w is not None and w is not v and not (w == v):
                    ch.add(('env', i, k))
        for oid, ob in b.objs.items():
            oa = a.objs.get(oid)
            if oa is None:
                continue
            for k, v in ob.fields.items():
                w = oa.fields.get(k)
                if w is not None and w is not v and not (w == v):
                    if k in self.track:
                        continue
                    ch.add(('fld', oid, k))
        return ch

    def s_While(self, n, st):
        # bounded concrete unrolling when the condition stays decided
        return self.absloop(n, st, None)

    # ------------------------------------------------------------------ conditions
    def cond(self, n, st):
        """-> list of (bool, state)"""
        self.tick()
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            cur = [st]
            out = []
            for i, x in enumerate(n.values):
                nxt = []
                for s in cur:
                    for b, s2 in self.cond(x, s):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            out.append((b, s2))
                cur = nxt
            out += [(isand, s) for s in cur]
            return self.merge_cond(out)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(not b, s) for b, s in self.cond(n.operand, st)]
        out = []
        for v, s in self.ev(n, st):
            b = self.truth(v, s)
            if b is not None:
                out.append((b, s))
            else:
                s2 = s.copy()
                self.assume(v, True, s)
                self.assume(v, False, s2)
                out.append((True, s))
                out.append((False, s2))
        return out

    def merge_cond(self, out):
        res = []
        for want in (True, False):
            sts = [s for b, s in out if b == want]
            if len(sts) > 1:
                # facts differ only: merge when identical otherwise
                sts = self.merge(sts)
            res += [(want, s) for s in sts]
        return res

    def truth(self, v, st=None):
        if isinstance(v, C):
            return bool(v.v)
        if isinstance(v, T):
            return len(v.items) > 0
        if isinstance(v, D):
            return True if v.items else (None if v.rest is not None else False)
        if isinstance(v, (F, K, M, E, O, BM)):
            return True
        if isinstance(v, N):
            c = v.p.const()
            if c is not None and v.kind != 'a':
                return bool(c)
            if st is not None:
                fct = st.facts.get(('t', P.digest(v.p)))
                if fct is not None:
                    return fct
                return self.fact_of(v.p, st)
        return None

    def fact_of(self, p, st):
        a = p.atom()
        if isinstance(a, tuple):
            if a[1] == 'not':
                x = self.truth(N(a[2], 's'), st)
                return None if x is None else (not x)
            if a[1] == 'isnone':
                return st.facts.get(('t', P.digest(p)))
            if a[1] in ('ge0', 'gt0', 'eq0', 'ne0') and isinstance(a[2], P.Poly):
                return self.sign_fact(a[1], a[2], st)
        m = p.mono()
        if m and m[0] == 1 and len(m[1]) > 1 and all(isinstance(x, tuple) and x[1] in P.BOOL for x, e in m[1]):
            r = True
            for x, e in m[1]:
                t = self.truth(N(P.atom(x), 's'), st)
                if t is False:
                    return False
                if t is None:
                    r = None
            return r
        return None

    SIGNS = {'ge0': {0, 1}, 'gt0': {1}, 'eq0': {0}, 'ne0': {-1, 1}}

    def sign_fact(self, rel, q, st):
        """decide sign(q) rel from earlier comparisons of the same two values"""
        poss = {-1, 0, 1}
        for r, ok in self.SIGNS.items():
            for x, flip in ((q, 1), (P.neg(q), -1)):
                f = st.facts.get(('t', P.digest(P.f(r, x))))
                if f is not None:
                    s = {flip * k for k in ok}
                    poss &= s if f else ({-1, 0, 1} - s)
        if not poss or len(poss) == 3:
            return None
        want = self.SIGNS[rel]
        return True if poss <= want else (False if not poss & want else None)

    def assume(self, v, b, st):
        if isinstance(v, N):
            st.facts[('t', P.digest(v.p))] = b
            a = v.p.atom()
            if isinstance(a, tuple):
                if a[1] == 'not':
                    self.assume(N(a[2], 's'), not b, st)
                elif a[1] == 'eqs' and b:
                    self.refine(a[2], C(a[3]) if not (isinstance(a[3], float)) else N(P.num(a[3]), 's'), st)
                elif a[1] == 'isnone':
                    if b:
                        self.refine(a[2], NONE, st)
                    else:
                        self.refine_kind(a[2], st)
                elif a[1] == 'eq0' and b:
                    pass
                elif isinstance(v.kind, type(None)) and not b:
                    pass

    def refine(self, p, val, st):
        def sub(x):
            if isinstance(x, N) and x.p == p and x.kind != 'a':
                return val
            if isinstance(x, T):
                its = [sub(y) for y in x.items]
                if any(i is not j for i, j in zip(its, x.items)):
                    return T(its, x.lst, x.buf)
            return x
        for ob in st.objs.values():
            for k, x in list(ob.fields.items()):
                ob.fields[k] = sub(x)
        for fr in st.frames:
            for k, x in list(fr.env.items()):
                fr.env[k] = sub(x)

    def refine_kind(self, p, st):
        st.facts[('notnone', P.digest(p))] = True

    # ------------------------------------------------------------------ expressions
    def evs(self, nodes, st):
        outs = [([], st)]
        for n in nodes:
            new = []
            for vals, s in outs:
                for v, s2 in self.ev(n, s):
                    new.append((vals + [v], s2))
            outs = new
        return outs

    def ev(self, n, st):
        self.tick()
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return [(N(P.f('expr', type(n).__name__, getattr(n, 'lineno', 0))), st)]
        return m(n, st)

    def e_Constant(self, n, st):
        return [(self.lit(n.value), st)]

    def e_Name(self, n, st):
        v = self.lookup(n.id, st, n)
        if v is None:
            return []
        return [(v, st)]

    def lookup(self, name, st, n):
        fr = st.frames[-1]
        if name in fr.env:
            v = fr.env[name]
            if v is MU:
                v = N(P.f('maybe', name))
                fr.env[name] = v
            return v
        fi = fr.fi
        if fi is not None and name in fi.locals():
            self.event('unbound', n, name=name, detail='local variable read before assignment', tags=self.tagdesc(st))
            return None
        # closures
        if isinstance(fr.closure, int):
            for f2 in reversed(st.frames[:fr.closure]):
                if name in f2.env:
                    return f2.env[name] if f2.env[name] is not MU else N(P.f('maybe', name))
        r = self.prog.resolve(fr.mod.name, name)
        if r is not None:
            return self.resolved(r)
        if name in BUILTINS:
            return E('builtins.' + name)
        if name in ('__file__', '__name__', '__doc__'):
            return N(P.f('dunder', name))
        if self.prog.ext_star(fr.mod.name):
            return E('?.' + name)
        self.event('undefined', n, name=name, detail='name is not defined', tags=self.tagdesc(st))
        return None

    def resolved(self, r):
        k = r[0]
        if k == 'func':
            return F(r[1])
        if k == 'class':
            return K(r[1])
        if k == 'mod':
            return M(r[1])
        if k == 'ext':
            return models.ext_value(r[1])
        if k == 'expr':
            return self.module_eval(r[1], r[2])
        if k == 'exprix':
            v = self.module_eval(r[1], r[2])
            if isinstance(v, T) and r[3] < len(v.items):
                return v.items[r[3]]
            return N(P.f('unpack', topoly(v), r[3]))
        return N(P.f('resolved', str(r)))

    def e_Attribute(self, n, st):
        out = []
        for o, s in self.ev(n.value, st):
            out += self.getattr(o, n.attr, s, n)
        return out

    def getattr(self, o, attr, st, n):
        if isinstance(o, O):
            ob = st.objs[o.id]
            if self.on_getattr is not None:
                self.on_getattr(self, o, attr, st, n)
            if attr in ob.fields:
                return [(ob.fields[attr], st)]
            if ob.cls is not None:
                mth = ob.cls.methods.get(attr)
                if mth is not None:
                    if 'property' in mth.decos:
                        return self.call_func(mth, [o], {}, st, n)
                    return [(F(mth, o if 'staticmethod' not in mth.decos else None), st)]
                if attr in ob.cls.attrs:
                    return [(self.module_eval(ob.cls.mod, ob.cls.attrs[attr]), st)]
            if attr == '__dict__':
                return [(N(P.f('dict', o.id)), st)]
            if attr == '__class__':
                return [(K(ob.cls) if ob.cls else N(P.f('cls')), st)]
            if ob.open:
                v = N(P.f('field', o.id, attr), None, frozenset((('field', attr),)))
                ob.fields[attr] = v
                return [(v, st)]
            self.event('noattr', n, name=attr, detail="%s object has no attribute '%s'" % (ob.cls.name if ob.cls else 'object', attr),
                       tags=self.tagdesc(st))
            return []
        if isinstance(o, M):
            r = self.prog.resolve(o.name, attr)
            if r is None:
                self.event('noattr', n, name=attr, detail="module %s has no attribute '%s'" % (o.name, attr), tags=self.tagdesc(st))
                return []
            return [(self.resolved(r), st)]
        if isinstance(o, E):
            bad = models.ext_missing(o.name + '.' + attr)
            if bad:
                self.event('noattr', n, name=attr, detail=bad, tags=self.tagdesc(st))
                return []
            return [(models.ext_value(o.name + '.' + attr), st)]
        if isinstance(o, K):
            m = o.ci.methods.get(attr)
            if m is not None:
                return [(F(m), st)]
            if attr in o.ci.attrs:
                return [(self.module_eval(o.ci.mod, o.ci.attrs[attr]), st)]
            if attr == '__name__':
                return [(C(o.ci.name), st)]
            return [(N(P.f('clsattr', o.ci.name, attr)), st)]
        if isinstance(o, C) and o.v is None:
            self.event('noneattr', n, name=attr, detail="attribute '%s' of None" % attr, tags=self.tagdesc(st))
            return []
        return [(models.val_attr(self, o, attr), st)]

    def setattr(self, o, attr, v, st, n, quiet=False):
        if isinstance(o, O):
            if self.on_setattr is not None and not quiet:
                self.on_setattr(self, o, attr, v, st, n)
            st.objs[o.id].fields[attr] = v
        elif isinstance(o, N) or isinstance(o, E):
            pass

    def e_BinOp(self, n, st):
        return [(self.binop(n.op, v[0], v[1], n), s) for v, s in self.evs([n.left, n.right], st)]

    def binop(self, op, a, b, n):
        if self.on_arr and not self.muted:
            self.on_arr(self, 'op', (a, b), n)
        return models.binop(self, type(op).__name__, a, b, n)

    def e_UnaryOp(self, n, st):
        out = []
        if isinstance(n.op, ast.Not):
            for v, s in self.ev(n.operand, st):
                t = self.truth(v, s)
                if t is not None:
                    out.append((C(not t), s))
                else:
                    out.append((N(models.bnot(topoly(v)), 's'), s))
            return out
        for v, s in self.ev(n.operand, st):
            if isinstance(n.op, ast.USub):
                v = models.numv(v)
                out.append((N(P.neg(v.p), v.kind or 'n', newbuf() if v.kind == 'a' else None, v.prov, v.ln), s))
            elif isinstance(n.op, ast.Invert):
                v = models.numv(v)
                out.append((N(models.bnot(v.p), v.kind, newbuf(), None, v.ln), s))
            else:
                out.append((v, s))
        return out

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        out = []
        cur = [(None, st)]
        for i, x in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for acc, s in cur:
                for v, s2 in self.ev(x, s):
                    if acc is not None:
                        # unknown prefix: combine
                        p = models.band(topoly(acc), topoly(v)) if isand else models.bor(topoly(acc), topoly(v))
                        v2 = N(p, None)
                        nxt.append((v2, s2))
                        continue
                    t = self.truth(v, s2)
                    if t is None:
                        nxt.append((v if not last else v, s2)) if not last else out.append((v, s2))
                    elif t == isand:
                        if last:
                            out.append((v, s2))
                        else:
                            nxt.append((None, s2))
                    else:
                        out.append((v, s2))
            cur = nxt
            if last:
                out += [(v, s) for v, s in cur if v is not None]
        return out

    def e_Compare(self, n, st):
        out = []
        for vals, s in self.evs([n.left] + n.comparators, st):
            r = None
            for i, op in enumerate(n.ops):
                if self.on_arr and not self.muted and not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                    self.on_arr(self, 'op', (vals[i], vals[i + 1]), n)
                c = models.compare(self, type(op).__name__, vals[i], vals[i + 1], s)
                if r is None:
                    r = c
                else:
                    r = models.band_v(r, c)
            out.append((r, s))
        return out

    def e_IfExp(self, n, st):
        out = []
        for b, s in self.cond(n.test, st):
            out += self.ev(n.body if b else n.orelse, s)
        if len(out) == 2 and out[0][1].frames and self.tagkey(out[0][1]) == self.tagkey(out[1][1]):
            self.jtag = ('ifexp', n.lineno, n.col_offset)
            v = self.join_val(out[0][0], out[1][0], ('ifexp',))
            if isinstance(out[0][0], N) and isinstance(out[1][0], N):
                return [(v, self.join_states(out[0][1], out[1][1]))]
        return out

    def e_Tuple(self, n, st):
        return self._seq(n, st, False)

    def e_List(self, n, st):
        return self._seq(n, st, True)

    def e_Set(self, n, st):
        return self._seq(n, st, True)

    def _seq(self, n, st, lst):
        out = []
        els = [e.value if isinstance(e, ast.Starred) else e for e in n.elts]
        for vals, s in self.evs(els, st):
            items = []
            ok = True
            for e, v in zip(n.elts, vals):
                if isinstance(e, ast.Starred):
                    its = models.iter_items(v)
                    if its is None:
                        ok = False
                    else:
                        items += its
                else:
                    items.append(v)
            if ok:
                out.append((T(items, lst), s))
            else:
                out.append((N(P.f('seq', tuple(topoly(v) for v in vals))), s))
        return out

    def e_Dict(self, n, st):
        out = []
        ks = [k for k in n.keys if k is not None]
        for vals, s in self.evs(ks + n.values, st):
            kv = vals[:len(ks)]
            vv = vals[len(ks):]
            items = {}
            rest = None
            j = 0
            for k, v in zip(n.keys, vv):
                if k is None:
                    if isinstance(v, D):
                        items.update(v.items)
                        rest = v.rest if v.rest is not None else rest
                    else:
                        rest = topoly(v)
                else:
                    kk = kv[j]
                    j += 1
                    c = models.const_key(kk)
                    if c is models.NOKEY:
                        rest = P.f('dstore', rest or P.ZERO, topoly(kk), topoly(v))
                    else:
                        items[c] = v
            out.append((D(items, rest), s))
        return out

    def e_Subscript(self, n, st):
        out = []
        for o, s in self.ev(n.value, st):
            for ix, s2 in self.ev_index(n.slice, s):
                v = self.subscript(o, ix, s2, n)
                if v is not None:
                    out.append((v, s2))
        return out

    def ev_index(self, n, st):
        if isinstance(n, ast.Slice):
            parts = [n.lower, n.upper, n.step]
            outs = [([], st)]
            for p in parts:
                new = []
                for vals, s in outs:
                    if p is None:
                        new.append((vals + [NONE], s))
                    else:
                        for v, s2 in self.ev(p, s):
                            new.append((vals + [v], s2))
                outs = new
            return [(SL(*v), s) for v, s in outs]
        if isinstance(n, ast.Tuple):
            outs = [([], st)]
            for p in n.elts:
                outs = [(vals + [v], s2) for vals, s in outs for v, s2 in self.ev_index(p, s)]
            return [(T(v), s) for v, s in outs]
        return self.ev(n, st)

    def subscript(self, o, ix, st, n):
        if isinstance(o, D):
            k = models.const_key(ix)
            if k is not models.NOKEY and k in o.items:
                return o.items[k]
            if k is not models.NOKEY and o.rest is None:
                self.event('keyerror', n, name=str(k), detail='key not in dict', tags=self.tagdesc(st))
                return None
            return N(P.f('item', topoly(o), topoly(ix)))
        if isinstance(o, T):
            i = models.const_int(ix)
            if i is not None:
                if -len(o.items) <= i < len(o.items):
                    return o.items[i]
                self.event('indexerror', n, name=str(i), detail='index out of range', tags=self.tagdesc(st))
                return None
            if isinstance(ix, SL):
                lo, hi, sp = (models.const_int(x) if not (isinstance(x, C) and x.v is None) else 'none' for x in (ix.lo, ix.hi, ix.st))
                if None not in (lo, hi, sp):
                    return T(o.items[slice(None if lo == 'none' else lo, None if hi == 'none' else hi, None if sp == 'none' else sp)], o.lst)
            return N(P.f('item', topoly(o), topoly(ix)))
        if isinstance(o, C) and isinstance(o.v, str):
            i = models.const_int(ix)
            if i is not None and -len(o.v) <= i < len(o.v):
                return C(o.v[i])
            return N(P.f('item', topoly(o), topoly(ix)))
        if isinstance(o, N):
            if self.on_arr and not self.muted:
                self.on_arr(self, 'sel', (o, ix), n)
            return models.select(o, ix)
        return N(P.f('item', topoly(o), topoly(ix)))

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Lambda(self, n, st):
        fi = FuncInfo(st.frames[-1].mod, n, outer=st.frames[-1].fi)
        return [(F(fi, None, len(st.frames)), st)]

    def e_JoinedStr(self, n, st):
        parts = []
        s0 = st
        vals = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                vals.append(C(v.value))
            else:
                r = self.ev(v.value, s0)
                if not r:
                    return []
                vals.append(r[0][0])
                s0 = r[0][1]
        if all(isinstance(v, C) and isinstance(v.v, str) for v in vals):
            return [(C(''.join(v.v for v in vals)), s0)]
        return [(N(P.f('str', tuple(topoly(v) for v in vals))), s0)]

    def e_Slice(self, n, st):
        return self.ev_index(n, st)

    def e_NamedExpr(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            s.env[n.target.id] = v
            out.append((v, s))
        return out

    def comp(self, n, st, elts):
        """comprehension: expand over constant iterables, else opaque"""
        fr = st.frames[-1]

        def rec(i, s):
            if i == len(n.generators):
                r = self.evs(elts, s)
                return [(r[0][0], r[0][1])] if r else None
            g = n.generators[i]
            r = self.ev(g.iter, s)
            if not r:
                return None
            it, s = r[0]
            items = models.iter_items(it)
            if items is None or len(items) > 200:
                return None
            out = []
            for x in items:
                s1 = self.assign(g.target, x, s)
                if not s1:
                    return None
                s = s1[0]
                ok = True
                for c in g.ifs:
                    b = self.cond(c, s)
                    if len(b) != 1:
                        return None
                    s = b[0][1]
                    if not b[0][0]:
                        ok = False
                        break
                if ok:
                    r = rec(i + 1, s)
                    if r is None:
                        return None
                    out += r
                    s = r[-1][1] if r else s
            return out
        saved = dict(fr.env)
        targets = set()
        for g in n.generators:
            for m in ast.walk(g.target):
                if isinstance(m, ast.Name):
                    targets.add(m.id)
        # comprehension targets live in their own scope; hide then restore
        r = rec(0, st)
        if r is not None:
            res = [v for v, s in r]
            s = r[-1][1] if r else st
            env = s.frames[-1].env
            for t in targets:
                if t in saved:
                    env[t] = saved[t]
                else:
                    env.pop(t, None)
            return res, s
        env = st.frames[-1].env
        # opaque: evaluate the element once with an unknown element
        s = st
        for g in n.generators:
            rr = self.ev(g.iter, s)
            if rr:
                it, s = rr[0]
                e = models.iter_elem(it, 'comp%d' % (n.lineno,))
                a = self.assign(g.target, e, s)
                s = a[0] if a else s
        rr = self.evs(elts, s)
        val = None
        if rr:
            vals, s = rr[0]
            val = N(P.f('comp', tuple(topoly(v) for v in vals)), None, newbuf())
        env = s.frames[-1].env
        for t in targets:
            if t in saved:
                env[t] = saved[t]
            else:
                env.pop(t, None)
        return val, s

    def e_ListComp(self, n, st):
        r, s = self.comp(n, st, [n.elt])
        if isinstance(r, list):
            return [(T([v[0] for v in r], True), s)]
        return [(r, s)] if r is not None else []

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, n, st):
        r, s = self.comp(n, st, [n.key, n.value])
        if isinstance(r, list):
            items = {}
            for k, v in r:
                c = models.const_key(k)
                if c is models.NOKEY:
                    return [(N(P.f('dictcomp', tuple((topoly(k), topoly(v)) for k, v in r))), s)]
                items[c] = v
            return [(D(items), s)]
        return [(r, s)] if r is not None else []

    def e_Call(self, n, st):
        out = []
        for fv, s in self.ev(n.func, st):
            for (args, kwargs, star), s2 in self.ev_args(n, s):
                out += self.call(fv, args, kwargs, s2, n, star)
        return out

    def ev_args(self, n, st):
        nodes = [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
        out = []
        for vals, s in self.evs(nodes, st):
            args = []
            kwargs = {}
            star = False
            for a, v in zip(n.args, vals):
                if isinstance(a, ast.Starred):
                    its = models.iter_items(v)
                    if its is None:
                        star = True
                    else:
                        args += its
                else:
                    args.append(v)
            err = None
            for k, v in zip(n.keywords, vals[len(n.args):]):
                if k.arg is None:
                    if isinstance(v, D):
                        for kk, vv in v.items.items():
                            if kk in kwargs:
                                err = kk
                            kwargs[kk] = vv
                        if v.rest is not None:
                            kwargs['**'] = v.rest
                    else:
                        kwargs['**'] = topoly(v)
                else:
                    if k.arg in kwargs:
                        err = k.arg
                    kwargs[k.arg] = v
            if err is not None:
                self.event('bind', n, name=str(err), detail="got multiple values for keyword argument '%s'" % err, tags=self.tagdesc(s))
                continue
            out.append(((args, kwargs, star), s))
        return out


def bufdesc(b):
    return ','.join(sorted(str(x) for x in b if isinstance(x, tuple)))


def assigned_names(n):
    s = set()
    for m in ast.walk(n):
        if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
            s.add(m.id)
    return s
