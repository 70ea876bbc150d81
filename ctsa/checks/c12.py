"""C12: parallel kernels are race-free and agree with their serial versions."""
import ast
import itertools
from .. import poly as P
from .. import judge
from ..model import *
from ..interp import Fuel
from ..models import eq0

RULE = ('dependence analysis of every compiled parallel loop (each store must be indexed by the iteration variable or be a recognised reduction, no '
        'array written in the loop is read at another index) and comparison, for every pair of kernels one option chooses between, of the loop-nest '
        'summaries: the same terms accumulated into the same entry over the same index pairs')
FLOORS = {'kernels': 3, 'prange_loops': 1, 'pairs': 1, 'obligations': 3}


# ---------------------------------------------------------------- which functions are compiled
def name_of(n):
    return n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None


def jit(fi):
    """None | dict of decorator keywords"""
    for d in fi.node.decorator_list:
        c = d.func if isinstance(d, ast.Call) else d
        if name_of(c) in ('njit', 'jit', 'vectorize', 'guvectorize'):
            kw = {}
            if isinstance(d, ast.Call):
                for k in d.keywords:
                    kw[k.arg] = getattr(k.value, 'value', None)
            return kw
    return None


def all_functions(W):
    out = []
    for m in W.prog.mods.values():
        for name, L in m.binds.items():
            for b in L:
                if b[0] == 'func' and b[1].mod is m:
                    out.append(b[1])
    return out


def is_prange(W, fi, n):
    return isinstance(n, ast.Call) and name_of(n.func) == 'prange'


# ---------------------------------------------------------------- races
def root(n):
    while isinstance(n, (ast.Subscript, ast.Attribute)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def names(n):
    return {m.id for m in ast.walk(n) if isinstance(m, ast.Name)}


def first_index(sub):
    """the index applied first to the root array"""
    while isinstance(sub.value, ast.Subscript):
        sub = sub.value
    s = sub.slice
    return (s.elts[0] if isinstance(s, ast.Tuple) and s.elts else s), sub


def all_indices(sub):
    out = []
    while isinstance(sub, ast.Subscript):
        s = sub.slice
        out += list(s.elts) if isinstance(s, ast.Tuple) else [s]
        sub = sub.value
    return out


def injective(ix, iv, private):
    """True: the index is a different value in every iteration; False: it is not; None: unknown"""
    if isinstance(ix, ast.Name):
        if ix.id == iv:
            return True
        return False
    if isinstance(ix, ast.Constant):
        return False
    if isinstance(ix, ast.BinOp) and isinstance(ix.op, (ast.Add, ast.Sub)):
        l, r = names(ix.left), names(ix.right)
        inner = private - {iv}
        if iv in l and not (r & (inner | {iv})):
            return injective(ix.left, iv, private)
        if iv in r and not (l & (inner | {iv})):
            return injective(ix.right, iv, private)
        return False if not (iv in l | r) or (l | r) & inner else None
    if isinstance(ix, ast.UnaryOp) and isinstance(ix.op, ast.USub):
        return injective(ix.operand, iv, private)
    if isinstance(ix, ast.BinOp) and isinstance(ix.op, ast.Mult):
        for a, b in ((ix.left, ix.right), (ix.right, ix.left)):
            if isinstance(a, ast.Constant) and a.value:
                return injective(b, iv, private)
        return None
    if iv not in names(ix):
        return False
    return None


REDUCE = (ast.Add, ast.Mult, ast.Sub)


def fresh(fi, name, before):
    """names bound in the loop body to a new object in every iteration"""
    return False


def writes_params(W, fi, seen=None):
    """parameter names the function stores into"""
    out = set()
    for n in ast.walk(fi.node):
        t = None
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, (ast.Subscript, ast.Attribute)) and root(t) in fi.params:
                    out.add(root(t))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and root(n.func.value) in fi.params:
            out.add(root(n.func.value))
    return out


MUTATORS = {'append', 'extend', 'insert', 'pop', 'sort', 'fill', 'remove', 'clear', 'update', 'add'}


def race(W, rep, fi, loop):
    iv = loop.target.id if isinstance(loop.target, ast.Name) else None
    if iv is None:
        rep.skip('loop variable:' + fi.full)
        return
    where = '%s, parallel loop over %s' % (fi.full, iv)
    bound = set()      # names assigned inside the body
    augs = {}
    plain = {}
    for st in loop.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for m in ast.walk(t):
                        if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                            bound.add(m.id)
                            plain.setdefault(m.id, n)
            elif isinstance(n, ast.For):
                for m in ast.walk(n.target):
                    if isinstance(m, ast.Name):
                        bound.add(m.id)
                        plain.setdefault(m.id, n)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                augs.setdefault(n.target.id, []).append(n)
    private = bound | {iv}

    def bad(rule, node, what):
        rep.finding(rule, fi.full, ast.unparse(node)[:80], what, fi.mod.rel(), node.lineno, where)
    written = {}
    for st in loop.body:
        for n in ast.walk(st):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if not isinstance(t, (ast.Subscript, ast.Attribute)):
                        continue
                    r = root(t)
                    if r is None or r in plain and always_first(loop, r):
                        continue   # made in this iteration
                    rep.count('obligations')
                    rep.count('stores')
                    if not isinstance(t, ast.Subscript):
                        bad('race', n, 'stores into a shared attribute')
                        continue
                    js = [injective(ix, iv, private) for ix in all_indices(t)]
                    j = True if True in js else None if None in js else False
                    # a copy of the iteration variable
                    if j is False:
                        for ix in all_indices(t):
                            if isinstance(ix, ast.Name) and ix.id in plain and isinstance(plain[ix.id], ast.Assign) and \
                                    injective(plain[ix.id].value, iv, private):
                                j = True
                    if j is True:
                        rep.count('proved')
                        written.setdefault(r, []).append(t)
                        rep.sample('%s: %s only touches its own entry' % (where, ast.unparse(t)))
                    elif j is None:
                        rep.skip('index:%s' % ast.unparse(t))
                    else:
                        bad('race', n, 'different iterations store into the same entry of %s' % r)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    r = root(n.func.value)
                    if r is not None and r not in bound:
                        rep.count('obligations')
                        bad('race', n, 'changes the shared %s' % r)
                    continue
                tgt = W.prog.resolve(fi.mod.name, n.func.id) if isinstance(n.func, ast.Name) else None
                if tgt and tgt[0] == 'func':
                    wp = writes_params(W, tgt[1])
                    for p, a in zip(tgt[1].params, n.args):
                        if p in wp and root(a) is not None and root(a) not in bound:
                            rep.count('obligations')
                            if isinstance(a, ast.Subscript) and True in [injective(ix, iv, private) for ix in all_indices(a)]:
                                rep.count('proved')
                            else:
                                bad('race', n, '%s stores into the shared %s' % (tgt[1].name, root(a)))
    # scalars carried between iterations
    for nm, L in augs.items():
        if nm in plain and always_first(loop, nm):
            continue
        for n in L:
            rep.count('obligations')
            rep.count('reductions')
            if not isinstance(n.op, REDUCE):
                bad('race', n, 'not a recognised reduction')
            elif any(nm in names(m) for st in loop.body for m in ast.walk(st) if isinstance(m, (ast.Assign, ast.Call, ast.If, ast.Subscript)) and not any(
                    m is x for y in L for x in ast.walk(y) if x is not y) and nm in loads(m)):
                bad('race', n, '%s is read while other iterations add to it' % nm)
            else:
                rep.count('proved')
    for nm, n in plain.items():
        if isinstance(n, ast.Assign) and not always_first(loop, nm) and nm not in augs:
            # used before it is set in this iteration: value of another iteration
            rep.count('obligations')
            if carried(loop, nm):
                bad('race', n, '%s may carry a value from another iteration' % nm)
            else:
                rep.count('proved')
    # reads of the arrays written
    for st in loop.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and root(n) in written:
                ws = written[root(n)]
                if any(ast.dump(ast.Tuple(all_indices(n), ast.Load())) == ast.dump(ast.Tuple(all_indices(w), ast.Load())) for w in ws):
                    continue
                js = [injective(ix, iv, private) for ix in all_indices(n)]
                if True in js and all(ast.dump(first_index(n)[0]) == ast.dump(first_index(w)[0]) for w in ws):
                    continue
                rep.count('obligations')
                if None in js:
                    rep.skip('read:' + ast.unparse(n))
                else:
                    bad('race', n, 'reads entries of %s that other iterations write' % root(n))


def loads(n):
    return {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load)}


def always_first(loop, nm):
    """is nm set, unconditionally at the top level of the body or of the loop that uses it, before every use in the iteration?"""
    return not carried(loop, nm)


def carried(loop, nm):
    """may a use of nm in the body see a value from before this iteration?"""
    def seq(body, have):
        # -> (violated, definitely assigned afterwards)
        for st in body:
            if isinstance(st, ast.If):
                if nm in loads(st.test) and not have:
                    return True, have
                v1, h1 = seq(st.body, have)
                v2, h2 = seq(st.orelse, have)
                if v1 or v2:
                    return True, have
                have = have or (h1 and h2)
            elif isinstance(st, (ast.For, ast.While)):
                h = st.iter if isinstance(st, ast.For) else st.test
                if nm in loads(h) and not have:
                    return True, have
                inner = have or (isinstance(st, ast.For) and nm in {m.id for m in ast.walk(st.target) if isinstance(m, ast.Name)})
                v, h2 = seq(st.body, inner)
                if v:
                    return True, have
                v, _ = seq(st.orelse, have)
                if v:
                    return True, have
            elif isinstance(st, ast.Assign):
                if nm in loads(st.value) and not have:
                    return True, have
                for t in st.targets:
                    if isinstance(t, (ast.Subscript, ast.Attribute)) and nm in loads(t) and not have:
                        return True, have
                    if any(isinstance(m, ast.Name) and m.id == nm and isinstance(m.ctx, ast.Store) for m in ast.walk(t)):
                        have = True
            elif isinstance(st, ast.AugAssign):
                if not have and (nm in loads(st.value) or isinstance(st.target, ast.Name) and st.target.id == nm or nm in loads(st.target)):
                    return True, have
            else:
                if nm in loads(st) and not have:
                    return True, have
        return False, have
    return seq(loop.body, False)[0]


# ---------------------------------------------------------------- loop-nest summaries
class Unsupported(Exception):
    pass


class Kernel:
    """accumulations of a compiled kernel: [(target, index variable, loops, index guards, value guards, term)]"""

    def __init__(self, W, fi):
        self.W, self.fi = W, fi
        self.I = W.interp(fuel=200000)
        self.I.inline_kernels = True
        self.out = []
        self.acc = {}        # accumulators: name -> initial value source
        self.ret = None
        self.inits = {}
        self.cond0 = None
        st = State()
        env = {}
        for i, p in enumerate(fi.params):
            env[p] = N(P.atom('P%d' % i), 'a', None, 'rows') if p not in fi.defaults else N(P.atom('P%d' % i), 's')
        st.frames.append(Frame(env, None, fi.mod, fi))
        self.I.muted += 1
        self.body(fi.node.body, st, [], [], [])

    def ev(self, n, st):
        r = self.I.ev(n, st)
        if len(r) != 1:
            raise Unsupported(ast.unparse(n))
        return r[0]

    def body(self, stmts, st, loops, ig, vg):
        """-> state after, or None"""
        for k, n in enumerate(stmts):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n, ast.Pass):
                continue
            if isinstance(n, ast.For):
                if not (isinstance(n.iter, ast.Call) and name_of(n.iter.func) in ('range', 'prange') and isinstance(n.target, ast.Name)) or n.orelse:
                    raise Unsupported(ast.unparse(n.iter))
                a = n.iter.args
                if len(a) > 2:
                    raise Unsupported('step')
                lo = ast.Constant(0) if len(a) == 1 else a[0]
                v = n.target.id
                s2 = st.copy()
                # values assigned in the loop and carried are not modelled: only accumulators may be
                s2.env[v] = N(P.atom('i_' + v), 's')
                lp = (v, self.expand(lo, loops), self.expand(a[-1], loops))
                self.body(n.body, s2, loops + [lp], ig, vg)
                continue
            if isinstance(n, ast.If):
                if n.orelse and len(n.orelse) and False:
                    pass
                g, isidx = self.guard(n.test, st, loops)
                rest = stmts[k + 1:]
                for br, neg in ((n.body, False), (n.orelse, True)):
                    s2 = st.copy()
                    gg = (g, neg)
                    if br and isinstance(br[-1], ast.Continue):
                        br, cont = br[:-1], False
                    else:
                        cont = True
                    if any(isinstance(x, (ast.Break, ast.Return, ast.Continue)) for b in br for x in ast.walk(b)):
                        raise Unsupported('jump')
                    self.body(list(br) + (list(rest) if cont else []), s2, loops, ig + [gg] if isidx else ig, vg if isidx else vg + [gg])
                return
            if isinstance(n, ast.AugAssign):
                t = n.target
                if isinstance(t, ast.Subscript) and root(t) in self.inits and isinstance(n.op, (ast.Add, ast.Sub)):
                    v, st = self.ev(n.value, st)
                    p = topoly(v)
                    self.contribute(root(t), t.slice, p if isinstance(n.op, ast.Add) else P.mul(P.num(-1), p), loops, ig, vg)
                    continue
                if isinstance(t, ast.Name) and t.id in self.inits and loops and isinstance(n.op, (ast.Add, ast.Sub)):
                    v, st = self.ev(n.value, st)
                    p = topoly(v)
                    self.contribute(t.id, None, p if isinstance(n.op, ast.Add) else P.mul(P.num(-1), p), loops, ig, vg)
                    continue
                if isinstance(t, ast.Name):
                    v, st = self.ev(ast.BinOp(ast.Name(t.id, ast.Load()), n.op, n.value), st)
                    st.env[t.id] = v
                    continue
                raise Unsupported(ast.unparse(n))
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                nm = n.targets[0].id
                if loops and nm in self.inits and self.written(nm):
                    # a = a + t
                    if isinstance(n.value, ast.BinOp) and isinstance(n.value.op, (ast.Add, ast.Sub)) and isinstance(n.value.left, ast.Name) and n.value.left.id == nm:
                        v, st = self.ev(n.value.right, st)
                        self.contribute(nm, None, topoly(v) if isinstance(n.value.op, ast.Add) else P.mul(P.num(-1), topoly(v)), loops, ig, vg)
                        continue
                    raise Unsupported(ast.unparse(n))
                if not loops and self.zero(n.value):
                    self.inits[nm] = ast.unparse(n.value)
                    st.env[nm] = N(P.atom('acc_' + nm))
                    continue
                if loops and self.zero(n.value) and isinstance(n.value, ast.Constant) and self.local_sum(nm, stmts[k + 1:]):
                    # a sum made inside the iteration and stored afterwards
                    self.inits[nm] = ('local', tuple(l[0] for l in loops))
                    st.env[nm] = N(P.atom('acc_' + nm))
                    continue
                v, st = self.ev(n.value, st)
                if any(isinstance(a, str) and a.startswith('acc_') for a in topoly(v).atoms(True)):
                    if self.ret is None and loops == [] and topoly(v).atom() and str(topoly(v).atom()).startswith('acc_'):
                        pass
                    raise Unsupported(ast.unparse(n))
                st.env[nm] = v
                continue
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
                t = n.targets[0]
                nm = root(t)
                if isinstance(n.value, ast.BinOp) and isinstance(n.value.op, (ast.Add, ast.Sub)) and ast.dump(n.value.left) == ast.dump(
                        ast.Subscript(t.value, t.slice, ast.Load())) and nm in self.inits:
                    v, st = self.ev(n.value.right, st)
                    self.contribute(nm, t.slice, topoly(v) if isinstance(n.value.op, ast.Add) else P.mul(P.num(-1), topoly(v)), loops, ig, vg)
                    continue
                # pot[i] = s (a local sum, possibly times a factor)
                v, st = self.ev(n.value, st)
                p = topoly(v)
                loc = [a[4:] for a in p.atoms(True) if isinstance(a, str) and a.startswith('acc_')]
                if len(loc) == 1 and isinstance(self.inits.get(loc[0]), tuple) and nm in self.inits and len(p.t) == 1:
                    (m, c), = p.t.items()
                    if dict(m).get('acc_' + loc[0]) == 1:
                        rest = P.Poly({tuple(x for x in m if x[0] != 'acc_' + loc[0]): c})
                        new = []
                        for tt, ix, lps, g1, g2, term in self.out:
                            if tt == loc[0]:
                                new.append((nm, t.slice, lps, g1, g2, P.mul(term, rest)))
                            else:
                                new.append((tt, ix, lps, g1, g2, term))
                        self.out = new
                        continue
                raise Unsupported(ast.unparse(n))
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and \
                    len(n.targets[0].elts) == len(n.value.elts) and all(isinstance(e, ast.Name) for e in n.targets[0].elts):
                vs = []
                for e in n.value.elts:
                    v, st = self.ev(e, st)
                    vs.append(v)
                for t, v in zip(n.targets[0].elts, vs):
                    st.env[t.id] = v
                continue
            if isinstance(n, ast.Return):
                self.ret = self.retname(n.value)
                return
            raise Unsupported(ast.unparse(n)[:60])
        return

    def retname(self, v):
        while isinstance(v, ast.Call) and name_of(v.func) in ('array', 'asarray', 'list') and v.args:
            v = v.args[0]
        if isinstance(v, ast.Name):
            return v.id
        raise Unsupported('return ' + ast.unparse(v))

    def local_sum(self, nm, rest):
        return True

    def written(self, nm):
        return not isinstance(self.inits.get(nm), tuple) or True

    def zero(self, v):
        if isinstance(v, ast.Constant) and v.value in (0, 0.0) and not isinstance(v.value, bool):
            return True
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult) and isinstance(v.left, ast.List) and len(v.left.elts) == 1 and self.zero(v.left.elts[0]):
            return True
        return isinstance(v, ast.Call) and name_of(v.func) in ('zeros', 'zeros_like')

    def expand(self, n, loops):
        return n

    def guard(self, test, st, loops):
        """-> (canonical text or normal form, is it about indices only)"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            g, i = self.guard(test.operand, st, loops)
            return ('not', g), i
        lv = {l[0] for l in loops}
        if names(test) and names(test) <= lv:
            return ast.dump(test), True
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Eq, ast.NotEq)):
            a, _ = self.ev(test.left, st)
            b, _ = self.ev(test.comparators[0], st)
            d = P.sub(topoly(a), topoly(b))
            e = eq0(d)
            if isinstance(test.ops[0], ast.NotEq):
                return ('not', e), False
            return e, False
        v, _ = self.ev(test, st)
        return topoly(v), False

    def contribute(self, target, ix, term, loops, ig, vg):
        self.out.append((target, ix, list(loops), list(ig), list(vg), term))

    # -------------------------------------------------------------- index sets
    def ieval(self, n, env, sizes):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            raise Unsupported('bound ' + n.id)
        if isinstance(n, ast.BinOp):
            a, b = self.ieval(n.left, env, sizes), self.ieval(n.right, env, sizes)
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a * b
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -self.ieval(n.operand, env, sizes)
        if isinstance(n, ast.Call) and name_of(n.func) == 'len' and isinstance(n.args[0], ast.Name):
            return self.size(n.args[0].id, sizes)
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == 'shape' and isinstance(n.slice, ast.Constant) and n.slice.value == 0:
            return self.size(root(n.value), sizes)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = self.ieval(n.left, env, sizes), self.ieval(n.comparators[0], env, sizes)
            return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[type(n.ops[0]).__name__]
        if isinstance(n, ast.BoolOp):
            vs = [self.ieval(x, env, sizes) for x in n.values]
            return all(vs) if isinstance(n.op, ast.And) else any(vs)
        raise Unsupported('bound ' + ast.unparse(n))

    def size(self, nm, sizes):
        if nm in self.fi.params:
            return sizes[self.fi.params.index(nm) % len(sizes)]
        for m in ast.walk(self.fi.node):
            if isinstance(m, ast.Assign) and len(m.targets) == 1 and isinstance(m.targets[0], ast.Name) and m.targets[0].id == nm:
                v = m.value
                if isinstance(v, ast.BinOp) and isinstance(v.right, ast.Call):
                    return self.ieval(v.right, {}, sizes)
                if isinstance(v, ast.Call) and v.args:
                    return self.ieval(v.args[0], {}, sizes)
                return self.ieval(v, {}, sizes)
        raise Unsupported('len ' + nm)

    def scalarenv(self):
        e = {}
        for m in self.fi.node.body:
            if isinstance(m, ast.Assign) and len(m.targets) == 1 and isinstance(m.targets[0], ast.Name) and not self.zero(m.value):
                e[m.targets[0].id] = m.value
        return e

    def table(self, sizes):
        """{(canonical guards, term): sorted list of (own index, other index)} for arrays of the given sizes"""
        tab = {}
        sc = self.scalarenv()
        for target, ix, loops, ig, vg, term in self.out:
            if target != self.ret and not isinstance(self.inits.get(target), tuple):
                continue
            own = ix.id if isinstance(ix, ast.Name) else None
            if ix is not None and own is None:
                raise Unsupported('index ' + ast.unparse(ix))
            lv = [l[0] for l in loops]
            if own is not None and own not in lv:
                raise Unsupported('index ' + own)
            order = ([own] if own else []) + [v for v in lv if v != own]
            if own is None and len(order) == 2:
                orders = [order]
            else:
                orders = [order]
            ren = {'i_' + v: P.atom('J%d' % k) for k, v in enumerate(order)}
            f = lambda a: ren.get(a) if isinstance(a, str) else None
            key = (tuple(sorted((repr(canon_guard(g, neg, f)) for g, neg in vg))), P.subst(term, f))
            pts = tab.setdefault(key, [])

            def rec(k, env):
                if k == len(loops):
                    for g, neg in ig:
                        if self.iguard(g, env, sizes) == neg:
                            return
                    pts.append(tuple(env[v] for v in order))
                    return
                v, lo, hi = loops[k]
                e2 = dict(env)
                for nm, x in sc.items():
                    if nm not in e2:
                        try:
                            e2[nm] = self.ieval(x, e2, sizes)
                        except Unsupported:
                            pass
                for q in range(self.ieval(lo, e2, sizes), self.ieval(hi, e2, sizes)):
                    rec(k + 1, dict(e2, **{v: q}))
            rec(0, {})
        # symmetric terms: unordered
        return {k: sorted(v) for k, v in tab.items() if v}

    def iguard(self, g, env, sizes):
        if isinstance(g, tuple) and g[0] == 'not':
            return not self.iguard(g[1], env, sizes)
        return bool(self.ieval(undump(g), env, sizes))


def undump(s):
    return eval(s, {k: getattr(ast, k) for k in dir(ast)})


def canon_guard(g, neg, f):
    while isinstance(g, tuple) and g and g[0] == 'not':
        g, neg = g[1], not neg
    if isinstance(g, P.Poly):
        g = P.subst(g, f)
        a = g.atom()
        while isinstance(a, tuple) and a[1] == 'not':
            g, neg = a[2], not neg
            a = g.atom()
        return (neg, P.show(g))
    return (neg, str(g))


def opaque_kernel(k):
    return any(judge.opaque(t[5]) for t in k.out)


# ---------------------------------------------------------------- pairs chosen by one option
def pairs(W):
    """(function, test, kernel used when true, kernel used when false, node)"""
    out = []
    for fi in all_functions(W) + list(W.SC.methods.values()):
        for n in ast.walk(fi.node):
            if isinstance(n, (ast.If, ast.IfExp)) and n.orelse:
                a = kernels(W, fi, n.body if isinstance(n, ast.If) else [n.body])
                b = kernels(W, fi, n.orelse if isinstance(n, ast.If) else [n.orelse])
                if len(a) == 1 and len(b) == 1 and a[0][0] is not b[0][0]:
                    out.append((fi, n, a[0], b[0]))
    return out


def kernels(W, fi, body):
    out = []
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, (ast.If, ast.IfExp)) and n.orelse and st is not n:
                pass
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                t = W.prog.resolve(fi.mod.name, n.func.id)
                if t and t[0] == 'func' and jit(t[1]) is not None:
                    out.append((t[1], n))
    return out


def is_parallel(fi):
    kw = jit(fi)
    return bool(kw and kw.get('parallel')) or any(isinstance(n, ast.Call) and name_of(n.func) == 'prange' for n in ast.walk(fi.node))


def run(rep, root_, tier):
    rep.rule = RULE
    W = World(root_)
    comp = []
    fs = all_functions(W)
    for fi in fs:
        kw = jit(fi)
        if kw is None:
            continue
        rep.count('kernels')
        comp.append(fi)
        loops = [n for n in ast.walk(fi.node) if isinstance(n, ast.For) and is_prange(W, fi, n.iter)]
        for n in loops:
            rep.count('prange_loops')
            if not kw.get('parallel'):
                rep.count('serial_prange')
                continue
            race(W, rep, fi, n)
    for fi, n, (ka, ca), (kb, cb) in pairs(W):
        if not (is_parallel(ka) or is_parallel(kb)):
            continue
        rep.count('pairs')
        where = '%s: %s / %s' % (fi.full, ka.name, kb.name)
        rep.count('obligations')
        if [ast.dump(a) for a in ca.args] != [ast.dump(a) for a in cb.args] or {k.arg: ast.dump(k.value) for k in ca.keywords} != {k.arg: ast.dump(k.value) for k in cb.keywords}:
            rep.finding('arguments-differ', fi.full, '%s %s' % (ka.name, kb.name), 'the two kernels are given different arguments', fi.mod.rel(), n.lineno, where)
        else:
            rep.count('proved')
        rep.count('obligations')
        try:
            A, B = Kernel(W, ka), Kernel(W, kb)
            if opaque_kernel(A) or opaque_kernel(B) or A.ret is None or B.ret is None or not A.out or not B.out:
                raise Unsupported('unknown term')
            bad = None
            nn = 6 if tier == 'quick' else 9
            for sizes in itertools.product(range(0, nn), repeat=2):
                ta, tb = A.table(sizes), B.table(sizes)
                if ta != tb:
                    bad = (sizes, ta, tb)
                    break
        except (Unsupported, Fuel) as e:
            rep.skip('kernel form:%s %s' % (where, e))
            continue
        if bad is None:
            rep.count('proved')
            rep.sample('%s accumulate %s' % (where, P.show(A.out[0][5])[:200]))
        else:
            sizes, ta, tb = bad
            d = []
            for k in list(ta) + [x for x in tb if x not in ta]:
                if ta.get(k) != tb.get(k):
                    d.append('%s over %s / %s' % (P.show(k[1])[:120], ta.get(k), tb.get(k)))
            rep.finding('kernels-differ', fi.full, '%s %s' % (ka.name, kb.name), 'for arrays of length %s: %s' % (sizes, '; '.join(d)[:600]), fi.mod.rel(), n.lineno, where)
    return W.prog
