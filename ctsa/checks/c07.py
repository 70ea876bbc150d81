"""C07: no documented option is silently ignored."""
import ast
import re
import builtins
from ..program import Program

RULE = ('interprocedural information-flow analysis (explicit and control dependences, flow-sensitive, least fixed point over the call graph): the value '
        'each named parameter of a public function or method has on entry must be able to reach a returned value, an exception, a store, an output '
        'or a live parameter of another operation; the values the documentation names for an option must be told apart')
FLOORS = {'functions': 100, 'parameters': 500}

PURE_MODS = ('numpy', 'math', 'scipy', 'builtins')
PURE_B = {'float', 'int', 'len', 'abs', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'min', 'max', 'sum', 'range', 'zip', 'enumerate', 'isinstance',
          'round', 'sorted', 'type', 'hasattr', 'getattr', 'complex', 'any', 'all', 'map', 'filter', 'reversed', 'repr', 'callable', 'divmod', 'pow'}
PURE_M = {'get', 'lower', 'upper', 'strip', 'split', 'copy', 'astype', 'sum', 'mean', 'min', 'max', 'flatten', 'ravel', 'reshape', 'value_in', 'keys',
          'values', 'items', 'format', 'startswith', 'endswith', 'any', 'all', 'std', 'index', 'count', 'tolist', 'argsort', 'argmin', 'argmax'}
GROW = {'append', 'extend', 'add', 'update', 'insert', 'setdefault', 'sort'}
E = frozenset()
V = '#v'                 # marks the value of a parameter, as opposed to whether it was given


class Flow:
    """one function: sinks (params whose entry value matters here) and edges (param -> callee param)"""

    def __init__(self, prog, fi, methods):
        self.prog, self.fi, self.methods = prog, fi, methods
        self.live = set()
        self.edges = set()
        self.locals = fi.locals()

    def sink(self, t):
        self.live |= t

    def run(self):
        fi = self.fi
        env = {p: frozenset([p, p + V]) for p in fi.params + fi.kwonly}
        for v in (fi.vararg, fi.kwarg):
            if v:
                env[v] = frozenset([v])
        self.block(fi.body(), env, E)
        return self

    # ---- expressions
    def ex(self, n, env, pc):
        if n is None:
            return E
        if isinstance(n, ast.Name):
            return env.get(n.id, E)
        if isinstance(n, ast.Call):
            return self.call(n, env, pc)
        if isinstance(n, ast.Lambda):
            return frozenset().union(*[env.get(x.id, E) for x in ast.walk(n.body) if isinstance(x, ast.Name)] or [E])
        if isinstance(n, ast.NamedExpr):
            t = self.ex(n.value, env, pc)
            env[n.target.id] = t | pc
            return t
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env = dict(env)
            t = E
            for g in n.generators:
                ti = self.ex(g.iter, env, pc)
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        env[x.id] = ti
                t |= ti
                for c in g.ifs:
                    t |= self.ex(c, env, pc | t)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                t |= self.ex(e, env, pc | t)
            return t
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            t = self.ex(n.value, env, pc)
            self.sink(t | pc)
            return t
        if isinstance(n, ast.IfExp):
            c = self.ex(n.test, env, pc)
            return c | self.ex(n.body, env, pc | c) | self.ex(n.orelse, env, pc | c)
        if isinstance(n, ast.BoolOp):
            t = E
            for v in n.values:
                t |= self.ex(v, env, pc | t)
            return t
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and any(
                isinstance(x, ast.Constant) and x.value is None for x in (n.left, n.comparators[0])):
            return frozenset(x for x in self.ex(n.left, env, pc) | self.ex(n.comparators[0], env, pc) if not x.endswith(V))
        t = E
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension, ast.Slice)):
                t |= self.ex(c, env, pc)
        return t

    def target(self, f):
        """callee FuncInfo, 'pure', 'sink'"""
        if isinstance(f, ast.Name):
            if f.id in self.locals:
                return 'local'
            r = self.prog.resolve(self.fi.mod.name, f.id)
            if r is None:
                if hasattr(builtins, f.id):
                    return 'pure' if f.id in PURE_B else 'sink'
                return 'sink'
            if r[0] == 'func':
                return r[1]
            if r[0] == 'class':
                m = r[1].methods.get('__init__')
                return ('self', m) if m else 'sink'
            if r[0] == 'ext':
                return 'pure' if r[1].split('.')[0] in PURE_MODS else 'sink'
            return 'sink'
        if isinstance(f, ast.Attribute):
            b = f.value
            while isinstance(b, ast.Attribute):
                b = b.value
            if isinstance(b, ast.Name) and b.id not in self.locals:
                r = self.prog.resolve(self.fi.mod.name, b.id)
                if r and r[0] in ('ext',) and r[1].split('.')[0] in PURE_MODS:
                    return 'pure' if not f.attr.startswith(('save', 'seed', 'put', 'copyto', 'fill')) else 'sink'
                if r and r[0] == 'mod' and f.value is b:
                    q = self.prog.resolve(r[1], f.attr)
                    if q and q[0] == 'func':
                        return q[1]
                return 'sink'
            if f.attr in self.methods and isinstance(f.value, ast.Name):
                return ('self', self.methods[f.attr])
            return 'method'
        return 'sink'

    def call(self, n, env, pc):
        f = n.func
        at = [self.ex(a.value if isinstance(a, ast.Starred) else a, env, pc) for a in n.args]
        kt = [(k.arg, self.ex(k.value, env, pc)) for k in n.keywords]
        allt = frozenset().union(*(at + [t for _, t in kt])) if at or kt else E
        tg = self.target(f)
        if tg == 'pure':
            return allt
        if tg == 'local':
            t = env.get(f.id, E)
            self.sink(allt | pc | t)
            return allt | t
        if tg == 'method':
            ot = self.ex(f.value, env, pc)
            if f.attr in PURE_M:
                return ot | allt
            if isinstance(f.value, ast.Name) and f.attr in GROW and f.value.id in self.locals and f.value.id not in self.fi.params:
                env[f.value.id] = env.get(f.value.id, E) | allt | pc
                return E
            self.sink(ot | allt | pc)
            return ot | allt
        if tg == 'sink':
            ot = self.ex(f, env, pc) if not isinstance(f, ast.Name) else E
            self.sink(allt | pc | ot)
            return allt
        recv = E
        off = 0
        if isinstance(tg, tuple):
            tg = tg[1]
            off = 0 if 'staticmethod' in tg.decos else 1
            if isinstance(f, ast.Attribute):
                recv = self.ex(f.value, env, pc)
        self.sink(pc | recv)           # whether the operation happens, and on what
        res = E
        for i, (a, t) in enumerate(zip(n.args, at)):
            if isinstance(a, ast.Starred) or i + off >= len(tg.params):
                self.sink(t)
            else:
                self.edge(t, tg, tg.params[i + off])
        for k, t in kt:
            if k is None or (k not in tg.params and k not in tg.kwonly):
                self.sink(t)
            else:
                self.edge(t, tg, k)
        return res

    def edge(self, t, fi, p):
        for q in t:
            self.edges.add((q, fi.full, p + V if q.endswith(V) else p))

    # ---- statements
    def block(self, body, env, pc):
        """-> (env, pc for what follows); env None if nothing follows"""
        for s in body:
            if env is None:
                break
            env, pc = self.stmt(s, env, pc)
        return env, pc

    def bindt(self, t, v, env, pc, weak=False):
        if isinstance(t, ast.Name):
            if t.id not in self.locals:
                self.sink(v | pc)
            env[t.id] = v | pc | (env.get(t.id, E) if weak else E)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bindt(x, v, env, pc, weak)
        elif isinstance(t, ast.Starred):
            self.bindt(t.value, v, env, pc, weak)
        elif isinstance(t, ast.Subscript):
            ix = self.ex(t.slice, env, pc)
            b = t.value
            while isinstance(b, (ast.Subscript,)):
                ix |= self.ex(b.slice, env, pc)
                b = b.value
            if isinstance(b, ast.Name) and b.id in self.locals and b.id not in self.fi.params:
                env[b.id] = env.get(b.id, E) | v | ix | pc
            else:
                self.sink(v | ix | pc | self.ex(b, env, pc))
        else:
            self.sink(v | pc)

    def stmt(self, s, env, pc):
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return env, pc
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if len(ts) == 1 and isinstance(ts[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) \
                    and len(ts[0].elts) == len(s.value.elts) and not any(isinstance(x, ast.Starred) for x in ts[0].elts + s.value.elts):
                vs = [self.ex(x, env, pc) for x in s.value.elts]
                for t, v in zip(ts[0].elts, vs):
                    self.bindt(t, v, env, pc)
                return env, pc
            v = self.ex(s.value, env, pc)
            for t in ts:
                self.bindt(t, v, env, pc)
            return env, pc
        if isinstance(s, ast.AugAssign):
            v = self.ex(s.value, env, pc)
            if isinstance(s.target, ast.Name):
                v |= env.get(s.target.id, E)
                if s.target.id in self.fi.params:
                    pass
            self.bindt(s.target, v, env, pc, True)
            return env, pc
        if isinstance(s, ast.Expr):
            self.ex(s.value, env, pc)
            return env, pc
        if isinstance(s, ast.Return):
            self.sink(self.ex(s.value, env, pc) | pc)
            return None, pc
        if isinstance(s, ast.Raise):
            self.sink(self.ex(s.exc, env, pc) | pc)
            return None, pc
        if isinstance(s, (ast.Break, ast.Continue)):
            self.sink(E)
            self.jump |= pc
            return None, pc
        if isinstance(s, ast.If):
            c = self.ex(s.test, env, pc)
            p = pc | c
            e1, _ = self.block(s.body, dict(env), p)
            e2, _ = self.block(s.orelse, dict(env), p)
            if e1 is None and e2 is None:
                return None, pc
            if e1 is None or e2 is None:
                return (e2 if e1 is None else e1), p     # what follows depends on the test
            return self.join(e1, e2), pc
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            saved, self.jump = getattr(self, 'jump', E), E
            cur = dict(env)
            for _ in range(6):
                e = dict(cur)
                if isinstance(s, ast.While):
                    c = self.ex(s.test, e, pc)
                else:
                    c = self.ex(s.iter, e, pc)
                    self.bindt(s.target, c, e, pc)
                b, _ = self.block(s.body, e, pc | c | self.jump)
                nxt = self.join(cur, b) if b is not None else cur
                nxt = self.join(nxt, e)
                if self.jump:
                    # values at the loop exit depend on how it was left
                    asg = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    for a in asg:
                        nxt[a] = nxt.get(a, E) | self.jump
                if nxt == cur:
                    break
                cur = nxt
            self.jump = saved
            if s.orelse:
                r, _ = self.block(s.orelse, cur, pc)
                if r is not None:
                    cur = r
            return cur, pc
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                t = self.ex(i.context_expr, env, pc)
                if i.optional_vars is not None:
                    self.bindt(i.optional_vars, t, env, pc)
            return self.block(s.body, env, pc)
        if isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            b, _ = self.block(s.body, dict(env), pc)
            outs = []
            h0 = self.join(env, b) if b is not None else self.scan(s.body, env, pc)
            for h in s.handlers:
                e = dict(h0)
                if h.name:
                    e[h.name] = E
                r, _ = self.block(h.body, e, pc)
                if r is not None:
                    outs.append(r)
            if b is not None:
                if s.orelse:
                    b, _ = self.block(s.orelse, b, pc)
                if b is not None:
                    outs.append(b)
            if not outs:
                if s.finalbody:
                    self.block(s.finalbody, dict(h0), pc)
                return None, pc
            cur = outs[0]
            for o in outs[1:]:
                cur = self.join(cur, o)
            if s.finalbody:
                return self.block(s.finalbody, cur, pc)
            return cur, pc
        if isinstance(s, ast.Assert):
            self.sink(self.ex(s.test, env, pc) | self.ex(s.msg, env, pc) | pc)
            return env, pc
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            inner = {x.arg for x in s.args.args}
            t = E
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in inner:
                    t |= env.get(x.id, E)
            env[s.name] = t
            return env, pc
        if isinstance(s, ast.ClassDef):
            return env, pc
        if isinstance(s, ast.Delete):
            return env, pc
        if type(s).__name__ == 'Match':
            c = self.ex(s.subject, env, pc)
            outs = []
            for k in s.cases:
                e = dict(env)
                for x in ast.walk(k.pattern):
                    if getattr(x, 'name', None):
                        e[x.name] = c
                r, _ = self.block(k.body, e, pc | c)
                if r is not None:
                    outs.append(r)
            outs.append(env)
            cur = outs[0]
            for o in outs[1:]:
                cur = self.join(cur, o)
            return cur, pc | c
        return env, pc

    jump = E

    def scan(self, body, env, pc):
        return env

    def join(self, a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, E) | v
        return out


def public(fi):
    if fi.cls is not None:
        return not fi.cls.name.startswith('_') and (not fi.name.startswith('_') or fi.name == '__init__')
    return not fi.name.startswith('_')


def paragraphs(doc, params):
    """docstring text of each parameter"""
    cur, out = [], {}
    for l in doc.splitlines():
        m = re.match(r'^\s*([A-Za-z_]\w*(?:\s*,\s*\w+)*)\s*:\s*\w', l)
        if m:
            cur = [x.strip() for x in m.group(1).split(',') if x.strip() in params]
        elif re.match(r'^\s*(Returns|History|Other Parameters|Notes|Examples)\b', l):
            cur = []
        for c in cur:
            out[c] = out.get(c, '') + l + '\n'
    return out


def strings(prog, fi, depth=0, seen=None):
    """string constants of a function, of the functions it calls and of the module tables it reads"""
    seen = set() if seen is None else seen
    if fi.full in seen:
        return set()
    seen.add(fi.full)
    out = set()
    doc = fi.node.body[0].value if fi.node.body and isinstance(fi.node.body[0], ast.Expr) and isinstance(fi.node.body[0].value, ast.Constant) else None
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n is not doc:
            out.add(n.value)
        elif isinstance(n, ast.Name):
            b = fi.mod.binds.get(n.id)
            if b and b[-1][0] not in ('func', 'class', 'mod', 'ext'):
                for x in fi.mod.tree.body:
                    if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in x.targets):
                        out |= {c.value for c in ast.walk(x.value) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
            if depth < 2:
                r = prog.resolve(fi.mod.name, n.id)
                if r and r[0] == 'func':
                    out |= strings(prog, r[1], depth + 1, seen)
    return out


def documented(rep, prog, fi):
    """the values the documentation names for an option must be told apart: at most one may be left to an else branch"""
    doc = ast.get_docstring(fi.node)
    if not doc:
        return
    ps = fi.params + fi.kwonly
    for p, text in paragraphs(doc, ps).items():
        tested = {c.value for n in ast.walk(fi.node) if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and n.left.id == p
                  for c in ast.walk(n) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
        if not tested:
            continue
        named = set(re.findall(r"'([A-Za-z_]\w*)'", text))
        d = fi.default_const(p) if p in fi.defaults else None
        if not named:
            continue
        rep.count('documented_values', len(named))
        rep.count('obligations')
        miss = sorted(named - tested - strings(prog, fi))
        if len(miss) > 1:
            rep.finding('documented-value', fi.full, p, 'the documented values %s of %s are never told apart' % (', '.join(miss), p), fi.mod.rel(), fi.node.lineno)
        else:
            rep.count('proved')


def run(rep, root, tier):
    rep.rule = RULE
    rep.assumptions = ['numpy, scipy and math functions are pure', 'calls that are not resolved inside the package use all of their arguments']
    prog = Program(root)
    methods = {}
    amb = set()
    for fi in prog.functions():
        if fi.cls is not None:
            if fi.name in methods:
                amb.add(fi.name)
            methods[fi.name] = fi
    for a in amb:
        methods.pop(a, None)
    flows = {}
    for fi in prog.functions():
        flows.setdefault(fi.full, Flow(prog, fi, methods).run())
    live = {(k, p) for k, fl in flows.items() for p in fl.live}
    changed = True
    n = 0
    while changed:
        changed = False
        n += 1
        for k, fl in flows.items():
            for q, cal, p in fl.edges:
                if (k, q) not in live and (cal not in flows or (cal, p) in live):
                    live.add((k, q))
                    changed = True
    rep.count('fixpoint_rounds', n)
    rep.count('edges', sum(len(f.edges) for f in flows.values()))
    for k, fl in flows.items():
        fi = fl.fi
        if not public(fi):
            continue
        rep.count('functions')
        documented(rep, prog, fi)
        skip = 1 if fi.cls is not None and 'staticmethod' not in fi.decos else 0
        for p in (fi.params[skip:] + fi.kwonly):
            rep.count('parameters')
            rep.count('obligations')
            if (k, p) in live and (k, p + V) in live:
                rep.count('proved')
            elif (k, p) in live:
                rep.finding('value-unused', k, p, 'only whether %s was given has any influence, not the value passed' % p, fi.mod.rel(), fi.node.lineno)
            else:
                via = sorted({'%s(%s)' % (c, q) for (x, c, q) in fl.edges if x == p})
                rep.finding('ignored', k, p, 'the value passed as %s cannot influence the function%s' % (p, '; it only reaches ' + ', '.join(via) if via else ''),
                            fi.mod.rel(), fi.node.lineno)
    return prog
