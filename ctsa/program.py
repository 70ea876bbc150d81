"""Loads /repo/clustertools as a resolved program: modules, names, functions, classes."""
import ast
import hashlib
import os

PKG = 'clustertools'


class AnalysisBroken(Exception):
    """an anchor the check depends on vanished: error exit, never a silent pass"""


class FuncInfo:
    def __init__(self, mod, node, cls=None, outer=None):
        self.mod = mod
        self.node = node
        self.name = node.name if not isinstance(node, ast.Lambda) else '<lambda>'
        self.cls = cls
        self.outer = outer
        self.is_lambda = isinstance(node, ast.Lambda)
        self.decos = [] if self.is_lambda else [_deco_name(d) for d in node.decorator_list]
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.params = self.posonly + [x.arg for x in a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for p, d in zip(self.params[len(self.params) - len(a.defaults):], a.defaults):
            self.defaults[p] = d
        for p, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[p] = d
        self._live = None
        self._locals = None

    @property
    def qual(self):
        q = self.name
        if self.cls is not None:
            q = self.cls.name + '.' + q
        elif self.outer is not None:
            q = self.outer.qual + '.' + q
        return q

    @property
    def full(self):
        return self.mod.short + ':' + self.qual

    def default_const(self, p):
        d = self.defaults.get(p)
        try:
            return ast.literal_eval(d) if d is not None else None
        except Exception:
            return None

    @property
    def numba(self):
        return any(d and ('jit' in d or 'vectorize' in d) for d in self.decos)

    def body(self):
        if self.is_lambda:
            r = ast.Return(value=self.node.body)
            ast.copy_location(r, self.node)
            r.end_lineno = getattr(self.node, 'end_lineno', r.lineno)
            return [r]
        return self.node.body

    def locals(self):
        """names bound in this function scope"""
        if self._locals is None:
            s = set(self.params) | set(self.kwonly)
            if self.vararg:
                s.add(self.vararg)
            if self.kwarg:
                s.add(self.kwarg)
            glob = set()

            def walk(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        s.add(c.name)
                        continue
                    if isinstance(c, ast.Lambda):
                        continue
                    if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        continue
                    if isinstance(c, (ast.Global, ast.Nonlocal)):
                        glob.update(c.names)
                    if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                        s.add(c.id)
                    if isinstance(c, (ast.Import, ast.ImportFrom)):
                        for al in c.names:
                            s.add((al.asname or al.name).split('.')[0])
                    if isinstance(c, ast.ExceptHandler) and c.name:
                        s.add(c.name)
                    walk(c)
            if not self.is_lambda:
                for b in self.node.body:
                    w = ast.Module(body=[b], type_ignores=[])
                    walk(w)
            self._locals = s - glob
        return self._locals

    def loads(self):
        """list of (name, line, col-free position) of loads, and loop spans"""
        if self._live is None:
            L = []
            for n in ast.walk(self.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    L.append((n.id, n.lineno))
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    L.append((n.target.id, n.lineno))
                elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not self.node:
                    for m in ast.walk(n):
                        if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load):
                            L.append((m.id, 10 ** 9))
            loops = [(n.lineno, n.end_lineno) for n in ast.walk(self.node) if isinstance(n, (ast.For, ast.While))]
            self._live = (L, loops)
        return self._live

    def live_after(self, line_end):
        L, loops = self.loads()
        spans = [s for s in loops if s[0] <= line_end <= s[1]]
        lo = min([s[0] for s in spans], default=None)
        hi = max([s[1] for s in spans], default=None)
        out = set()
        for name, ln in L:
            if ln > line_end or (lo is not None and lo <= ln <= hi):
                out.add(name)
        return out


def _deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    try:
        return ast.unparse(d)
    except Exception:
        return None


class ClassInfo:
    def __init__(self, mod, node):
        self.mod = mod
        self.node = node
        self.name = node.name
        self.methods = {}
        self.attrs = {}
        self.bases = node.bases
        for b in node.body:
            if isinstance(b, ast.FunctionDef):
                self.methods[b.name] = FuncInfo(mod, b, cls=self)
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = b.value


class ModuleInfo:
    def __init__(self, prog, name, path):
        self.prog = prog
        self.name = name
        self.short = name[len(PKG) + 1:] if name.startswith(PKG + '.') else name
        self.path = path
        self.src = open(path, encoding='utf-8').read()
        self.tree = ast.parse(self.src, filename=path)
        self.is_pkg = os.path.basename(path) == '__init__.py'
        # bindings: name -> list of ('func',FuncInfo)|('class',..)|('import',dotted)|('from',mod,name)|('star',mod)|('expr',node)
        self.binds = {}
        self.stars = []
        self.order = []
        self._collect(self.tree.body, True)
        self.all = None
        if '__all__' in self.binds:
            for k, v in self.binds['__all__']:
                try:
                    self.all = ast.literal_eval(v)
                except Exception:
                    self.all = None

    def _bind(self, name, b, primary=True):
        L = self.binds.setdefault(name, [])
        if primary:
            L.append(b)
        elif not L:
            L.append(b)

    def _collect(self, body, primary):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self._bind(s.name, ('func', FuncInfo(self, s)), primary)
            elif isinstance(s, ast.ClassDef):
                self._bind(s.name, ('class', ClassInfo(self, s)), primary)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self._bind(a.asname, ('import', a.name), primary)
                    else:
                        self._bind(a.name.split('.')[0], ('import', a.name.split('.')[0]), primary)
            elif isinstance(s, ast.ImportFrom):
                base = self._abs(s)
                for a in s.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self._bind(a.asname or a.name, ('from', base, a.name), primary)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self._bind(t.id, ('expr', s.value), primary)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self._bind(e.id, ('exprix', s.value, i), primary)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self._bind(s.target.id, ('expr', s.value), primary)
            elif isinstance(s, ast.Try):
                self._collect(s.body, primary)
                self._collect(s.orelse, primary)
                for h in s.handlers:
                    self._collect(h.body, False)
                self._collect(s.finalbody, primary)
            elif isinstance(s, ast.If):
                self._collect(s.body, primary)
                self._collect(s.orelse, False)
            elif isinstance(s, (ast.With, ast.For, ast.While)):
                self._collect(s.body, primary)

    def _abs(self, s):
        if s.level == 0:
            return s.module or ''
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        if s.module:
            parts = parts + s.module.split('.')
        return '.'.join(parts)

    def rel(self):
        return os.path.relpath(self.path, self.prog.root)


class Program:
    def __init__(self, root):
        self.root = os.path.abspath(root)
        self.mods = {}
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken('no package directory %s' % base)
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ('__pycache__', 'tests'))
            for fn in sorted(fs):
                if fn.endswith('.py'):
                    p = os.path.join(d, fn)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    try:
                        self.mods[rel] = ModuleInfo(self, rel, p)
                    except SyntaxError as e:
                        raise AnalysisBroken('cannot parse %s: %s' % (p, e))
        self._resolve_cache = {}

    def digest(self):
        h = hashlib.sha256()
        for k in sorted(self.mods):
            h.update(k.encode())
            h.update(self.mods[k].src.encode())
        return h.hexdigest()[:16]

    def mod(self, short):
        m = self.mods.get(PKG + '.' + short) or self.mods.get(short)
        if m is None:
            raise AnalysisBroken('module %s not found' % short)
        return m

    # resolution -> ('func',FuncInfo) | ('class',ClassInfo) | ('mod',name) | ('ext',dotted) | ('expr',mod,node) | ('exprix',mod,node,i) | None
    def resolve(self, modname, name, seen=None):
        key = (modname, name)
        if seen is None and key in self._resolve_cache:
            return self._resolve_cache[key]
        seen = seen or set()
        if key in seen:
            return None
        seen.add(key)
        r = self._resolve(modname, name, seen)
        self._resolve_cache[key] = r
        return r

    def _resolve(self, modname, name, seen):
        m = self.mods.get(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        L = m.binds.get(name)
        if L:
            b = L[-1]
            if b[0] in ('func', 'class'):
                return b
            if b[0] == 'import':
                if b[1] in self.mods:
                    return ('mod', b[1])
                return ('ext', b[1])
            if b[0] == 'from':
                base, nm = b[1], b[2]
                if base in self.mods:
                    r = self.resolve(base, nm, seen)
                    if r is not None:
                        return r
                    if base + '.' + nm in self.mods:
                        return ('mod', base + '.' + nm)
                    return None
                if base + '.' + nm in self.mods:
                    return ('mod', base + '.' + nm)
                return ('ext', base + '.' + nm)
            if b[0] == 'expr':
                return ('expr', m, b[1])
            if b[0] == 'exprix':
                return ('exprix', m, b[1], b[2])
        if m.is_pkg and modname + '.' + name in self.mods:
            return ('mod', modname + '.' + name)
        for st in reversed(m.stars):
            sm = self.mods.get(st)
            if sm is None:
                continue
            if sm.all is not None:
                if name not in sm.all:
                    continue
            elif name.startswith('_'):
                continue
            r = self.resolve(st, name, seen)
            if r is not None:
                return r
        return None

    def ext_star(self, modname):
        """module star-imports something outside the package"""
        m = self.mods.get(modname)
        return any(s not in self.mods for s in m.stars)

    def func(self, short, name):
        m = self.mod(short)
        r = self.resolve(m.name, name)
        if r is None or r[0] != 'func':
            raise AnalysisBroken('function %s:%s not found' % (short, name))
        return r[1]

    def cls(self, short, name):
        m = self.mod(short)
        r = self.resolve(m.name, name)
        if r is None or r[0] != 'class':
            raise AnalysisBroken('class %s:%s not found' % (short, name))
        return r[1]

    def functions(self):
        """all module-level functions and methods"""
        for m in self.mods.values():
            for name, L in m.binds.items():
                for b in L[-1:]:
                    if b[0] == 'func':
                        yield b[1]
                    elif b[0] == 'class':
                        for fi in b[1].methods.values():
                            yield fi
