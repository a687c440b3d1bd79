"""Reads the repository's current source: modules, functions, classes (by ast, on every run)."""
import warnings
import ast
import os
import hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')


class ClassInfo:
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.methods, self.consts, self.decos = {}, {}, {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                decs = [_dec_name(d) for d in s.decorator_list]
                if any(d.endswith('.setter') for d in decs):
                    continue
                self.methods[s.name] = s
                self.decos[s.name] = decs
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value

    def qual(self):
        return f"{self.mod.name}.{self.name}"

    def bases(self):
        out = []
        for b in self.node.bases:
            c = self.mod.class_of(b)
            if c is not None:
                out.append(c)
        return out

    def base_names(self):
        """dotted names of bases that lie outside the repository"""
        out = []
        for b in self.node.bases:
            if self.mod.class_of(b) is None:
                out.append(ast.unparse(b))
        return out

    def mro(self):
        out = [self]
        for b in self.bases():
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c, c.methods[name]
        return None, None

    def find_const(self, name):
        for c in self.mro():
            if name in c.consts:
                return c, c.consts[name]
        return None, None

    def is_subclass(self, name):
        return any(c.name == name for c in self.mro())

    def total_ordering(self):
        return any('total_ordering' in _dec_name(d) for c in self.mro() for d in c.node.decorator_list)


def _dec_name(d):
    try:
        return ast.unparse(d)
    except Exception:
        return '?'


class Module:
    def __init__(self, name, src):
        self.name = name
        self.path = src.path(name)
        self.src = src
        text = open(self.path, encoding='utf-8').read()
        self.sha = hashlib.sha256(text.encode()).hexdigest()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')      # of the code under verification
            self.tree = ast.parse(text)
        self.top = {}
        self.is_pkg = self.path.endswith('__init__.py')
        for s in self.tree.body:
            self._add(s)

    def _add(self, s):
        if isinstance(s, ast.FunctionDef):
            self.top[s.name] = ('func', s)
        elif isinstance(s, ast.ClassDef):
            self.top[s.name] = ('class', ClassInfo(s.name, s, self))
        elif isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    self.top[a.asname] = ('mod', a.name)
                else:
                    self.top[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
        elif isinstance(s, ast.ImportFrom):
            base = s.module or ''
            if s.level:
                parts = self.name.split('.')
                if not self.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (s.level - 1)]
                base = '.'.join(parts + ([base] if base else []))
            for a in s.names:
                self.top[a.asname or a.name] = ('from', (base, a.name))
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            self.top[s.targets[0].id] = ('expr', s.value)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            self.top[s.target.id] = ('expr', s.value)
        elif isinstance(s, (ast.If, ast.Try)):
            for b in s.body:
                self._add(b)

    def lookup(self, name):
        """-> ('func', node, module) | ('class', ClassInfo) | ('ext', dotted) | ('expr', node, module) | None"""
        if name not in self.top:
            return None
        k, x = self.top[name]
        if k == 'func':
            return ('func', x, self)
        if k == 'class':
            return ('class', x)
        if k == 'expr':
            return ('expr', x, self)
        if k == 'mod':
            return ('repomod', x) if self.src.has(x) else ('ext', x)
        base, nm = x
        if self.src.has(base):
            m = self.src.module(base)
            r = m.lookup(nm)
            if r is not None:
                return r
            if self.src.has(base + '.' + nm):
                return ('repomod', base + '.' + nm)
            return ('ext', base + '.' + nm)
        return ('ext', base + '.' + nm)

    def class_of(self, expr):
        if isinstance(expr, ast.Name):
            r = self.lookup(expr.id)
            if r and r[0] == 'class':
                return r[1]
        if isinstance(expr, ast.Attribute):
            try:
                base = ast.unparse(expr.value)
            except Exception:
                return None
            r = self.lookup(base.split('.')[0])
            if r and r[0] == 'repomod':
                m = r[1]
                rest = base.split('.')[1:]
                full = '.'.join([m] + rest)
                if self.src.has(full):
                    rr = self.src.module(full).lookup(expr.attr)
                    if rr and rr[0] == 'class':
                        return rr[1]
        return None


class Source:
    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}

    def path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def has(self, name):
        return name.split('.')[0] == 'leap_ec' and os.path.exists(self.path(name))

    def module(self, name):
        if name not in self.mods:
            self.mods[name] = Module(name, self)
        return self.mods[name]

    def find(self, modname, qual):
        """-> (module, ClassInfo or None, FunctionDef); follows nested functions with '/'"""
        m = self.module(modname)
        parts = qual.split('/')
        head = parts[0]
        cls = None
        if '.' in head:
            cn, fn = head.split('.', 1)
            r = m.lookup(cn)
            if not r or r[0] != 'class':
                raise KeyError(f"{modname}:{cn} not found")
            cls, node = r[1].find(fn)
            if node is None:
                raise KeyError(f"{modname}:{head} not found")
            cls = r[1]
        else:
            r = m.lookup(head)
            if not r or r[0] != 'func':
                raise KeyError(f"{modname}:{head} not found")
            _, node, m = r
        for p in parts[1:]:
            nxt = None
            for s in ast.walk(node):
                if isinstance(s, ast.FunctionDef) and s.name == p and s is not node:
                    nxt = s
                    break
            if nxt is None:
                raise KeyError(f"{modname}:{qual} not found")
            node = nxt
        return m, cls, node
