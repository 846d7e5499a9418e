"""The analysed program: modules, classes, functions and their resolution."""
import ast
import hashlib
import os

from . import terms as t

ALIAS = {
    'sympy.Rel': 'sympy.Relational',
    'sympy.core.relational.Relational': 'sympy.Relational',
    'sympy.core.relational.Rel': 'sympy.Relational',
    'sympy.core.expr.Expr': 'sympy.Expr',
    'sympy.core.symbol.Symbol': 'sympy.Symbol',
    'sympy.utilities.lambdify.lambdify': 'sympy.lambdify',
    'sympy.Equality': 'sympy.Eq',
    'sympy.GreaterThan': 'sympy.Ge',
    'sympy.LessThan': 'sympy.Le',
    'sympy.core.relational.Eq': 'sympy.Eq',
    'sympy.core.relational.Ge': 'sympy.Ge',
    'sympy.core.relational.Le': 'sympy.Le',
    'sympy.core.basic.Basic': 'sympy.Basic',
    'sympy.core.symbol.Dummy': 'sympy.Dummy',
    'sympy.tensor.Idx': 'sympy.Idx',
    'sympy.core.function.Function': 'sympy.Function',
    'sympy.core.function.Derivative': 'sympy.Derivative',
    'np': 'numpy',
}


class ClassInfo(object):
    def __init__(self, qual, node, module):
        self.qual = qual
        self.name = qual.split('.')[-1]
        self.node = node
        self.module = module
        self.bases = []        # ClassInfo or str (external)
        self.members = {}      # name -> ('func', FuncInfo) | ('expr', node)
        self.mro = None
        self.term = t.mk('cls', qual)

    def __repr__(self):
        return '<class %s>' % self.qual


class FuncInfo(object):
    def __init__(self, fid, node, module, cls=None):
        self.fid = fid
        self.node = node
        self.module = module
        self.cls = cls
        self.name = getattr(node, 'name', '<lambda>')
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.pos = [x.arg for x in a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        body = node.body if isinstance(node.body, list) else [node.body]
        self.locals = set(self.posonly + self.pos + self.kwonly)
        if self.vararg:
            self.locals.add(self.vararg)
        if self.kwarg:
            self.locals.add(self.kwarg)
        self.nested = False
        self.is_gen = False
        self.nonlocals = set()
        for b in body:
            self._scan(b)
        self.locals -= self.nonlocals

    def _scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.locals.add(n.name)
            self.nested = True
            return
        if isinstance(n, ast.ClassDef):
            self.locals.add(n.name)
            self.nested = True
            return
        if isinstance(n, ast.Lambda):
            self.nested = True
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            # targets are local to the comprehension; walrus is not
            for c in ast.walk(n):
                if isinstance(c, ast.Lambda):
                    self.nested = True
                if isinstance(c, ast.NamedExpr):
                    self.locals.add(c.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            self.nonlocals |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locals.add((al.asname or al.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            self._scan(c)

    @property
    def where(self):
        return '%s:%s:%s' % (self.module.relpath, getattr(self.node, 'lineno', 0),
                             self.fid.split(':', 1)[1].split('@')[0])


class Module(object):
    def __init__(self, name, path, relpath, source):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.source = source
        self.tree = ast.parse(source)
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.globals = {}      # name -> ('class', ClassInfo)|('func', FuncInfo)
        #                        |('expr', node)|('import', dotted)
        self.stars = []
        self.toplevel = []


# sources to use instead of the files (relative path -> text); only the
# regression suite of the checks uses it
OVERRIDES = {}


class World(object):
    def __init__(self, root='/repo', package='symfit'):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self.digest = hashlib.sha256()
        base = os.path.join(root, package)
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__'))
            for f in sorted(files):
                if f.endswith('.py'):
                    self._load(os.path.join(d, f))
        for m in list(self.modules.values()):
            self._index(m)
        self._close_classes(list(self.classes.values()))
        self._patches = {}
        for m in list(self.modules.values()):
            self._patch(m)

    def _patch(self, m):
        """attributes assigned to classes at module level"""
        for n in m.toplevel:
            tg = n.targets if isinstance(n, ast.Assign) else [n.target]
            for x in tg:
                if not isinstance(x, ast.Attribute):
                    continue
                c = self._class_expr(m, x.value)
                if isinstance(c, ClassInfo):
                    if isinstance(n.value, ast.Name):
                        r = self.lookup(m, n.value.id)
                        if r is not None and r[0] == 'func':
                            c.members[x.attr] = r
                elif c is not None:
                    self._patches[(c, x.attr)] = (m, n.value)

    def patches(self):
        return self._patches

    def _close_classes(self, cs):
        for c in cs:
            self._resolve_bases(c)
        for c in cs:
            self.mro(c)
        for c in cs:
            names = set()
            for b in self.mro(c)[1:]:
                names.add(b.qual if isinstance(b, ClassInfo) else b)
            names.add(c.qual)
            ext = set()
            for n in names:
                ext |= t.EXTISA.get(n, set())
            t.ISA[c.qual] = names | ext

    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        src = OVERRIDES.get(rel)
        if src is None:
            src = open(path, encoding='utf-8').read()
        self.digest.update(rel.encode() + b'\0' + src.encode())
        parts = rel[:-3].split(os.sep)
        if parts[-1] == '__init__':
            parts = parts[:-1]
        name = '.'.join(parts)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.modules[name] = Module(name, path, rel, src)

    def add_source(self, name, src):
        """an extra module (specifications) in the same world"""
        m = Module(name, name + '.py', name, src)
        self.modules[name] = m
        self._index(m)
        self._close_classes([c for c in self.classes.values() if c.module is m])
        return m

    def _index(self, m):
        self._index_body(m, m.tree.body)

    def _index_body(self, m, body):
        for n in body:
            if isinstance(n, ast.ClassDef):
                c = ClassInfo(m.name + '.' + n.name, n, m)
                self._fill_class(c)
                self.classes[c.qual] = c
                m.globals[n.name] = ('class', c)
            elif isinstance(n, ast.FunctionDef):
                m.globals[n.name] = ('func', self.func(n, m))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.globals[a.asname] = ('import', a.name)
                    else:
                        m.globals[a.name.split('.')[0]] = (
                            'import', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                src = self._absname(m, n)
                for a in n.names:
                    if a.name == '*':
                        m.stars.append(src)
                    else:
                        m.globals[a.asname or a.name] = (
                            'import', (src + '.' + a.name) if src else a.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                for x in tg:
                    if isinstance(x, ast.Name) and n.value is not None:
                        m.globals[x.id] = ('expr', n.value)
                    elif isinstance(x, ast.Attribute):
                        m.toplevel.append(n)
            elif isinstance(n, (ast.If, ast.Try)):
                for fld in ('body', 'orelse', 'finalbody'):
                    self._index_body(m, getattr(n, fld, []))
                for h in getattr(n, 'handlers', []):
                    self._index_body(m, h.body)

    def _absname(self, m, n):
        if not n.level:
            return n.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        if n.module:
            parts.append(n.module)
        return '.'.join(parts)

    def func(self, node, m, cls=None):
        fid = '%s:%s%s@%s.%s' % (m.name, cls.name + '.' if cls else '',
                                 getattr(node, 'name', '<lambda>'),
                                 node.lineno, node.col_offset)
        f = self.funcs.get(fid)
        if f is None or f.node is not node:
            f = FuncInfo(fid, node, m, cls)
            self.funcs[fid] = f
        return f

    def _fill_class(self, c):
        for n in c.node.body:
            if isinstance(n, ast.FunctionDef):
                # property setters share the getter's name
                dec = [d for d in n.decorator_list]
                setter = any(isinstance(d, ast.Attribute) and d.attr in
                             ('setter', 'deleter') for d in dec)
                f = self.func(n, c.module, c)
                if setter:
                    kind = [d.attr for d in dec if isinstance(d, ast.Attribute)
                            and d.attr in ('setter', 'deleter')][0]
                    c.members[n.name + '$' + kind] = ('func', f)
                else:
                    c.members[n.name] = ('func', f)
            elif isinstance(n, ast.Assign):
                for x in n.targets:
                    if isinstance(x, ast.Name):
                        # another name for what was defined above
                        c.members[x.id] = c.members[n.value.id] if isinstance(
                            n.value, ast.Name) and n.value.id in c.members \
                            else ('expr', n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and \
                    isinstance(n.target, ast.Name):
                c.members[n.target.id] = ('expr', n.value)

    # ------------------------------------------------------------ names
    def lookup(self, m, name, seen=None):
        """global name in module -> entry or None"""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        e = m.globals.get(name)
        if e is not None:
            if e[0] == 'import':
                return self.resolve_dotted(e[1], seen)
            return e + (m,) if e[0] == 'expr' else e
        for s in m.stars:
            sm = self.modules.get(s)
            if sm is not None:
                r = self.lookup(sm, name, seen)
                if r is not None:
                    return r
        return None

    def resolve_dotted(self, dotted, seen=None):
        if dotted in self.modules:
            return ('module', self.modules[dotted])
        if '.' in dotted:
            mod, _, attr = dotted.rpartition('.')
            if mod in self.modules:
                r = self.lookup(self.modules[mod], attr, seen)
                if r is not None:
                    return r
                src = self._outer_stars(self.modules[mod], set())
                if len(src) == 1:
                    # re-exported from the only outside module imported whole
                    return ('ext', self.alias(src.pop() + '.' + attr))
                return ('ext', self.alias(dotted))
        return ('ext', self.alias(dotted))

    def _outer_stars(self, m, seen):
        if m.name in seen:
            return set()
        seen.add(m.name)
        out = set()
        for s in m.stars:
            if s in self.modules:
                out |= self._outer_stars(self.modules[s], seen)
            else:
                out.add(s)
        return out

    def alias(self, d):
        return ALIAS.get(d, d)

    def _resolve_bases(self, c):
        for b in c.node.bases:
            r = self._class_expr(c.module, b)
            if r is not None:
                c.bases.append(r)

    def _class_expr(self, m, b):
        if isinstance(b, ast.Name):
            r = self.lookup(m, b.id)
            if r is None:
                return 'builtins.' + b.id if b.id != 'object' else None
            if r[0] == 'class':
                return r[1]
            if r[0] == 'ext':
                return r[1]
            return None
        if isinstance(b, ast.Attribute):
            base = b
            parts = []
            while isinstance(base, ast.Attribute):
                parts.append(base.attr)
                base = base.value
            if isinstance(base, ast.Name):
                r = self.lookup(m, base.id)
                if r is None:
                    return None
                if r[0] == 'ext':
                    return self.alias('.'.join([r[1]] + parts[::-1]))
                if r[0] == 'module':
                    r2 = self.resolve_dotted('.'.join([r[1].name] + parts[::-1]))
                    return r2[1]
        return None

    def mro(self, c):
        if isinstance(c, str):
            return [c]
        if c.mro is not None:
            return c.mro
        c.mro = [c]       # guards against cycles
        seqs = [list(self.mro(b)) for b in c.bases] + [list(c.bases)]
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in x[1:] for x in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s and s[0] is h or (s and s[0] == h):
                    s.pop(0)
                if h in s:
                    s.remove(h)
            seqs = [s for s in seqs if s]
        c.mro = out
        return out

    def find_member(self, c, name, after=None):
        """(owner, member) following the MRO of c, optionally after a class"""
        m = self.mro(c)
        if after is not None:
            if after in m:
                m = m[m.index(after) + 1:]
        for k in m:
            if isinstance(k, ClassInfo) and name in k.members:
                return k, k.members[name]
        return None, None

    def dynclass(self, bases):
        """class without members of its own, made inside a function"""
        q = 'dyn.' + '&'.join(b.qual for b in bases)
        if q not in self.classes:
            import ast as _ast
            node = _ast.parse('class D: pass').body[0]
            c = ClassInfo(q, node, bases[0].module)
            c.name = 'dyn:' + '&'.join(b.name for b in bases)
            c.bases = list(bases)
            self.mro(c)
            names = set()
            for b in self.mro(c):
                names.add(b.qual if isinstance(b, ClassInfo) else b)
            ext = set()
            for n in names:
                ext |= t.EXTISA.get(n, set())
            t.ISA[q] = names | ext
            self.classes[q] = c
        return self.classes[q]

    def ext_bases(self, c):
        return [k for k in self.mro(c) if isinstance(k, str)]

    def cls(self, dotted):
        for q, c in self.classes.items():
            if q == dotted or q.endswith('.' + dotted):
                return c
        raise KeyError(dotted)
