"""Whole-program model of the nimble package, built from source with `ast`.

Parses every module under <repo>/nimble, resolves imports and re-exports,
classes with their C3 method resolution order, functions (methods, nested
functions and lambdas), and decorators.  Nothing of the analysed program is
imported or executed.
"""
import ast
import os
import warnings


class AnalysisError(Exception):
    """The analysis lost an anchor or met source that it cannot model."""


class Ext:
    """Something outside the analysed package, by dotted name."""
    _cache = {}
    __slots__ = ('name',)

    def __new__(cls, name):
        got = cls._cache.get(name)
        if got is None:
            got = object.__new__(cls)
            got.name = name
            cls._cache[name] = got
        return got

    def __repr__(self):
        return 'Ext(%s)' % self.name


class Var:
    """A module-level variable of the package that is not func/class/module."""
    __slots__ = ('module', 'name', 'value')

    def __init__(self, module, name, value):
        self.module, self.name, self.value = module, name, value

    @property
    def qual(self):
        return self.module.name + '.' + self.name

    def __repr__(self):
        return 'Var(%s)' % self.qual


class Func:
    def __init__(self, module, node, cls=None, parent=None):
        self.module, self.node, self.cls, self.parent = module, node, cls, parent
        self.name = getattr(node, 'name', '<lambda>')
        if parent is not None:
            pre = parent.qual + '.<locals>.'
        elif cls is not None:
            pre = cls.qual + '.'
        else:
            pre = module.name + '.'
        self.qual = pre + self.name
        if self.name == '<lambda>':
            self.qual += '@%d:%d' % (node.lineno, node.col_offset)
        self.short = self.qual.split('nimble.')[-1]
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.pos = self.posonly + [x.arg for x in a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.params = list(self.pos)
        if self.vararg:
            self.params.append(self.vararg)
        self.params += self.kwonly
        if self.kwarg:
            self.params.append(self.kwarg)
        self.defaults = {}
        for n, d in zip(reversed(self.pos), reversed(a.defaults)):
            self.defaults[n] = d
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[n] = d
        self.decos = list(getattr(node, 'decorator_list', []))
        self.deconames = set()
        for d in self.decos:
            self.deconames.add(dotted(d.func if isinstance(d, ast.Call) else d))
        self.is_static = 'staticmethod' in self.deconames
        self.is_classmethod = 'classmethod' in self.deconames or \
            any(d and d.endswith('abstractclassmethod') for d in self.deconames)
        self.is_property = 'property' in self.deconames or \
            'cached_property' in self.deconames
        self.is_setter = any(d and d.endswith('.setter') for d in self.deconames)
        self.is_abstract = any(d and 'abstract' in d for d in self.deconames)
        self.is_generator = False
        if not isinstance(node, ast.Lambda):
            for n in walk_own(node):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    self.is_generator = True
                    break

    @property
    def public(self):
        return not self.name.startswith('_')

    @property
    def method_self(self):
        """name of the receiver parameter or None"""
        if self.cls is not None and self.parent is None and \
                not self.is_static and self.pos:
            return self.pos[0]
        return None

    def loc(self, node=None):
        node = node or self.node
        return '%s:%d' % (self.module.rel, getattr(node, 'lineno', 0))

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Cls:
    def __init__(self, module, node):
        self.module, self.node = module, node
        self.name = node.name
        self.qual = module.name + '.' + node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self.bases = []
        self.extbases = []
        self._mro = None
        self.subs = []

    def mro(self):
        if self._mro is None:
            seqs = [b.mro()[:] for b in self.bases] + [list(self.bases)]
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise AnalysisError('no linear MRO for ' + self.qual)
                out.append(c)
                seqs = [[x for x in t if x is not c] for t in seqs]
                seqs = [t for t in seqs if t]
            self._mro = out
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def lookup_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def super_lookup(self, owner, name):
        m = self.mro()
        if owner in m:
            for c in m[m.index(owner) + 1:]:
                if name in c.methods:
                    return c.methods[name]
        return None

    def issub(self, other):
        return other in self.mro()

    def all_subs(self):
        out, todo = [], list(self.subs)
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                todo.extend(c.subs)
        return out

    def abstract_names(self):
        out = set()
        for c in reversed(self.mro()):
            for n, f in c.methods.items():
                if f.is_abstract:
                    out.add(n)
                else:
                    out.discard(n)
        return out

    def __repr__(self):
        return 'Cls(%s)' % self.qual


class Module:
    def __init__(self, name, path, rel, tree, is_pkg):
        self.name, self.path, self.rel = name, path, rel
        self.tree, self.is_pkg = tree, is_pkg
        self.symbols = {}     # name -> entity or ('import', modname, attr|None)
        self.funcs = []
        self.classes = []

    def __repr__(self):
        return 'Module(%s)' % self.name


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return '.'.join(reversed(parts))
    return None


def walk_own(fnode):
    """A function's own nodes, without nested function/class bodies."""
    got = getattr(fnode, '_own_nodes', None)
    if got is not None:
        return got
    out = []
    body = fnode.body if isinstance(fnode.body, list) else [fnode.body]
    todo = list(reversed(body))
    while todo:
        n = todo.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        todo.extend(reversed(list(ast.iter_child_nodes(n))))
    fnode._own_nodes = out
    return out


class Program:
    def __init__(self, repo='/repo', pkg='nimble'):
        self.repo, self.pkg = repo, pkg
        self.modules = {}
        self.funcs = []
        self.func_of_node = {}
        self.classes = []
        self.by_method = {}
        self._load()
        self._index()

    # ------------------------------------------------------------ loading
    def _load(self):
        root = os.path.join(self.repo, self.pkg)
        if not os.path.isdir(root):
            raise AnalysisError('no package directory ' + root)
        for dp, dn, fn in sorted(os.walk(root)):
            dn[:] = sorted(d for d in dn if d != '__pycache__')
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.repo)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                name = '.'.join(parts)
                with open(path, encoding='utf-8') as h:
                    src = h.read()
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    try:
                        tree = ast.parse(src, path)
                    except SyntaxError as e:
                        raise AnalysisError('cannot parse %s: %s' % (rel, e))
                self.modules[name] = Module(name, path, rel, tree, is_pkg)

    def _index(self):
        for m in self.modules.values():
            self._scan_block(m, m.tree.body)
        # resolve bases
        for c in self.classes:
            for b in c.node.bases:
                e = self.resolve_expr(c.module, b)
                if isinstance(e, Cls):
                    c.bases.append(e)
                    e.subs.append(c)
                else:
                    c.extbases.append(e.name if isinstance(e, Ext)
                                      else (dotted(b) or '?'))
        for f in self.funcs:
            if f.cls is not None and f.parent is None:
                self.by_method.setdefault(f.name, []).append(f)

    def _scan_block(self, m, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.symbols[a.asname] = ('import', a.name, None)
                    else:
                        top = a.name.split('.')[0]
                        m.symbols[top] = ('import', top, None)
            elif isinstance(st, ast.ImportFrom):
                base = self._abs_from(m, st)
                for a in st.names:
                    m.symbols[a.asname or a.name] = ('import', base, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._add_func(m, st, None, None)
                m.funcs.append(f)
                m.symbols[st.name] = f
            elif isinstance(st, ast.ClassDef):
                self._add_class(m, st)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                tg = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in tg:
                    for n in ([t] if isinstance(t, ast.Name) else
                              [x for x in ast.walk(t)
                               if isinstance(x, ast.Name)]):
                        self._add_var(m, n.id, st.value)
            elif isinstance(st, (ast.If, ast.With, ast.For, ast.While)):
                self._scan_block(m, st.body)
                self._scan_block(m, getattr(st, 'orelse', []))
            elif isinstance(st, ast.Try):
                self._scan_block(m, st.body)
                for h in st.handlers:
                    self._scan_block(m, h.body)
                self._scan_block(m, st.orelse)
                self._scan_block(m, st.finalbody)

    def _add_var(self, m, name, value):
        if isinstance(value, ast.Call) and \
                (dotted(value.func) or '').endswith('DeferredModuleImport') \
                and value.args and isinstance(value.args[0], ast.Constant):
            m.symbols[name] = Ext(value.args[0].value)
            return
        cur = m.symbols.get(name)
        if isinstance(value, ast.Name) and value.id == name:
            return          # x = x
        if cur is None or isinstance(cur, (Var, tuple)):
            if not isinstance(cur, Var):
                m.symbols[name] = Var(m, name, value)

    def _abs_from(self, m, st):
        if st.level == 0:
            return st.module
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[:-(st.level - 1)]
        base = '.'.join(parts)
        return base + '.' + st.module if st.module else base

    def _add_func(self, m, node, cls, parent):
        f = Func(m, node, cls, parent)
        self.funcs.append(f)
        self.func_of_node[node] = f
        for n in walk_own(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda)):
                self._add_func(m, n, cls, f)
            elif isinstance(n, ast.ClassDef):
                for b in n.body:
                    if isinstance(b, ast.FunctionDef):
                        self._add_func(m, b, None, f)
        return f

    def _add_class(self, m, node):
        c = Cls(m, node)
        self.classes.append(c)
        m.classes.append(c)
        m.symbols[node.name] = c
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._add_func(m, st, c, None)
                if f.is_setter:
                    c.setters[f.name] = f
                else:
                    c.methods[f.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = st.value
                        # alias of a method:  __radd__ = __add__
                        if isinstance(st.value, ast.Name) and \
                                st.value.id in c.methods:
                            c.methods[t.id] = c.methods[st.value.id]

    # --------------------------------------------------------- resolution
    def module_attr(self, modname, attr, _seen=None):
        """entity for modname.attr"""
        _seen = _seen or set()
        if (modname, attr) in _seen:
            return None
        _seen.add((modname, attr))
        if modname in self.modules:
            m = self.modules[modname]
            s = m.symbols.get(attr)
            if s is not None:
                return self._sym(s, _seen)
            sub = modname + '.' + attr
            if sub in self.modules:
                return self.modules[sub]
            return None
        return Ext(modname + '.' + attr)

    def _sym(self, s, _seen=None):
        if isinstance(s, tuple):
            _, mod, attr = s
            if attr is None:
                if mod in self.modules:
                    return self.modules[mod]
                return Ext(mod)
            if mod + '.' + attr in self.modules and \
                    attr not in self.modules.get(mod, _Empty).symbols:
                return self.modules[mod + '.' + attr]
            got = self.module_attr(mod, attr, _seen)
            if got is None and mod + '.' + attr in self.modules:
                return self.modules[mod + '.' + attr]
            return got
        return s

    def resolve_name(self, module, name):
        s = module.symbols.get(name)
        if s is None:
            return None
        return self._sym(s)

    def resolve_expr(self, module, node):
        """entity of a Name / dotted Attribute expression at module scope"""
        if isinstance(node, ast.Name):
            return self.resolve_name(module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value)
            return self.attr_of(b, node.attr)
        return None

    def attr_of(self, ent, attr):
        if isinstance(ent, Module):
            return self.module_attr(ent.name, attr)
        if isinstance(ent, Ext):
            return Ext(ent.name + '.' + attr)
        if isinstance(ent, Cls):
            return ent.lookup(attr)
        return None

    def cls(self, qual):
        for c in self.classes:
            if c.qual == qual or c.name == qual:
                return c
        raise AnalysisError('anchor class %s not found' % qual)

    def try_cls(self, qual):
        for c in self.classes:
            if c.qual == qual or c.name == qual:
                return c
        return None

    def func(self, qual):
        for f in self.funcs:
            if f.qual == qual:
                return f
        raise AnalysisError('anchor function %s not found' % qual)


class _Empty:
    symbols = {}
