"""Shared effect / alias analysis for C01, C02, C03."""
import ast
from ..absint import Interp, Domain
from ..model import AnalysisError, Func, Cls, walk_own, dotted

CONTENT = {'_data', '_dims', 'names', 'namesInverse', '<content>'}


def public_methods(nim, cls):
    """name -> Func: public methods, operators and properties of a class"""
    out = {}
    for c in cls.mro():
        for name, f in c.methods.items():
            if name in out:
                continue
            if name.startswith('_') and not (
                    name.startswith('__') and name.endswith('__')):
                continue
            if name in ('__init__', '__init_subclass__', '__new__'):
                continue
            g = cls.lookup(name)
            if g is None or g.is_static or g.is_classmethod:
                continue
            out[name] = g
    return out


def ordering_functions(prog, nim):
    """functions that remember the ordering of a sparse object's coordinate
    data (store something other than None in `_sorted`): they permute the
    coordinate arrays jointly, which changes no content."""
    out = set()
    for f in prog.funcs:
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and not (
                    isinstance(n.value, ast.Constant)
                    and n.value.value is None):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(
                            t.value, ast.Attribute) and \
                            t.value.attr == '_sorted':
                        out.add(f)
    return out


def is_contextmanager(f):
    return any((dotted(d) or '').endswith('contextmanager')
               for d in f.decos)


def none_guarded(func, node):
    """is `node` (an assignment to x.A) only executed when x.A is None"""
    if not isinstance(node, ast.Assign) or len(node.targets) != 1:
        return False
    tgt = dotted(node.targets[0])
    if tgt is None:
        return False

    def tests_none(test):
        for n in ast.walk(test):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                    isinstance(n.ops[0], ast.Is) and \
                    isinstance(n.comparators[0], ast.Constant) and \
                    n.comparators[0].value is None and \
                    dotted(n.left) == tgt:
                return True
        return False

    found = []

    def walk(stmts, guards):
        for s in stmts:
            if s is node:
                found.append(any(tests_none(g) for g in guards))
            if isinstance(s, ast.If):
                walk(s.body, guards + [s.test])
                walk(s.orelse, guards)
            else:
                for fld in ('body', 'orelse', 'finalbody'):
                    walk(getattr(s, fld, None) or [], guards)
                for h in getattr(s, 'handlers', []) or []:
                    walk(h.body, guards)
    walk(func.node.body if not isinstance(func.node, ast.Lambda) else [], [])
    return bool(found) and all(found)


def restored_attrs(func):
    """attribute chains saved in a local first and put back later in the same
    function (whether that happens on every exit is C08's business)"""
    saved, back = {}, {}
    for n in walk_own(func.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            t, v = n.targets[0], n.value
            if isinstance(t, ast.Name) and isinstance(v, ast.Attribute) \
                    and dotted(v):
                saved.setdefault((t.id, dotted(v)), n)
            elif isinstance(t, ast.Attribute) and isinstance(v, ast.Name) \
                    and dotted(t):
                back.setdefault((v.id, dotted(t)), n)
    return {a for (nm, a) in saved if (nm, a) in back}


class Effects:
    def __init__(self, rep):
        self.rep, self.p, self.nim = rep, rep.prog, rep.nim
        self.I = Interp(self.p, self.nim, Domain(), contracts=True)
        self.ordering = ordering_functions(self.p, self.nim)
        if not self.ordering:
            raise AnalysisError('no function remembering the sparse ordering')
        self._rest = {}
        self.default_names = default_name_functions(self.p)

    def analyse(self, f, cls=None, **kw):
        return self.I.analyse(f, cls, **kw)

    def restored(self, f):
        if f not in self._rest:
            self._rest[f] = restored_attrs(f)
        return self._rest[f]

    def exempt(self, path, kind, site):
        """why this write changes no observable content, or None"""
        if '_sorted' in path:
            return 'ordering cache'
        funcs = [f for f, _ in site.via] + [site.func]
        if any(f in self.ordering for f in funcs):
            return 'joint reordering of coordinate storage'
        if any(is_contextmanager(f) for f in funcs) and '_dims' in path:
            return 'save/restore region (C08)'
        n = site.node
        if kind == 'attr' and isinstance(n, ast.Assign):
            for t in n.targets:
                d = dotted(t)
                if d and d in self.restored(site.func):
                    return 'save/restore region (C08)'
        if kind == 'attr' and path[-1:] in (('index',), ('columns',)) and \
                '_data' in path:
            return 'pandas labels, not part of the content'
        if path[-1] in ('names', 'namesInverse') and kind == 'attr':
            if none_guarded(site.func, n):
                return 'lazily created empty names'
            if site.func in self.default_names and site.via:
                cf, cn = site.via[-1]
                if guarded_no_names(cf, cn):
                    return 'lazily created empty names'
        if '_data' in path and kind == 'item' and self_conversion(n) and \
                any(f.name == '_copy_implementation' and f.cls is not None
                    and f.cls.name == 'DataFrame' for f in funcs):
            # the timestamp columns of an array: an array with any datetime
            # column never is the stored one (dtype object is converted)
            return 'conversion of a converted copy'
        return None


def default_name_functions(prog):
    """functions that give an axis its empty default names: they store `{}`
    in .names and do nothing else to names but fill .namesInverse"""
    out = set()
    for f in prog.funcs:
        st = [n for n in walk_own(f.node) if isinstance(n, ast.Assign)
              and any(isinstance(t, ast.Attribute) and t.attr == 'names'
                      for t in n.targets)]
        if st and all(isinstance(n.value, ast.Dict) and not n.value.keys
                      for n in st) and not any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                for n in walk_own(f.node)):
            out.add(f)
    return out


def _says_no_names(test):
    """the test is true only where an axis has no names yet"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return _says_names(test.operand)
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
            isinstance(test.ops[0], ast.Is) and \
            isinstance(test.comparators[0], ast.Constant) and \
            test.comparators[0].value is None:
        d = dotted(test.left) or ''
        return d.split('.')[-1] in ('names', 'namesInverse')
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
        return any(_says_no_names(v) for v in test.values)
    return False


def _says_names(test):
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return _says_no_names(test.operand)
    if isinstance(test, ast.Call) and isinstance(test.func, ast.Attribute):
        return test.func.attr == '_namesCreated'
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
            isinstance(test.ops[0], ast.IsNot) and \
            isinstance(test.comparators[0], ast.Constant) and \
            test.comparators[0].value is None:
        d = dotted(test.left) or ''
        return d.split('.')[-1] in ('names', 'namesInverse')
    return False


def leaves(stmts):
    return bool(stmts) and isinstance(stmts[-1], (
        ast.Return, ast.Raise, ast.Continue, ast.Break))


def guarded_no_names(func, node):
    """is the statement holding `node` reached only where the axis has no
    names (if not created: ..., or after `if created: return`)"""
    found = []

    def walk(stmts, ok):
        for s in stmts:
            if isinstance(s, ast.If):
                if any(x is node for x in ast.walk(s.test)):
                    found.append(ok)
                walk(s.body, ok or _says_no_names(s.test))
                walk(s.orelse, ok or _says_names(s.test))
                if _says_names(s.test) and leaves(s.body):
                    ok = True
                continue
            subs = [getattr(s, f, None) or [] for f in (
                'body', 'orelse', 'finalbody')]
            if isinstance(s, (ast.For, ast.While, ast.With, ast.Try)):
                for b in subs:
                    walk(b, ok)
                for h in getattr(s, 'handlers', None) or []:
                    walk(h.body, ok)
            elif any(x is node for x in ast.walk(s)):
                found.append(ok)
    if isinstance(func.node, ast.Lambda):
        return False
    walk(func.node.body, False)
    return bool(found) and all(found)


def self_conversion(n):
    """`x[i] = f(x[i])`"""
    if not (isinstance(n, ast.Assign) and len(n.targets) == 1):
        return False
    t = ast.dump(n.targets[0]).replace('Store()', 'Load()')
    return isinstance(n.value, ast.Call) and any(
        ast.dump(a) == t for a in n.value.args)


def src_text(node):
    try:
        return ast.unparse(node)
    except Exception:
        return type(node).__name__
