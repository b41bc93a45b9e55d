"""Light call resolution and argument binding over the whole program.

`Flow.targets(f, call)` lists the package functions a call can run; the list
is exact when the callee is named directly (module function, class, own or
inherited method including overrides in subclasses, super()) and otherwise
holds every package method of that name.
"""
import ast
from .model import Func, Cls, Ext, Module, Var, walk_own, dotted

STAR = object()          # the value comes through * or ** and is not known
MISSING = object()       # not given: the default applies


class Target:
    __slots__ = ('func', 'bound', 'exact', 'ctor')

    def __init__(self, func, bound, exact, ctor=None):
        self.func, self.bound = func, bound
        self.exact, self.ctor = exact, ctor

    def __repr__(self):
        return 'Target(%s,%s,%s)' % (self.func, self.bound, self.exact)


class Flow:
    def __init__(self, prog):
        self.prog = prog
        self._locals = {}
        self._targets = {}
        self._callers = None
        self._assigns = {}
        self._local_ents = {}
        self.methods = {}
        for c in prog.classes:
            for n, f in c.methods.items():
                self.methods.setdefault(n, []).append(f)

    # ------------------------------------------------------------ scopes
    def local_names(self, f):
        got = self._locals.get(f)
        if got is None:
            got = set(f.params)
            for n in walk_own(f.node):
                if isinstance(n, ast.Name) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    got.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    got.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    got.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        got.add(a.asname or a.name.split('.')[0])
            for n in walk_own(f.node):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    got -= set(n.names)
            self._locals[f] = got
        return got

    def assigns(self, f):
        """name -> list of value expressions assigned in f (None: unknown)"""
        got = self._assigns.get(f)
        if got is not None:
            return got
        got = {}

        def put(t, v):
            if isinstance(t, ast.Name):
                got.setdefault(t.id, []).append(v)
            elif isinstance(t, (ast.Tuple, ast.List)):
                vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and \
                    len(v.elts) == len(t.elts) else [None] * len(t.elts)
                for a, b in zip(t.elts, vs):
                    put(a, b)
            elif isinstance(t, ast.Starred):
                put(t.value, None)
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    put(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                put(n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                put(n.target, None)
            elif isinstance(n, (ast.For, ast.comprehension)):
                put(n.target, None)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                put(n.optional_vars, None)
            elif isinstance(n, ast.NamedExpr):
                put(n.target, n.value)
        self._assigns[f] = got
        return got

    def scope_of(self, f, name):
        """the function that binds `name` as seen from f, or None (module)"""
        g = f
        while g is not None:
            if name in self.local_names(g):
                return g
            g = g.parent
        return None

    def entity(self, f, node):
        """Func/Cls/Module/Ext/Var named by an expression in f, else None"""
        if isinstance(node, ast.Name):
            g = self.scope_of(f, node.id)
            if g is None:
                return self.prog.resolve_name(f.module, node.id)
            loc = self._bound(g)
            if node.id in loc:
                return loc[node.id]
            vals = self.assigns(g).get(node.id, [])
            if len(vals) == 1 and node.id not in g.params and \
                    isinstance(vals[0], (ast.Name, ast.Attribute)):
                if not (isinstance(vals[0], ast.Name) and
                        vals[0].id == node.id):
                    return self.entity(g, vals[0])
            return None
        if isinstance(node, ast.Attribute):
            b = self.entity(f, node.value)
            if b is None:
                return None
            return self.prog.attr_of(b, node.attr)
        return None

    def _bound(self, g):
        """names bound in g by an import or a nested function"""
        got = self._local_ents.get(g)
        if got is not None:
            return got
        got = {}
        for n in walk_own(g.node):
            if isinstance(n, ast.Import):
                for a in n.names:
                    mod = a.name if a.asname else a.name.split('.')[0]
                    got[a.asname or a.name.split('.')[0]] = \
                        self.prog.modules.get(mod) or Ext(mod)
            elif isinstance(n, ast.ImportFrom):
                base = self.prog._abs_from(g.module, n)
                for a in n.names:
                    got[a.asname or a.name] = \
                        self.prog.module_attr(base, a.name) or \
                        Ext(base + '.' + a.name)
            elif isinstance(n, ast.FunctionDef):
                got[n.name] = self.prog.func_of_node.get(n)
        self._local_ents[g] = got
        return got

    def owner(self, f):
        """class whose method (or nested function of a method) f is"""
        return f.cls

    def self_name(self, f):
        g = f
        while g.parent is not None:
            g = g.parent
        return g.method_self if f.cls is not None else None

    # ----------------------------------------------------------- resolve
    def targets(self, f, call):
        key = (f, call)
        got = self._targets.get(key)
        if got is None:
            got = self._targets[key] = self._resolve(f, call)
        return got

    def _resolve(self, f, call):
        fn = call.func
        ent = self.entity(f, fn)
        if isinstance(ent, Func):
            # Class.method(obj, ...) or module function
            return [Target(ent, False, True)]
        if isinstance(ent, Cls):
            return self._ctor(ent)
        if isinstance(ent, Ext):
            return []
        if isinstance(fn, ast.Name):
            g = self.scope_of(f, fn.id)
            if g is not None and fn.id in g.params:
                return self._from_param(g, fn.id)
            return []
        if not isinstance(fn, ast.Attribute):
            return []
        me = self.self_name(f)
        if isinstance(fn.value, ast.Call) and isinstance(
                fn.value.func, ast.Name) and fn.value.func.id == 'super' \
                and f.cls is not None:
            out = []
            for c in [f.cls] + f.cls.all_subs():
                g = c.super_lookup(f.cls, fn.attr)
                if g is not None and g not in [t.func for t in out]:
                    out.append(Target(g, True, True))
            return out
        if isinstance(fn.value, ast.Name) and fn.value.id == me and \
                f.cls is not None and self.scope_of(f, me) is not None:
            out = []
            for c in [f.cls] + f.cls.all_subs():
                g = c.lookup(fn.attr)
                if g is not None and g not in [t.func for t in out]:
                    out.append(Target(g, not g.is_static, True))
            if out:
                return out
        held = self._held(f, fn)
        if held:
            return held
        b = self.entity(f, fn.value)
        if isinstance(b, (Module, Ext)) or fn.attr.startswith('__'):
            return []
        return [Target(g, not g.is_static, False)
                for g in self.methods.get(fn.attr, ())]

    def _held(self, f, fn):
        """classes / functions kept in an attribute of the own object"""
        if f.cls is None or not isinstance(fn.value, ast.Name) or \
                fn.value.id != self.self_name(f):
            return []
        out = []
        for c in f.cls.mro():
            for m in c.methods.values():
                for n in walk_own(m.node):
                    if isinstance(n, ast.Assign) and any(
                            isinstance(t, ast.Attribute) and
                            t.attr == fn.attr and
                            isinstance(t.value, ast.Name) and
                            t.value.id == m.method_self
                            for t in n.targets):
                        for v in self._alternatives(m, n.value):
                            e = self.entity(m, v)
                            if isinstance(e, Cls):
                                out += self._ctor(e)
                            elif isinstance(e, Func):
                                out.append(Target(e, False, True))
        return out

    def _alternatives(self, m, v):
        if isinstance(v, ast.IfExp):
            return self._alternatives(m, v.body) + \
                self._alternatives(m, v.orelse)
        if isinstance(v, ast.Subscript) or (
                isinstance(v, ast.Call) and isinstance(
                    v.func, ast.Attribute) and v.func.attr == 'get'):
            base = v.value if isinstance(v, ast.Subscript) else v.func.value
            table = None
            if isinstance(base, ast.Attribute) and m.cls is not None:
                b = self.entity(m, base.value)
                owner = b if isinstance(b, Cls) else m.cls
                table = owner.lookup_attr(base.attr)
            elif isinstance(base, ast.Name):
                e = self.entity(m, base)
                table = e.value if isinstance(e, Var) else None
                got = self.assigns(m).get(base.id, [])
                if table is None and len(got) == 1:
                    table = got[0]
            if isinstance(table, ast.Dict):
                return list(table.values)
            return []
        return [v]

    def _ctor(self, cls):
        g = cls.lookup('__init__')
        return [Target(g, True, True, cls)] if g is not None else []

    def _from_param(self, g, name, _seen=None):
        """functions / classes passed for parameter `name` of g"""
        _seen = _seen or set()
        if (g, name) in _seen:
            return []
        _seen.add((g, name))
        out = []
        for caller, call, t in self.callers(g):
            a = self.argument(t, call, name)
            if a is STAR or a is MISSING or a is None:
                continue
            e = self.entity(caller, a)
            if isinstance(e, Cls):
                out += [x for x in self._ctor(e)]
            elif isinstance(e, Func):
                out.append(Target(e, False, True))
        return out

    def callers(self, g):
        if self._callers is None:
            self._callers = {}
            for f in self.prog.funcs:
                for n in walk_own(f.node):
                    if isinstance(n, ast.Call):
                        fn = n.func
                        if isinstance(fn, ast.Name):
                            s = self.scope_of(f, fn.id)
                            if s is not None and fn.id in s.params:
                                continue
                        for t in self.targets(f, n):
                            self._callers.setdefault(t.func, []).append(
                                (f, n, t))
        return self._callers.get(g, [])

    # ---------------------------------------------------------- argument
    def argument(self, target, call, param):
        """expression bound to `param`, MISSING, or STAR"""
        f = target.func
        for k in call.keywords:
            if k.arg == param:
                return k.value
        star = any(isinstance(a, ast.Starred) for a in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        if param in f.pos:
            i = f.pos.index(param)
            if target.bound and f.cls is not None and f.parent is None:
                i -= 1
            if i < 0:
                return STAR
            for j, a in enumerate(call.args[:i + 1]):
                if isinstance(a, ast.Starred):
                    return STAR
                if j == i:
                    return a
        return STAR if (dstar or star) else MISSING

    def value(self, target, call, param):
        """expression the callee sees for `param` (default if not given);
        STAR when it cannot be told"""
        a = self.argument(target, call, param)
        if a is MISSING:
            return target.func.defaults.get(param, STAR)
        return a

    def binding(self, target, call):
        """param -> expression for everything given explicitly"""
        out = {}
        f = target.func
        pos = list(f.pos)
        if target.bound and f.cls is not None and f.parent is None:
            pos = pos[1:]
        for i, a in enumerate(call.args):
            if isinstance(a, ast.Starred):
                break
            if i < len(pos):
                out[pos[i]] = a
            elif f.vararg:
                out.setdefault(f.vararg, a)
        for k in call.keywords:
            if k.arg is not None:
                out[k.arg if k.arg in f.params else (f.kwarg or k.arg)] = \
                    k.value
        return out


def parents(fnode):
    """child -> parent inside one function (nested functions included)"""
    out = {}
    for n in ast.walk(fnode):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def is_none(node):
    return isinstance(node, ast.Constant) and node.value is None


def none_tests(test):
    """dotted names a test says are None when true / when false:
    (set if true, set if false)"""
    t, f = set(), set()
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
            is_none(test.comparators[0]):
        d = dotted(test.left)
        if d:
            if isinstance(test.ops[0], (ast.Is, ast.Eq)):
                t.add(d)
            elif isinstance(test.ops[0], (ast.IsNot, ast.NotEq)):
                f.add(d)
    elif isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        a, b = none_tests(test.operand)
        t, f = b, a
    elif isinstance(test, ast.BoolOp):
        parts = [none_tests(v) for v in test.values]
        if isinstance(test.op, ast.And):
            for a, _ in parts:
                t |= a
        else:
            for _, b in parts:
                f |= b
    return t, f


def terminates(body):
    """does a statement list never end normally (syntactic)"""
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return bool(s.orelse) and terminates(s.body) and terminates(s.orelse)
    if isinstance(s, ast.With):
        return terminates(s.body)
    if isinstance(s, ast.Try):
        if terminates(s.finalbody):
            return True
        return terminates(s.body) and all(terminates(h.body)
                                          for h in s.handlers)
    return False


def guards(par, node, stop):
    """list of (test, polarity) that hold where `node` is executed: enclosing
    ifs / conditional expressions / short circuits and earlier ifs of the
    enclosing blocks that leave."""
    out = []
    cur = node
    while cur is not stop and cur in par:
        p = par[cur]
        if isinstance(p, ast.If):
            if cur in p.body:
                out.append((p.test, True))
            elif cur in p.orelse:
                out.append((p.test, False))
        elif isinstance(p, ast.While) and cur in p.body:
            out.append((p.test, True))
        elif isinstance(p, ast.IfExp):
            if cur is p.body:
                out.append((p.test, True))
            elif cur is p.orelse:
                out.append((p.test, False))
        elif isinstance(p, ast.BoolOp) and cur in p.values:
            for v in p.values[:p.values.index(cur)]:
                out.append((v, isinstance(p.op, ast.And)))
        elif isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) \
                and cur is p.elt:
            for g in p.generators:
                for t in g.ifs:
                    out.append((t, True))
        for fld in ('body', 'orelse', 'finalbody'):
            lst = getattr(p, fld, None)
            if isinstance(lst, list) and cur in lst:
                for s in lst[:lst.index(cur)]:
                    if isinstance(s, ast.If):
                        a, b = terminates(s.body), terminates(s.orelse)
                        if a and not b:
                            out.append((s.test, False))
                        elif b and not a:
                            out.append((s.test, True))
        cur = p
    return out


def split_guards(gs):
    """break conjunctions (true) and disjunctions (false) up"""
    out = []
    todo = list(gs)
    while todo:
        t, pol = todo.pop()
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            todo.append((t.operand, not pol))
        elif isinstance(t, ast.BoolOp) and \
                isinstance(t.op, ast.And) == pol:
            todo += [(v, pol) for v in t.values]
        else:
            out.append((t, pol))
    return out
