"""C11 optional packages are only touched after a check that they are there"""
import ast
import sys
from ..flow import Flow
from ..model import AnalysisError, Func, Cls, Ext, walk_own, dotted

EXPLANATION = """
The optional packages are the modules kept as DeferredModuleImport and the
packages that the dependency table does not list as required.  (imports) No
statement executed while nimble is imported imports an optional or undeclared
package or touches a deferred one.  (use) Every place that reads an attribute
of a deferred module is followed backwards: within the function it must be
dominated by a successful nimbleAccessible() call for that module (guards that
raise or return, conditions, comprehension filters, local flags, predicates
that are only true with the module, instances of classes whose constructor
checks it); what is not established there is demanded of every caller, up to
the functions nobody in nimble calls and the public ones, where nothing may be
left.  (missing) The failing branch of a guard that stops raises
PackageException.  (interfaces) Functions that import a package for an
interface may fail only inside the construction of the interface, and every
construction of a predefined interface expects the failure."""

ASSUMPTIONS = [
    'once nimbleAccessible() succeeded for a module it stays usable (the '
    'module is kept), so an object whose constructor checked the module proves '
    'the check; objects restored by pickle come through nimble.data or '
    'loadTrainedLearner, which check the same modules first',
]

# what is true of a value that passed this test
TYPES = {'Sparse': 'scipy', 'SparseView': 'scipy', 'DataFrame': 'pandas',
         'DataFrameView': 'pandas'}
OWN = {'nimbleAccessible', 'imported', 'name', 'validated'}
CATCH = {'ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException'}


class Facts:
    """walks one function; `need(pkg, node)` for each use not established"""

    def __init__(self, rule, f, start, light=False, stack=(), local=None,
                 owner=None):
        self.rule, self.f = rule, f
        self.light = light
        self.flags = {}
        self.later = 0
        self.inside = 0     # try statements that expect ImportError
        self.needs = []     # (package, node, in a nested function)
        self.edges = []     # (function, node, facts, in a nested function)
        self.exits = None
        self.true_exits = None
        self.params = {}    # parameter called -> facts
        self.outer = {}     # the same of the enclosing function
        self.local = dict(local or {})  # name -> function defined here
        self.stack = stack
        self.owner = owner
        for name, vals in rule.flow.assigns(f).items():
            if len(vals) == 1 and vals[0] is not None:
                t = self.when(vals[0], True)
                if t:
                    self.flags[name] = (t, self.when(vals[0], False))
        body = f.node.body
        if isinstance(body, list):
            out = self.block(body, start)
            self.leave(out)
        else:
            self.leave(self.expr(body, start))

    def leave(self, facts):
        if facts is None:
            return
        self.exits = facts if self.exits is None else self.exits & facts

    # ---- what a condition proves
    def when(self, t, truth):
        rule = self.rule
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.when(t.operand, not truth)
        if isinstance(t, ast.BoolOp):
            every = isinstance(t.op, ast.And) is truth
            parts = [self.when(x, truth) for x in t.values]
            if every:
                return frozenset().union(*parts)
            out = parts[0]
            for p in parts[1:]:
                out = out & p
            return out
        if isinstance(t, ast.Name) and t.id in self.flags:
            return self.flags[t.id][0 if truth else 1]
        if isinstance(t, ast.Call):
            p = rule.check_of(self.f, t)
            if p is not None:
                return frozenset([p]) if truth else frozenset()
            if isinstance(t.func, ast.Name) and t.func.id == 'isinstance' \
                    and len(t.args) == 2 and truth:
                es = t.args[1].elts if isinstance(t.args[1], ast.Tuple) \
                    else [t.args[1]]
                got = None
                for x in es:
                    c = rule.flow.entity(self.f, x)
                    s = rule.class_facts(c) if isinstance(c, Cls) \
                        else frozenset()
                    got = s if got is None else got & s
                return got or frozenset()
            if truth:
                for g in rule.exact(self.f, t):
                    return rule.true_means(g)
            return frozenset()
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and truth and \
                isinstance(t.ops[0], ast.Eq) and isinstance(
                    t.comparators[0], ast.Constant):
            l = t.left
            if isinstance(l, ast.Call) and isinstance(
                    l.func, ast.Attribute) and l.func.attr in (
                        'getTypeString', '_getTypeString_implementation'):
                p = TYPES.get(t.comparators[0].value)
                return frozenset([p]) if p else frozenset()
        if isinstance(t, ast.NamedExpr):
            return self.when(t.value, truth)
        return frozenset()

    # ---- expressions
    def expr(self, e, facts):
        if e is None:
            return facts
        rule = self.rule
        if isinstance(e, ast.BoolOp):
            truth = isinstance(e.op, ast.And)
            known = facts
            first = True
            for v in e.values:
                out = self.expr(v, known)
                if first:
                    facts, first = out, False
                known = out | self.when(v, truth)
            return facts
        if isinstance(e, ast.IfExp):
            out = self.expr(e.test, facts)
            a = self.expr(e.body, out | self.when(e.test, True))
            b = self.expr(e.orelse, out | self.when(e.test, False))
            return a & b
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            inner = facts
            for g in e.generators:
                inner = self.expr(g.iter, inner)
                for c in g.ifs:
                    inner = self.expr(c, inner) | self.when(c, True)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp)
                      else [e.elt]):
                self.expr(x, inner)
            return facts
        if isinstance(e, ast.Lambda):
            self.later += 1
            self.expr(e.body, facts)
            self.later -= 1
            return facts
        if isinstance(e, ast.Attribute):
            p = rule.deferred(self.f, e.value)
            if p is not None:
                if e.attr not in OWN and p not in facts:
                    self.needs.append((p, e, self.later > 0))
                return facts
            return self.expr(e.value, facts)
        if isinstance(e, ast.Call):
            facts = self.expr(e.func, facts)
            for a in e.args:
                facts = self.expr(a, facts)
            for k in e.keywords:
                facts = self.expr(k.value, facts)
            return self.call(e, facts)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                facts = self.expr(c, facts)
            elif isinstance(c, (ast.keyword, ast.FormattedValue)):
                facts = self.expr(c.value, facts)
        return facts

    def call(self, e, facts):
        rule = self.rule
        if isinstance(e.func, ast.Name):
            name = e.func.id
            if name in self.f.params:
                self.called(name, facts)
            elif self.owner is not None:
                self.outer[name] = facts if name not in self.outer else \
                    self.outer[name] & facts
            sub = self.local.get(name)
            if sub is not None and sub[1] not in self.stack:
                self.inner(sub[1], facts, self.later > 0)
                return facts
        if not self.light:
            for t in rule.flow.targets(self.f, e):
                self.edges.append((t.func, e, facts, self.later > 0,
                                   self.inside))
        gs = rule.exact(self.f, e)
        if len(gs) == 1:
            facts = facts | rule.establishes(gs[0])
        return facts

    def called(self, name, facts):
        self.params[name] = facts if name not in self.params else \
            self.params[name] & facts

    def inner(self, g, facts, later):
        sub = Facts.__new__(Facts)
        sub.local = dict(self.local)
        Facts.__init__(sub, self.rule, g, facts, self.light,
                       self.stack + (g,), self.local, self.f)
        self.needs += [(p, n, later or l) for p, n, l in sub.needs]
        self.edges += [(h, n, x, later or l, i + self.inside)
                       for h, n, x, l, i in sub.edges]
        for k, v in sub.outer.items():
            self.called(k, v)

    # ---- statements: facts, or None when control does not go on
    def block(self, body, facts):
        for s in body:
            if facts is None:
                return None
            facts = self.stmt(s, facts)
        return facts

    def implied(self, t):
        """if a and not available: stop   ->   a implies available"""
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            names = [v.id for v in t.values if isinstance(v, ast.Name)]
            rest = [v for v in t.values if not isinstance(v, ast.Name)]
            if len(names) == 1 and len(rest) == 1:
                return frozenset(('if', names[0], p)
                                 for p in self.when(rest[0], False))
        return frozenset()

    @staticmethod
    def meet(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a & b

    def stmt(self, s, facts):
        if isinstance(s, ast.If):
            out = self.expr(s.test, facts)
            a = self.block(s.body, out | self.when(s.test, True))
            b = self.block(s.orelse, out | self.when(s.test, False))
            if a is None and b is not None:
                b = b | self.implied(s.test)
            return self.meet(a, b)
        if isinstance(s, ast.While):
            out = self.expr(s.test, facts)
            self.block(s.body, out | self.when(s.test, True))
            self.block(s.orelse, out)
            return out
        if isinstance(s, (ast.For, ast.AsyncFor)):
            out = self.expr(s.iter, facts)
            self.block(s.body, out)
            self.block(s.orelse, out)
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                facts = self.expr(i.context_expr, facts)
            return self.block(s.body, facts)
        if isinstance(s, ast.Try):
            expects = any(self.catches(h) for h in s.handlers)
            self.inside += expects
            out = self.block(s.body, facts)
            self.inside -= expects
            if out is not None:
                out = self.block(s.orelse, out)
            for h in s.handlers:
                out = self.meet(out, self.block(h.body, facts))
            if s.finalbody:
                fin = self.block(s.finalbody, facts)
                if fin is None:
                    return None
                if out is not None:
                    out = out | fin
            return out
        if isinstance(s, ast.Return):
            out = self.expr(s.value, facts)
            self.leave(out)
            v = s.value
            if v is not None and not (isinstance(v, ast.Constant) and
                                      not v.value):
                t = out | self.when(v, True)
                if isinstance(v, ast.Name):
                    t |= {x[2] for x in out if isinstance(x, tuple)
                          and x[1] == v.id}
                self.true_exits = t if self.true_exits is None else \
                    self.true_exits & t
            return None
        if isinstance(s, ast.Raise):
            self.expr(s.exc, facts)
            return None
        if isinstance(s, (ast.Continue, ast.Break)):
            return None
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [
                    x for x in s.args.kw_defaults if x is not None]:
                facts = self.expr(d, facts)
            g = self.rule.prog.func_of_node.get(s)
            if g is not None:
                self.local[s.name] = (s, g)
                if self.escapes(s):
                    self.inner(g, facts, True)
            return facts
        if isinstance(s, ast.ClassDef):
            return facts
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for p in self.rule.imported(s):
                if not self.inside:
                    self.needs.append(('import ' + p, s, self.later > 0))
            return facts
        if isinstance(s, ast.Assert):
            return self.expr(s.test, facts) | self.when(s.test, True)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                facts = self.expr(c, facts)
        return facts

    def escapes(self, s):
        """is a local function used other than by calling it"""
        calls = {id(n.func) for n in ast.walk(self.f.node)
                 if isinstance(n, ast.Call)}
        return bool(s.decorator_list) or any(
            isinstance(n, ast.Name) and n.id == s.name and
            isinstance(n.ctx, ast.Load) and id(n) not in calls
            for n in ast.walk(self.f.node))

    def catches(self, h):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return any((dotted(t) or '').split('.')[-1] in CATCH for t in ts)


class C11:
    def __init__(self, rep):
        self.rep, self.prog, self.nim = rep, rep.prog, rep.nim
        self.flow = Flow(rep.prog)
        self.modules = {}       # module -> package
        self._est, self._true, self._cls = {}, {}, {}
        self.find_modules()
        self.find_packages()

    def find_modules(self):
        m = self.prog.modules['nimble._utility']
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and isinstance(
                    n.value, ast.Call) and (dotted(n.value.func) or ''
                                            ).endswith(
                        'DeferredModuleImport') and n.value.args and \
                    isinstance(n.value.args[0], ast.Constant):
                name = n.value.args[0].value
                self.modules[name] = name.split('.')[0]
        if len(self.modules) < 8:
            raise AnalysisError('expected the deferred modules, found %s'
                                % self.modules)
        self.rep.count('deferred_modules', len(self.modules))

    def find_packages(self):
        m = self.prog.modules['nimble._dependencies']
        self.required, self.optional = {'tomli'}, set(self.modules.values())
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id == 'Dependency' and len(n.args) >= 2:
                (self.required if n.args[1].value == 'required'
                 else self.optional).add(n.args[0].value)
        if not {'numpy'} <= self.required or 'sklearn' not in self.optional:
            raise AnalysisError('cannot read the dependency table')
        self.rep.count('optional_packages', len(self.optional))

    # ---- entities
    def deferred(self, f, e):
        if not isinstance(e, (ast.Name, ast.Attribute)):
            return None
        v = self.flow.entity(f, e) if f is not None else None
        return self.modules.get(v.name) if isinstance(v, Ext) else None

    def check_of(self, f, call):
        fn = call.func
        if isinstance(fn, ast.Attribute) and fn.attr == 'nimbleAccessible':
            return self.deferred(f, fn.value)
        return None

    def imported(self, s):
        names = [a.name for a in s.names] if isinstance(s, ast.Import) else \
            [s.module or ''] if not s.level else []
        out = []
        for n in names:
            top = n.split('.')[0]
            if top in ('nimble', '__future__') or \
                    top in sys.stdlib_module_names or top in self.required:
                continue
            out.append(top)
        return out

    def exact(self, f, call):
        ts = self.flow.targets(f, call)
        if ts and all(t.exact for t in ts):
            gs = []
            for t in ts:
                if t.func not in gs:
                    gs.append(t.func)
            return gs
        return []

    # ---- summaries
    def class_facts(self, c):
        got = self._cls.get(c)
        if got is None:
            self._cls[c] = frozenset()
            got = frozenset()
            for k in c.mro():
                g = k.methods.get('__init__')
                if g is not None:
                    got = got | self.establishes(g)
            if c in self.nim.data_of:
                inner = None
                for d in self.nim.data_of[c]:
                    x = self.class_facts(d)
                    inner = x if inner is None else inner & x
                got = got | (inner or frozenset())
            elif self.nim.is_axis(c):
                inner = None
                for k in self.nim.axis_concrete:
                    if k.issub(c):
                        x = self.class_facts(k)
                        inner = x if inner is None else inner & x
                got = got | (inner or frozenset())
            elif c.issub(self.nim.stretch):
                nm = c.name.replace('Stretch', '')
                d = self.nim.names.get(nm)
                if d is not None and d in self.nim.concrete:
                    got = got | self.class_facts(d)
            self._cls[c] = got
        return got

    def start(self, f):
        p = f
        while p.cls is None and p.parent is not None:
            p = p.parent
        out = frozenset()
        if p.cls is not None and p.short.split('.')[-1] != '__init__' and \
                not p.is_static and not p.is_classmethod:
            out = self.class_facts(p.cls)
        for d in self.decorators(p):
            w = Facts(self, d, out, light=True)
            first = d.params[0] if d.params else None
            out = out | w.params.get(first, frozenset())
        return out

    def solve(self):
        """demands of each function: {package: chain of places}, all and
        those of the call itself (not of functions defined in it)"""
        walks = {}
        for f in self.prog.funcs:
            if f.parent is None or not isinstance(f.node.body, list):
                walks[f] = Facts(self, f, self.start(f))
                for d in self.decorators(f):
                    walks[f].edges.append((d, f.node, frozenset(), False, 0))
        self._now, self._needs = {}, {}
        for table, later in ((self._needs, True), (self._now, False)):
            into = {}
            for f, w in walks.items():
                table[f] = {}
                for p, node, lt in w.needs:
                    if (later or not lt) and p not in table[f]:
                        table[f][p] = [(f, node)]
                for g, node, facts, lt, inside in w.edges:
                    if later or not lt:
                        into.setdefault(g, []).append(
                            (f, node, facts, inside))
            work = [f for f in table if table[f]]
            while work:
                g = work.pop()
                for f, node, facts, inside in into.get(g, ()):
                    if f is g:
                        continue
                    for p, chain in table[g].items():
                        if p in facts or p in table[f] or (
                                inside and p.startswith('import ')):
                            continue
                        table[f][p] = [(f, node)] + chain
                        work.append(f)

    def needs(self, f, now=False):
        return (self._now if now else self._needs).get(f, {})

    def establishes(self, f):
        got = self._est.get(f)
        if got is None:
            self._est[f] = frozenset()
            w = Facts(self, f, frozenset(), light=True)
            got = frozenset(x for x in w.exits or () if isinstance(x, str))
            self._est[f] = got
        return got

    def true_means(self, g):
        got = self._true.get(g)
        if got is None:
            self._true[g] = frozenset()
            w = Facts(self, g, frozenset(), light=True)
            got = frozenset(x for x in w.true_exits or ()
                            if isinstance(x, str))
            self._true[g] = got
        return got

    def decorators(self, f):
        """functions that wrap f, the outermost first"""
        out = []
        for d in getattr(f.node, 'decorator_list', ()):
            e = self.flow.entity(f.parent, d) if f.parent else \
                self.prog.resolve_expr(f.module, d)
            if isinstance(e, Func):
                out.append(e)
        return out

    # ------------------------------------------------------------- run
    def run(self):
        self.solve()
        self.top_level()
        self.entries()
        self.guards()
        self.interfaces()

    def executed(self, body):
        """statements executed while the module is imported"""
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield from s.decorator_list
                yield from s.args.defaults
                yield from [d for d in s.args.kw_defaults if d is not None]
                continue
            if isinstance(s, ast.ClassDef):
                yield from s.decorator_list
                yield from self.executed(s.body)
                continue
            subs = [getattr(s, a) for a in ('body', 'orelse', 'finalbody')
                    if isinstance(getattr(s, a, None), list)]
            if isinstance(s, ast.Try) and any(
                    Facts.catches(None, h) for h in s.handlers):
                for h in s.handlers:
                    yield from self.executed(h.body)
                yield from self.executed(s.orelse + s.finalbody)
                continue
            if subs:
                for b in subs:
                    yield from self.executed(b)
                for a in ('test', 'iter'):
                    if getattr(s, a, None) is not None:
                        yield getattr(s, a)
                continue
            yield s

    def top_level(self):
        for m in sorted(self.prog.modules.values(), key=lambda m: m.name):
            for s in self.executed(m.tree.body):
                self.rep.count('import_time_statements')
                loc = '%s:%d' % (m.rel, s.lineno)
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    for p in self.imported(s):
                        self.rep.add(
                            'import', '%s|%s' % (m.name, p),
                            'importing nimble imports %s, which is not a '
                            'required package' % p, loc)
                    continue
                for n in ast.walk(s):
                    if isinstance(n, ast.Lambda):
                        continue
                    if isinstance(n, ast.Attribute) and n.attr not in OWN:
                        v = self.prog.resolve_expr(m, n.value)
                        p = self.modules.get(v.name) if isinstance(v, Ext) \
                            else None
                        if p:
                            self.rep.add(
                                'import', '%s|%s' % (m.name, p),
                                '%s is used while nimble is imported' % p,
                                loc)
                    if isinstance(n, ast.Call):
                        f = self.prog.resolve_expr(m, n.func)
                        if isinstance(f, Func):
                            for p, chain in self.needs(f, True).items():
                                self.rep.add(
                                    'import', '%s|%s' % (m.name, p),
                                    'importing nimble calls %s, which needs '
                                    '%s' % (f.short, p), loc)

    def public_entry(self, f):
        """callable from outside nimble"""
        if f.parent is not None:
            return False
        name = f.short.split('.')[-1]
        if f.cls is not None:
            if name.startswith('_') and not (
                    name.startswith('__') and name.endswith('__')):
                return False
            mod = f.module.name.split('.')
            if any(x.startswith('_') and x != '__init__' for x in mod):
                return False
            return True
        return f in self.nim.public_funcs or (
            f.public and any(f.module.name.startswith('nimble.' + p)
                             for p in ('calculate', 'random', 'match',
                                       'fill', 'learners')))

    def entries(self):
        seen = set()
        for f in sorted(self.prog.funcs, key=lambda f: f.qual):
            self.rep.count('functions_walked')
            needs = self.needs(f)
            if not needs or f.parent is not None:
                continue
            name = f.short.split('.')[-1]
            called = list(self.flow.callers(f))
            if called and not self.public_entry(f):
                self.rep.count('demands_passed_to_callers')
                continue
            if f in self.constructors():
                continue
            for p, chain in sorted(needs.items()):
                user, node = chain[-1]
                key = '%s|%s' % (user.qual, p)
                if key in seen:
                    continue
                seen.add(key)
                what = 'imports %s' % p[7:] if p.startswith('import ') \
                    else 'uses %s' % p
                self.rep.add(
                    'use', key, '%s %s here without a check that it is '
                    'available: reached from %s' % (user.short, what,
                                                    f.short),
                    user.loc(node), [g.loc(n) for g, n in chain[:-1]])

    # ---- guards end in a package error
    def guards(self):
        for f in self.prog.funcs:
            for n in walk_own(f.node):
                if isinstance(n, ast.Call):
                    p = self.check_of(f, n)
                    if p is not None:
                        self.rep.count('availability_checks')
                if isinstance(n, ast.Attribute) and n.attr not in OWN and \
                        self.deferred(f, n.value):
                    self.rep.count('uses_of_optional_packages')
                if not isinstance(n, ast.If):
                    continue
                t = n.test
                if isinstance(t, ast.UnaryOp) and isinstance(
                        t.op, ast.Not) and isinstance(
                            t.operand, ast.Call) and \
                        self.check_of(f, t.operand):
                    for r in n.body:
                        if isinstance(r, ast.Raise):
                            e = r.exc.func if isinstance(
                                r.exc, ast.Call) else r.exc
                            d = (dotted(e) or '').split('.')[-1]
                            self.rep.count('guards_that_raise')
                            if d != 'PackageException':
                                self.rep.add(
                                    'error', '%s|%s' % (f.qual, d),
                                    'a missing package is reported as %s'
                                    % d, f.loc(r))

    # ---- interfaces
    def constructors(self):
        got = getattr(self, '_ctors', None)
        if got is None:
            got = set()
            mix = [c for c in self.prog.classes
                   if c.name == 'PredefinedInterfaceMixin']
            for c in mix[0].all_subs() if mix else ():
                g = c.lookup('__init__')
                while g is not None and g not in got:
                    got.add(g)
                    g = c.super_lookup(g.cls, '__init__')
            self._ctors = got
            if not got:
                raise AnalysisError('no predefined interfaces found')
        return got

    def importers(self):
        """functions that import a package given by name"""
        out = set()
        for f in self.prog.funcs:
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and (
                        dotted(n.func) or '').endswith('import_module'):
                    out.add(f)
        return out

    def interfaces(self):
        names = {c.name for c in self.prog.classes
                 if c.name != 'PredefinedInterfaceMixin' and any(
                     k.name == 'PredefinedInterfaceMixin' for k in c.mro())}
        helper = [f for f in self.prog.funcs
                  if f.short.endswith('modifyImportPathAndImport')]
        if not helper:
            raise AnalysisError('modifyImportPathAndImport not found')
        # every construction expects the failure
        for f in self.prog.funcs:
            par = None
            loops = {}
            for n in walk_own(f.node):
                if isinstance(n, (ast.For, ast.comprehension)) and isinstance(
                        n.target, ast.Name) and (
                            dotted(n.iter) or '').endswith(
                                'interfaces.predefined'):
                    loops[n.target.id] = n
            for n in walk_own(f.node):
                if not isinstance(n, ast.Call):
                    continue
                made = isinstance(n.func, ast.Name) and n.func.id in loops
                ent = self.flow.entity(f, n.func)
                if isinstance(ent, Cls) and ent.name in names:
                    made = True
                helped = helper[0] in [t.func for t in
                                       self.flow.targets(f, n)]
                if not made and not helped:
                    continue
                self.rep.count('interface_constructions' if made
                               else 'interface_imports')
                if helped and f in self.constructors():
                    continue
                if not self.expected(f, n):
                    self.rep.add(
                        'interface', f.qual, 'the import of the package of '
                        'an interface can fail here and nothing expects it',
                        f.loc(n))

    def expected(self, f, node):
        def rec(body, caught):
            for s in body:
                if not any(x is node for x in ast.walk(s)):
                    continue
                if isinstance(s, ast.Try):
                    inner = caught or any(Facts.catches(None, h)
                                          for h in s.handlers)
                    for b, c in [(s.body, inner), (s.orelse, caught),
                                 (s.finalbody, caught)] + [
                                     (h.body, caught) for h in s.handlers]:
                        r = rec(b, c)
                        if r is not None:
                            return r
                for a in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, a, None)
                    if isinstance(b, list) and not isinstance(s, ast.Try):
                        r = rec(b, caught)
                        if r is not None:
                            return r
                return caught
            return None
        return bool(rec(f.node.body, False))


def run(rep):
    rule = C11(rep)
    rule.run()
    rep.floor('deferred_modules', 9)
    rep.floor('functions_walked', 1200)
    rep.floor('import_time_statements', 1500)
    rep.floor('uses_of_optional_packages', 60)
    rep.floor('availability_checks', 40)
    rep.floor('guards_that_raise', 15)
    rep.floor('interface_constructions', 3)
    rep.floor('interface_imports', 5)
