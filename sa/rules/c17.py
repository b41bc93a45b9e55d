"""C17 a detected problem is always reported"""
import ast
from ..flow import Flow, parents, terminates, guards, split_guards
from ..live import dead_stores
from ..model import Func, Cls, walk_own

EXPLANATION = """
Several whole-program queries, each of which follows a detected problem to its
report.  (1) Strong liveness: the text of an error that is put together in a
local name, an exception that is constructed, a collection that problems are
gathered in must be used later on (adding to it is not a use), on at least one
path.  (2) An interprocedural may-raise analysis of nimble's own exceptions:
each handler (or contextlib.suppress, or return/break in a finally block) that
stops one must raise, use the caught exception, or check again; trials whose
refusal is the answer are listed with the called function.  (3) A check whose
outcome is dropped: statements that only compute a predicate or an exception,
generator functions or lazy iterators that are never run.  (4) A check that
cannot fail: functions or methods tested instead of called, constant tests,
raise statements whose conditions contradict each other or that follow the end
of the block, loops over things to check that always end in the first pass,
private checking functions no one refers to."""

ASSUMPTIONS = [
    'calls whose target is not named directly are not followed into their '
    'raised exceptions',
]

# trials: the refusal of this function is an answer, not an error; by the
# module that asks
TRIALS = {
    # guessing the type of a learner by running it on made-up data
    ('trainAndApply', 'core._learnHelpers'),
    ('sumAbsoluteDifference', 'core._learnHelpers'),
    # the version problem is shown in the printed table
    ('checkVersion', 'core.configuration'),
    # a string that is no learner name is a path
    ('_unpackLearnerName', 'core.learn'),
    # a string that is no query is a value to look for
    ('__init__:QueryString', 'core.data.axis'),
    ('__init__:QueryString', 'core.data.base'),
    # the result cannot be stored directly: the general way is taken
    ('__init__:DataFrame', 'core.data.dataframe'),
    ('__init__:Matrix', 'core.data.matrix'),
    # is there a point or feature of this name
    ('_getIndex', 'core.data.axis'),
    # is scikit-learn there
    ('findBestInterface', 'learners.knn_imputation'),
}


# exceptions of the language that nimble raises itself
BUILTIN = {'KeyError': {'LookupError'}, 'IndexError': {'LookupError'},
           'ValueError': set(), 'TypeError': set(),
           'ZeroDivisionError': {'ArithmeticError'}, 'RuntimeError': set()}
PURE = {'isinstance', 'len', 'all', 'any', 'bool', 'hasattr', 'str', 'set',
        'issubclass', 'callable', 'min', 'max', 'sum', 'range', 'zip',
        'type', 'tuple', 'list', 'sorted', 'abs', 'int', 'float'}


def is_text(e):
    """a string with several words in it"""
    for n in ast.walk(e):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and \
                len(n.value.split()) >= 3:
            return True
    return False


def boolish(e):
    if isinstance(e, ast.Compare):
        return True
    if isinstance(e, ast.Constant):
        return isinstance(e.value, bool)
    if isinstance(e, ast.BoolOp):
        return all(boolish(v) for v in e.values)
    if isinstance(e, ast.UnaryOp):
        return isinstance(e.op, ast.Not)
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id in (
            'isinstance', 'any', 'all', 'hasattr', 'issubclass', 'callable',
            'bool')
    return False


class Reported:
    def __init__(self, rep):
        self.rep, self.p = rep, rep.prog
        self.flow = Flow(rep.prog)
        base = [c for c in self.p.classes if c.name == 'NimbleException']
        self.exc = {}
        for c in self.p.classes:
            if any(b in base for b in c.mro()):
                self.exc[c.name] = c
        self.exts = {}
        for c in self.exc.values():
            names = set()
            for b in c.mro():
                names.add(b.name)
                for e in b.node.bases:
                    names.add(e.attr if isinstance(e, ast.Attribute)
                              else getattr(e, 'id', ''))
            self.exts[c.name] = names | {'Exception', 'BaseException'}
        for n, more in BUILTIN.items():
            self.exc[n] = None
            self.exts[n] = {n, 'Exception', 'BaseException'} | more
        self._targets = {}

    # -------------------------------------------------------- exceptions
    def exc_named(self, e):
        n = e.attr if isinstance(e, ast.Attribute) else getattr(
            e, 'id', None)
        return n if n in self.exc else None

    def constructed(self, e):
        return self.exc_named(e.func) if isinstance(e, ast.Call) else None

    def catches(self, types, name):
        if types is None:
            return True
        ts = types.elts if isinstance(types, ast.Tuple) else [types]
        for t in ts:
            n = t.attr if isinstance(t, ast.Attribute) else getattr(
                t, 'id', None)
            if n in self.exts[name]:
                return True
        return False

    def suppressed(self, item):
        c = item.context_expr
        if isinstance(c, ast.Call):
            n = c.func.attr if isinstance(c.func, ast.Attribute) else \
                getattr(c.func, 'id', None)
            if n == 'suppress':
                return list(c.args)
        return None

    def items(self, f):
        """(kind, what, stack of handlers, node)"""
        out = []

        def rec(n, stack):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return
            if isinstance(n, ast.Try):
                inner = stack + [n]
                if any(isinstance(x, (ast.Return, ast.Break, ast.Continue))
                       for s in n.finalbody for x in ast.walk(s)):
                    inner = stack + [('finally', n), n]
                for s in n.body:
                    rec(s, inner)
                outer = inner[:-1]
                for h in n.handlers:
                    for s in h.body:
                        rec(s, outer)
                for s in n.orelse:
                    rec(s, outer)
                for s in n.finalbody:
                    rec(s, stack)
                return
            if isinstance(n, ast.With):
                st = stack
                for i in n.items:
                    rec(i.context_expr, st)
                    types = self.suppressed(i)
                    if types is not None:
                        st = st + [('suppress', n, types)]
                for s in n.body:
                    rec(s, st)
                return
            if isinstance(n, ast.Raise) and n.exc is not None:
                c = self.constructed(n.exc) or self.exc_named(n.exc)
                if c:
                    out.append(('r', c, stack, n))
            if isinstance(n, ast.Call):
                out.append(('c', n, stack, n))
            for ch in ast.iter_child_nodes(n):
                rec(ch, stack)
        body = f.node.body
        for s in body if isinstance(body, list) else [body]:
            rec(s, [])
        return out

    def targets(self, f, call):
        if self.constructed(call):
            return []
        k = id(call)
        if k not in self._targets:
            self._targets[k] = [t.func for t in self.flow.targets(f, call)
                                if t.exact]
        return self._targets[k]

    def stopped(self, c, stack):
        for t in reversed(stack):
            if isinstance(t, ast.Try):
                for h in t.handlers:
                    if self.catches(h.type, c):
                        return h
            elif t[0] == 'suppress':
                if any(self.catches(x, c) for x in t[2]):
                    return t
            elif t[0] == 'finally':
                return t
        return None

    def trial(self, g, mod):
        n = g.name
        if n == '__init__' and g.cls is not None:
            n = '__init__:' + g.cls.name
        return (n, mod) in self.trials

    def may_raise(self):
        # the tables name modules relative to the package
        self.trials = set(TRIALS)
        self.it = {f: self.items(f) for f in self.p.funcs}
        may = {f: set() for f in self.p.funcs}
        users = {}
        for f in self.p.funcs:
            for kind, x, stack, n in self.it[f]:
                if kind == 'c':
                    for g in self.targets(f, x):
                        users.setdefault(g, set()).add(f)
        todo = set(self.p.funcs)
        while todo:
            f = todo.pop()
            new = set()
            for kind, x, stack, n in self.it[f]:
                cs = {x} if kind == 'r' else set()
                if kind == 'c':
                    for g in self.targets(f, x):
                        cs |= may[g]
                for c in cs:
                    if c in new or c in may[f]:
                        continue
                    h = self.stopped(c, stack)
                    if h is None or isinstance(h, ast.ExceptHandler) and \
                            self.reraises(h):
                        new.add(c)
            if new - may[f]:
                may[f] |= new
                todo |= users.get(f, set())
        self.may = may

    def reraises(self, h):
        return any(isinstance(x, ast.Raise) and x.exc is None
                   for s in h.body for x in ast.walk(s))

    def module_of(self, f):
        n = f.module.name
        return n.split('.', 1)[1] if n.startswith('nimble.') else n

    def sources(self, f, x, mod, seen=None):
        """exceptions a call lets out, other than through a listed trial"""
        out = set()
        for g in self.targets(f, x):
            out |= self.outof(g, mod, seen or set())
        return out

    def outof(self, g, mod, seen):
        if self.trial(g, mod) or g in seen:
            return set()
        if not any(n.split(':')[-1] for n, m in self.trials if m == mod):
            return self.may[g]
        # only follow where the module has trials at all
        seen = seen | {g}
        out = set()
        for kind, x, stack, n in self.it[g]:
            cs = {x} if kind == 'r' else set()
            if kind == 'c':
                for k in self.targets(g, x):
                    if self.may[k]:
                        cs |= self.outof(k, mod, seen)
            for c in cs:
                if c in self.may[g]:
                    h = self.stopped(c, stack)
                    if h is None or isinstance(h, ast.ExceptHandler) and \
                            self.reraises(h):
                        out.add(c)
        return out

    def reports(self, f, h):
        """does a handler report, keep or check again what it caught"""
        for s in h.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Raise):
                    return True
                if h.name and isinstance(x, ast.Name) and x.id == h.name:
                    return True
                if isinstance(x, ast.Call):
                    for g in self.targets(f, x):
                        if any(k == 'r' for k, *_ in self.it[g]):
                            return True
                    n = x.func.attr if isinstance(x.func, ast.Attribute) \
                        else getattr(x.func, 'id', None)
                    if n in ('exc_info', 'format_exc', 'print_exc', 'warn'):
                        return True
        return False

    def handlers(self):
        rep = self.rep
        self.may_raise()
        rep.count('functions_that_may_raise',
                  sum(1 for s in self.may.values() if s))
        stops = {}
        for f in self.p.funcs:
            mod = self.module_of(f)
            for kind, x, stack, n in self.it[f]:
                if not stack:
                    continue
                cs = {x} if kind == 'r' else set()
                if kind == 'c':
                    for g in self.targets(f, x):
                        cs |= self.may[g]
                for c in cs:
                    h = self.stopped(c, stack)
                    if h is not None:
                        node = h if isinstance(h, ast.ExceptHandler) else \
                            h[1]
                        stops.setdefault((f, node), []).append(
                            (h, kind, x, n, mod))
        for (f, node), lst in stops.items():
            rep.count('handlers_of_own_exceptions')
            h = lst[0][0]
            if isinstance(h, ast.ExceptHandler) and self.reports(f, h):
                continue
            bad = None
            for h, kind, x, n, mod in lst:
                if kind == 'r':
                    if isinstance(h, ast.ExceptHandler):
                        continue    # raised here to leave for the handler
                    bad = n
                elif self.sources(f, x, mod):
                    bad = n
                if bad is not None:
                    break
            if bad is None:
                rep.count('trials')
                continue
            rep.add('swallowed', '%s|%s' % (f.qual, ast.unparse(
                bad.func if isinstance(bad, ast.Call) else bad)[:40]),
                'an exception of nimble raised by %s ends here without being '
                'raised again, used or checked for again' % ast.unparse(
                    bad)[:80], f.loc(node), [f.loc(bad)])

    # ------------------------------------------------------------ values
    def values(self):
        rep = self.rep
        for f in self.p.funcs:
            if isinstance(f.node, ast.Lambda):
                continue
            msgs = self.message_names(f)
            rep.count('functions_checked')
            for n in walk_own(f.node):
                if isinstance(n, (ast.Assign, ast.AugAssign)) and \
                        is_text(n.value):
                    rep.count('messages_followed')
            seen = set()
            for name, node in dead_stores(f.node):
                val = node.value
                if self.constructed(val):
                    rep.add('exception', '%s|%s' % (f.qual, name),
                            'the exception kept as %s is never raised' % name,
                            f.loc(node))
                elif (name in msgs and not isinstance(val, ast.Call)
                        ) or is_text(val) and isinstance(val, (
                        ast.Constant, ast.JoinedStr, ast.BinOp)) or (
                        name in msgs and is_text(val)):
                    if name in seen:
                        continue
                    seen.add(name)
                    rep.add('message', '%s|%s|%s' % (
                        f.qual, name, self.words(val)),
                        'the text put together in %s is never used: the '
                        'problem is detected and not reported' % name,
                        f.loc(node))
            self.gathered(f)

    def words(self, val):
        for n in ast.walk(val):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                return ' '.join(n.value.split())[:30]
        return ''

    def message_names(self, f):
        """local names that are given to an exception"""
        out = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call):
                for a in n.exc.args:
                    for x in ast.walk(a):
                        if isinstance(x, ast.Name) and isinstance(
                                x.ctx, ast.Load) and self.text_name(f, x.id):
                            out.add(x.id)
        return out

    def text_name(self, f, name):
        vals = [v for v in self.flow.assigns(f).get(name, [])
                if v is not None]
        return bool(vals) and all(isinstance(v, (
            ast.Constant, ast.JoinedStr, ast.BinOp, ast.Call)) and any(
                isinstance(x, ast.Constant) and isinstance(x.value, str)
                for x in ast.walk(v)) for v in vals)

    def gathered(self, f):
        """collections that are only ever added to"""
        fill, used = {}, set()
        par = None
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name):
                v = n.value
                if isinstance(v, (ast.List, ast.Dict, ast.Set)) and not (
                        v.elts if hasattr(v, 'elts') else v.keys) or \
                        isinstance(v, ast.Call) and isinstance(
                            v.func, ast.Name) and v.func.id in (
                                'list', 'set', 'dict') and not v.args:
                    fill.setdefault(n.targets[0].id, n)
        if not fill:
            return
        par = parents(f.node)
        added = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id in fill and isinstance(
                    n.ctx, ast.Load):
                p = par.get(n)
                if isinstance(p, ast.Attribute) and p.attr in (
                        'append', 'add', 'extend', 'update', 'insert') and \
                        isinstance(par.get(p), ast.Call) and isinstance(
                            par.get(par.get(p)), ast.Expr):
                    added.add(n.id)
                    continue
                if isinstance(p, ast.Subscript) and isinstance(
                        p.ctx, ast.Store) and n is p.value:
                    added.add(n.id)
                    continue
                used.add(n.id)
        for name, node in fill.items():
            self.rep.count('collections_followed')
            if name in added and name not in used and self.problems(
                    f, name) and not any(
                    isinstance(x, (ast.Global, ast.Nonlocal)) and name in
                    x.names for x in ast.walk(f.node)):
                self.rep.add('gathered', '%s|%s' % (f.qual, name),
                             'what is gathered in %s is never looked at'
                             % name, f.loc(node))

    def problems(self, f, name):
        """is text or an exception put into the collection"""
        caught = {n.name for n in ast.walk(f.node) if isinstance(
            n, ast.ExceptHandler) and n.name}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and isinstance(
                        n.func.value, ast.Name) and n.func.value.id == name:
                for a in n.args:
                    if is_text(a) or self.constructed(a) or isinstance(
                            a, ast.Name) and self.text_name(f, a.id):
                        return True
                    if {x.id for x in ast.walk(a) if isinstance(
                            x, ast.Name)} & caught:
                        return True
                # filled under a test: what is wrong with the input
                if self.under_test(f, n):
                    return True
        return False

    def under_test(self, f, node):
        par = parents(f.node)
        while node in par and not isinstance(par[node], (
                ast.For, ast.While, ast.FunctionDef)):
            node = par[node]
            if isinstance(node, ast.If):
                return True
        return False

    # ------------------------------------------------- dropped outcomes
    def pure(self, g):
        """a function that only computes a value"""
        if g.is_generator or not isinstance(g.node.body, list):
            return False
        rets = 0
        for n in walk_own(g.node):
            if isinstance(n, ast.Return):
                if n.value is None or isinstance(
                        n.value, ast.Constant) and n.value.value is None:
                    return False
                rets += 1
            if isinstance(n, (ast.Raise, ast.With, ast.Global, ast.Nonlocal,
                              ast.Delete, ast.Yield, ast.YieldFrom)):
                return False
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(
                    n.ctx, ast.Store):
                return False
            if isinstance(n, ast.Expr) and not isinstance(
                    n.value, ast.Constant):
                return False
            if isinstance(n, ast.Call) and not (isinstance(
                    n.func, ast.Name) and n.func.id in PURE):
                return False
        return rets > 0

    def predicate(self, g):
        if g.is_generator or not isinstance(g.node.body, list):
            return False
        rets = [n for n in walk_own(g.node) if isinstance(n, ast.Return)]
        return bool(rets) and all(
            r.value is not None and boolish(r.value) for r in rets) and \
            not any(isinstance(n, ast.Raise) for n in walk_own(g.node))

    def dropped(self):
        rep = self.rep
        for f in self.p.funcs:
            if isinstance(f.node, ast.Lambda):
                continue
            for n in walk_own(f.node):
                if not isinstance(n, ast.Expr):
                    continue
                v = n.value
                if isinstance(v, (ast.Compare, ast.BoolOp, ast.UnaryOp,
                                  ast.GeneratorExp, ast.Attribute)):
                    what = None
                    if isinstance(v, ast.BoolOp) and any(
                            isinstance(x, ast.Call) for x in ast.walk(v)):
                        continue
                    if isinstance(v, ast.Attribute):
                        if not self.is_method(v):
                            continue
                        what = 'a method is named but not called'
                    rep.add('no-effect', '%s|%s' % (
                        f.qual, ast.unparse(v)[:50]), what or
                        'a test is computed and dropped', f.loc(n))
                    continue
                if not isinstance(v, ast.Call):
                    continue
                rep.count('call_statements')
                key = '%s|%s' % (f.qual, ast.unparse(v.func)[:50])
                if self.constructed(v):
                    rep.add('not-raised', key, 'an exception is constructed '
                            'and not raised', f.loc(n))
                    continue
                if isinstance(v.func, ast.Name) and v.func.id in (
                        'map', 'filter', 'iter', 'reversed', 'zip') and \
                        v.func.id not in self.flow.local_names(f):
                    rep.add('never-run', key, 'a lazy iterator is made and '
                            'never run', f.loc(n))
                    continue
                if isinstance(v.func, ast.Name) and v.func.id == 'all' and \
                        len(v.args) == 1 and isinstance(
                            v.args[0], ast.GeneratorExp) and isinstance(
                                v.args[0].elt, ast.Call):
                    gs = self.targets(f, v.args[0].elt)
                    if gs and not any(isinstance(x, ast.Return) and x.value
                                      for g in gs for x in walk_own(g.node)):
                        rep.add('first-only', key, 'all() stops after the '
                                'first call, which returns nothing',
                                f.loc(n))
                        continue
                ts = self.targets(f, v)
                if not ts:
                    continue
                if all(g.is_generator and not g.decos for g in ts):
                    rep.add('never-run', key, 'a generator function is '
                            'called and never run', f.loc(n))
                elif all((self.predicate(g) or self.pure(g)) and
                         not g.decos for g in ts):
                    rep.add('dropped', key, 'the outcome of the check %s is '
                            'dropped' % ast.unparse(v)[:60], f.loc(n))

    def returned(self):
        """exceptions handed back instead of raised"""
        for f in self.p.funcs:
            for n in walk_own(f.node):
                if isinstance(n, ast.Return) and n.value is not None and \
                        self.constructed(n.value):
                    if any(isinstance(x, ast.Raise) and x.exc is call
                           for g, call, t in self.flow.callers(f)
                           for x in walk_own(g.node)):
                        continue
                    if any(not isinstance(par, ast.Expr) and not isinstance(
                            par, ast.Return) for par in self.uses_of(f)):
                        continue
                    self.rep.add(
                        'not-raised', '%s|%s' % (f.qual, ast.unparse(
                            n.value)[:50]), 'an exception is returned and '
                        'not raised', f.loc(n))

    def uses_of(self, f):
        out = []
        for g, call, t in self.flow.callers(f):
            p = parents(g.node).get(call)
            if p is not None:
                out.append(p)
        return out

    def is_method(self, a):
        ms = self.flow.methods.get(a.attr, [])
        if not ms or any(m.is_property for m in ms):
            return False
        return not self.attribute_set(a.attr)

    def attribute_set(self, name):
        """is an attribute of that name ever assigned"""
        got = getattr(self, '_attrs', None)
        if got is None:
            got = set()
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, ast.Store):
                        got.add(n.attr)
                    if isinstance(n, ast.Call) and getattr(
                            n.func, 'id', '') == 'setattr' and \
                            len(n.args) > 1 and isinstance(
                                n.args[1], ast.Constant):
                        got.add(n.args[1].value)
            for c in self.p.classes:
                got |= set(c.attrs)
            self._attrs = got
        return name in got

    # -------------------------------------------- checks that cannot fail
    def tests(self):
        rep = self.rep
        for f in self.p.funcs:
            if isinstance(f.node, ast.Lambda):
                continue
            par = None
            for n in walk_own(f.node):
                if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                    rep.count('tests_checked')
                    self.test(f, n, n.test)
                for fld in ('body', 'orelse', 'finalbody'):
                    b = getattr(n, fld, None)
                    if isinstance(b, list):
                        self.dead_code(f, b)
                if isinstance(n, (ast.For, ast.While)):
                    self.first_pass(f, n)
                if isinstance(n, ast.Try):
                    rep.count('try_statements')
                    self.final(f, n)
                if isinstance(n, ast.Raise) and n.exc is not None:
                    rep.count('raise_statements')
                    if par is None:
                        par = parents(f.node)
                    self.reachable(f, n, par)
            self.dead_code(f, f.node.body)

    def test(self, f, stmt, t):
        todo = [t]
        while todo:
            x = todo.pop()
            if isinstance(x, ast.BoolOp):
                todo += x.values
            elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
                todo.append(x.operand)
            else:
                what = None
                if isinstance(x, ast.Name) and isinstance(
                        self.flow.entity(f, x), (Func, Cls)):
                    what = 'a function is tested instead of called'
                elif isinstance(x, ast.Attribute) and self.is_method(x):
                    what = 'a method is tested instead of called'
                elif isinstance(x, (ast.Tuple, ast.List)) and x.elts or \
                        isinstance(x, ast.JoinedStr) or isinstance(
                            x, ast.Lambda):
                    what = 'the test is always true'
                if what:
                    self.rep.add('constant-test', '%s|%s' % (
                        f.qual, ast.unparse(x)[:50]), '%s: %s' % (
                            what, ast.unparse(x)[:60]), f.loc(stmt))

    def raising(self, s):
        return any(isinstance(x, ast.Raise) for x in ast.walk(s))

    def dead_code(self, f, body):
        for i, s in enumerate(body[:-1]):
            if isinstance(s, (ast.Return, ast.Raise, ast.Break,
                              ast.Continue)) or isinstance(
                                  s, (ast.If, ast.Try)) and terminates([s]):
                for later in body[i + 1:]:
                    if self.raising(later) or is_text(later) and isinstance(
                            later, ast.Assign):
                        self.rep.add(
                            'after-the-end', '%s|%s' % (
                                f.qual, ast.unparse(later)[:50]),
                            'a check or report follows a statement that '
                            'always leaves', f.loc(later))
                        break
                break

    def final(self, f, t):
        """leaving a finally block ends whatever was raised"""
        todo = [(s, False) for s in t.finalbody]
        while todo:
            s, inloop = todo.pop()
            if isinstance(s, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(s, ast.Return) or isinstance(
                    s, (ast.Break, ast.Continue)) and not inloop:
                self.rep.add('finally', '%s|%s' % (
                    f.qual, ast.unparse(s)[:40]),
                    'leaving the finally block here drops any exception '
                    'that is on its way', f.loc(s))
            todo += [(c, inloop or isinstance(s, (ast.For, ast.While)))
                     for c in ast.iter_child_nodes(s)]

    def first_pass(self, f, loop):
        body = loop.body
        if not self.raising(loop):
            return
        self.rep.count('checking_loops')
        last = body[-1]
        if isinstance(last, (ast.Return, ast.Break)) or isinstance(
                last, ast.If) and last.orelse and terminates([last]) and \
                not any(isinstance(x, ast.Continue) for x in
                        ast.walk(last)):
            inner = [x for s in body for x in ast.walk(s)]
            if any(isinstance(x, ast.Continue) for x in inner):
                return
            # searching loops leave with what they found
            if isinstance(last, ast.If) and not isinstance(
                    last.body[-1], ast.Raise) and not isinstance(
                        last.orelse[-1], ast.Raise):
                return
            if isinstance(loop, ast.While):
                return
            self.rep.add('first-only', '%s|%s' % (
                f.qual, ast.unparse(loop.iter)[:40]),
                'the loop over what is to be checked always ends in its '
                'first pass', f.loc(loop))

    # ----------------------------------------------------- contradictions
    def stable(self, f, names, first, last):
        """none of the names changes between two nodes of f"""
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id in names and not isinstance(
                    n.ctx, ast.Load) and first <= n.lineno <= last:
                return False
        return True

    def atoms(self, t, pol):
        """(expression text, kind, value) a test tells"""
        out = []
        if isinstance(t, ast.Constant):
            return [('', 'const', bool(t.value) == pol)]
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, op, r = t.left, type(t.ops[0]), t.comparators[0]
            flip = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE,
                    ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                    ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
                    ast.NotIn: ast.In}
            mirror = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
                      ast.GtE: ast.LtE}
            if not pol:
                op = flip[op]
            if isinstance(l, ast.Constant) and not isinstance(
                    r, ast.Constant):
                l, r, op = r, l, mirror.get(op, op)
            text = ast.unparse(l)
            if isinstance(r, ast.UnaryOp) and isinstance(
                    r.op, ast.USub) and isinstance(r.operand, ast.Constant):
                r = ast.Constant(-r.operand.value)
            if isinstance(r, ast.Constant):
                out.append((text, op.__name__, r.value))
            elif isinstance(r, (ast.Tuple, ast.List, ast.Set)) and all(
                    isinstance(x, ast.Constant) for x in r.elts):
                out.append((text, op.__name__, tuple(
                    x.value for x in r.elts)))
            elif op in (ast.Gt, ast.GtE) and self.not_negative(r):
                out.append((text, 'GtE', 0))
            out.append((ast.unparse(ast.Compare(l, [op()], [r])), 'holds',
                        True))
            out.append((ast.unparse(ast.Compare(l, [flip[op]()], [r])),
                        'holds', False))
            return out
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and \
                t.func.id == 'isinstance' and len(t.args) == 2:
            if pol and not (isinstance(t.args[1], ast.Call)):
                out.append((ast.unparse(t.args[0]), 'typed', True))
        out.append((ast.unparse(t), 'holds', pol))
        return out

    def not_negative(self, e, f=None, depth=0):
        f = f or self.at
        if depth > 3:
            return False
        if isinstance(e, ast.Constant):
            return isinstance(e.value, (int, float)) and e.value >= 0
        if isinstance(e, ast.Call):
            return isinstance(e.func, ast.Name) and e.func.id == 'len'
        if isinstance(e, ast.Subscript):
            return isinstance(e.value, ast.Attribute) and e.value.attr in (
                'shape', '_dims', 'dimensions')
        if isinstance(e, ast.Name):
            vals = self.flow.assigns(f).get(e.id, [])
            if e.id in f.params:
                if vals:
                    return False
                sites = list(self.flow.callers(f))
                return bool(sites) and all(
                    isinstance(v, ast.AST) and self.not_negative(
                        v, g, depth + 1) for g, v in (
                            (g, self.flow.argument(t, call, e.id))
                            for g, call, t in sites))
            return bool(vals) and all(
                v is not None and self.not_negative(v, f, depth + 1)
                for v in vals)
        return False

    def contradiction(self, atoms):
        by = {}
        for text, kind, val in atoms:
            if kind == 'const':
                if val is False:
                    return 'a constant'
                continue
            by.setdefault(text, []).append((kind, val))
        for text, lst in by.items():
            holds = {v for k, v in lst if k == 'holds'}
            if holds == {True, False}:
                return text
            lo, hi = None, None     # (value, strict)
            eq, ne, none, typed = None, set(), None, False
            for k, v in lst:
                if k == 'typed':
                    typed = True
                if k in ('Is', 'Eq') and v is None:
                    none = True
                    continue
                if k in ('IsNot', 'NotEq') and v is None:
                    none = False if none is None else none
                    continue
                num = isinstance(v, (int, float)) and not isinstance(v, bool)
                if k in ('Gt', 'GtE') and num:
                    c = (v, k == 'Gt')
                    lo = c if lo is None or c > lo else lo
                if k in ('Lt', 'LtE') and num:
                    c = (v, k != 'Lt')
                    hi = c if hi is None or c < hi else hi
                if k == 'Eq' and not isinstance(v, tuple):
                    if eq is not None and eq[0] != v:
                        return text
                    eq = (v,)
                if k == 'In' and isinstance(v, tuple):
                    for k2, v2 in lst:
                        if k2 == 'NotIn' and isinstance(v2, tuple) and \
                                set(v) <= set(v2):
                            return text
                if k == 'NotIn' and isinstance(v, tuple):
                    for k2, v2 in lst:
                        if k2 == 'Eq' and v2 in v:
                            return text
            if lo is not None and hi is not None:
                strict_hi = not hi[1]
                if lo[0] > hi[0] or lo[0] == hi[0] and (
                        lo[1] or strict_hi):
                    return text
            if none and (typed or any(k in ('Gt', 'GtE', 'Lt', 'LtE')
                                      for k, _ in lst)):
                return text
        return None

    def reachable(self, f, node, par):
        self.at = f
        gs = [(t, pol) for t, pol in split_guards(
            guards(par, node, f.node))]
        atoms, lines, names = [], [], set()
        fine = []
        for t, pol in gs:
            if any(isinstance(x, ast.NamedExpr) for x in ast.walk(t)):
                continue
            if any(isinstance(x, ast.Call) and not (isinstance(
                    x.func, ast.Name) and x.func.id in (
                        'len', 'isinstance', 'type', 'callable', 'hasattr'))
                    for x in ast.walk(t)):
                continue
            fine.append((t, pol))
        # tests whose names change between them and the raise are left out
        keep = []
        for t, pol in fine:
            ns = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
            if self.stable(f, ns, t.lineno, node.lineno) and not any(
                    isinstance(x, (ast.Attribute, ast.Subscript))
                    for x in ast.walk(t)):
                keep.append((t, pol))
            elif self.same_test(t, node, par):
                keep.append((t, pol))
        for t, pol in keep:
            atoms += self.atoms(t, pol)
        why = self.contradiction(atoms)
        if why is not None:
            self.rep.add('unreachable', '%s|%s' % (
                f.qual, ast.unparse(node)[:60]),
                'this is never raised: its conditions contradict each other '
                '(%s)' % why, f.loc(node))

    def same_test(self, t, node, par):
        """is t part of the test of the if right around node"""
        cur = node
        while cur in par and not isinstance(cur, ast.If):
            cur = par[cur]
        return isinstance(cur, ast.If) and any(
            x is t for x in ast.walk(cur.test))

    # ---------------------------------------------------- context managers
    def managers(self):
        for f in self.p.funcs:
            if f.name == '__exit__':
                self.rep.count('context_managers')
                for n in walk_own(f.node):
                    if isinstance(n, ast.Return) and isinstance(
                            n.value, ast.Constant) and n.value.value:
                        self.rep.add('manager', f.qual, 'this context '
                                     'manager ends every exception raised '
                                     'within it', f.loc(n))
            if not f.is_generator or not any(
                    'contextmanager' in ast.unparse(d) for d in f.decos):
                continue
            self.rep.count('context_managers')
            for n in walk_own(f.node):
                if isinstance(n, ast.Try) and any(isinstance(
                        x, (ast.Yield, ast.YieldFrom)) for s in n.body
                        for x in ast.walk(s)):
                    for h in n.handlers:
                        if any(self.catches(h.type, c) for c in self.exc) \
                                and not self.reports(f, h):
                            self.rep.add(
                                'manager', f.qual, 'this context manager '
                                'ends exceptions raised within it', f.loc(h))

    # --------------------------------------------------------- unreferenced
    def unreferenced(self):
        refs = set()
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name):
                    refs.add(n.id)
                elif isinstance(n, ast.Attribute):
                    refs.add(n.attr)
                elif isinstance(n, ast.alias):
                    refs.add(n.name.split('.')[-1])
                elif isinstance(n, ast.Constant) and isinstance(
                        n.value, str) and n.value.isidentifier():
                    refs.add(n.value)
        for f in self.p.funcs:
            if isinstance(f.node, ast.Lambda) or f.name.startswith('__'):
                continue
            if not (f.name.startswith('_') or f.parent is not None):
                continue
            if not any(isinstance(n, ast.Raise) for n in walk_own(f.node)):
                continue
            self.rep.count('checking_functions')
            if f.name not in refs and not f.decos:
                self.rep.add('unreferenced', f.qual, 'the check %s is never '
                             'made: nothing refers to it' % f.name,
                             f.loc(f.node))

    def run(self):
        self.values()
        self.handlers()
        self.dropped()
        self.returned()
        self.tests()
        self.unreferenced()
        self.managers()
        rep = self.rep
        rep.floor('messages_followed', 500)
        rep.floor('functions_that_may_raise', 150)
        rep.floor('handlers_of_own_exceptions', 10)
        rep.floor('raise_statements', 500)
        rep.floor('checking_functions', 60)


def run(rep):
    Reported(rep).run()
