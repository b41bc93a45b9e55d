"""Which parameters of a function can influence what it does.

Faint-variable analysis, backwards over each function and to a fixpoint over
the call graph: a parameter has influence when its value on entry can reach a
returned value, a store outside the function, a condition something other than
an exception depends on, or a parameter with influence of a function called.
What only decides whether an exception is raised, is only shown in its message,
only logged, or is overwritten before it is used has none; a flag that by
itself switches a refusal on or off has."""
import ast
from .flow import STAR, MISSING
from .live import Live, captured
from .model import walk_own

# methods of values from outside that change them
CHANGES = ('append', 'add', 'extend', 'insert', 'update', 'pop', 'remove',
           'clear', 'write', 'writelines', 'setdefault', 'sort', 'close',
           'seed', 'set_ylim', 'set_xlim')


def own_params(f):
    out = list(dict.fromkeys(list(f.params) + list(f.kwonly)))
    if f.cls is not None and f.parent is None and not f.is_static and f.pos:
        out = [p for p in out if p != f.pos[0]]
    return out


def statements(f):
    b = f.node.body
    if not isinstance(b, list):
        return []
    return [s for s in b if not (isinstance(s, ast.Expr) and
                                 isinstance(s.value, ast.Constant))]


def only_raises(body):
    """nothing happens here but that an exception may be raised"""
    found = False
    for s in body:
        if isinstance(s, ast.Raise):
            found = True
        elif isinstance(s, ast.If):
            if not only_raises(s.body) or s.orelse and \
                    not only_raises(s.orelse):
                return False
            found = True
        elif isinstance(s, (ast.Assign, ast.AugAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if not all(isinstance(t, ast.Name) for t in ts):
                return False
        elif not isinstance(s, (ast.Expr, ast.Pass)):
            return False
    return found


class Influence:
    def __init__(self, prog, flow, silent=()):
        """silent: modules whose functions only record what happened"""
        self.prog, self.flow = prog, flow
        self.silent = silent
        self.eff, self.side = {}, {}
        self.funcs = [f for f in prog.funcs
                      if not isinstance(f.node, ast.Lambda)]
        self.empty = {f for f in self.funcs
                      if all(isinstance(s, (ast.Pass, ast.Raise))
                             for s in statements(f))}
        self.calls = {}
        self.owner = {}
        for f in self.funcs:
            for n in walk_own(f.node):
                if isinstance(n, ast.Call):
                    self.owner[n] = f
        self.refusing = set()
        self._refusals()
        # what matters to what a function changes; to that or what it returns
        both = ((self.side, False), (self.eff, True))
        for f in self.funcs:
            self.side[f] = self.eff[f] = frozenset()
        work = True
        while work:
            work = False
            for f in self.funcs:
                for table, ret in both:
                    if len(table[f]) == len(own_params(f)):
                        continue
                    new = table[f] | self.once(f, ret)
                    if new != table[f]:
                        table[f] = new
                        work = True

    def _refusals(self):
        """functions that always raise"""
        again = True
        while again:
            again = False
            for f in self.funcs:
                b = statements(f)
                if f in self.refusing or not b:
                    continue
                last = b[-1]
                yes = isinstance(last, ast.Raise)
                if isinstance(last, (ast.Expr, ast.Return)) and isinstance(
                        last.value, ast.Call):
                    ts = self.targets(f, last.value)
                    yes = bool(ts) and all(t.func in self.refusing
                                           for t in ts)
                if yes and not any(
                        isinstance(x, ast.Return) and x is not last
                        for x in walk_own(f.node)):
                    self.refusing.add(f)
                    again = True

    def targets(self, f, call):
        got = self.calls.get(call)
        if got is None:
            got = self.calls[call] = self.flow.targets(
                self.owner.get(call, f), call)
        return got

    def once(self, f, ret=True):
        return frozenset(Faint(self, f, ret).entry()) & set(own_params(f))

    def passes(self, f, call, side=False):
        """[(argument expression, has influence)] of one call; side: on what
        it changes, its result is not used"""
        table = self.side if side else self.eff
        out = []
        ts = self.targets(f, call)
        exprs = list(call.args) + [k.value for k in call.keywords]
        if ts and self.silent and all(
                t.func.module.name.startswith(self.silent) for t in ts):
            return [(a, False) for a in exprs]
        bound = {}
        for t in ts:
            for q, v in self.flow.binding(t, call).items():
                bound.setdefault(id(v), []).append((t.func, q))
        for a in exprs:
            got = bound.get(id(a))
            if not ts or got is None or len(got) < len(ts):
                out.append((a, True))
                continue
            yes = False
            for g, q in got:
                if isinstance(g.node, ast.Lambda) or \
                        q not in own_params(g):
                    yes = True
                elif q in table[g]:
                    yes = True
            out.append((a, yes))
        return out


class Faint(Live):
    def __init__(self, inf, f, ret=True):
        super().__init__(f.node)
        self.inf, self.fn, self.ret = inf, f, ret
        self.record = False

    def entry(self):
        nested = set()
        for n in ast.walk(self.f):
            if n is not self.f and isinstance(n, (
                    ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                nested |= {x.id for x in ast.walk(n)
                           if isinstance(x, ast.Name)}
        body = self.f.body if isinstance(self.f.body, list) else []
        live = self.block(body, frozenset())
        if '*' in self.skip:
            return set(own_params(self.fn))
        return set(live) | (self.skip & nested)

    # ------------------------------------------------------ expressions
    def uses(self, e):
        if e is None:
            return set()
        if isinstance(e, ast.Name):
            return {e.id} if isinstance(e.ctx, ast.Load) else set()
        if isinstance(e, ast.Call):
            out = self.uses(e.func)
            for a, yes in self.inf.passes(self.fn, e):
                if yes:
                    out |= self.uses(a)
                else:
                    out |= self.effects(a)
            return out
        if isinstance(e, ast.Lambda):
            return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
        out = set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.comprehension):
                out |= self.uses(c.iter)
                for i in c.ifs:
                    out |= self.uses(i)
            else:
                out |= self.uses(c)
        return out

    def effects(self, e):
        """names used by the calls in an expression whose value is not"""
        out = set()
        if e is None:
            return out
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            return self.uses(e)
        if isinstance(e, ast.Call):
            ts = self.inf.targets(self.fn, e)
            if ts and not ts[0].exact and isinstance(
                    e.func, ast.Attribute) and e.func.attr in CHANGES:
                return self.uses(e)
            if ts:
                if isinstance(e.func, ast.Attribute) and any(
                        t.bound for t in ts):
                    out |= self.effects(e.func.value)
                for a, yes in self.inf.passes(self.fn, e, True):
                    out |= self.uses(a) if yes else self.effects(a)
                return out
            if isinstance(e.func, ast.Name) and (
                    e.func.id in self.fn.params or
                    self.inf.flow.scope_of(self.fn, e.func.id)):
                return self.uses(e)
            if isinstance(e.func, ast.Attribute) and \
                    e.func.attr in CHANGES:
                return self.uses(e)
        elif isinstance(e, ast.Lambda):
            return out
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.comprehension):
                out |= self.effects(c.iter)
                for i in c.ifs:
                    out |= self.effects(i)
            elif isinstance(c, ast.keyword):
                out |= self.effects(c.value)
            else:
                out |= self.effects(c)
        return out

    # ------------------------------------------------------- statements
    def stmt(self, s, out):
        if isinstance(s, ast.Assign):
            live = out
            needed = False
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if t.id in live or t.id in self.skip or \
                            any(t.id in e for e in self.exc):
                        needed = True
                    if t.id not in self.skip:
                        live = live - {t.id}
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for e in ast.walk(t):
                        if isinstance(e, ast.Name) and isinstance(
                                e.ctx, ast.Store):
                            if e.id in live or e.id in self.skip:
                                needed = True
                            live = live - {e.id}
                        elif isinstance(e, (ast.Attribute, ast.Subscript)):
                            needed = True
                    live = live | self.loads(t)
                else:
                    needed = True
                    live = live | self.loads(t)
            if len(s.targets) == 1 and isinstance(
                    s.targets[0], ast.Tuple) and isinstance(
                    s.value, ast.Tuple) and \
                    len(s.targets[0].elts) == len(s.value.elts):
                # value by value
                for t, v in zip(s.targets[0].elts, s.value.elts):
                    if not isinstance(t, ast.Name) or t.id in out or \
                            t.id in self.skip:
                        live = live | self.uses(v)
                    else:
                        live = live | self.effects(v)
                return live
            return live | (self.uses(s.value) if needed
                           else self.effects(s.value))
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return out
            return self.stmt(ast.copy_location(ast.Assign(
                targets=[s.target], value=s.value), s), out)
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and \
                    s.target.id not in self.skip:
                if s.target.id in out or any(s.target.id in e
                                             for e in self.exc):
                    return out | self.uses(s.value)
                return out | self.effects(s.value)
            return out | self.loads(s.target) | self.uses(s.value)
        if isinstance(s, ast.Expr):
            if isinstance(s.value, (ast.Call, ast.Yield, ast.YieldFrom,
                                    ast.Await)):
                c = s.value
                if isinstance(c, ast.Call) and isinstance(
                        c.func, ast.Attribute) and isinstance(
                        c.func.value, ast.Name) and c.func.attr in (
                        'append', 'add', 'extend', 'update', 'insert'):
                    n = c.func.value.id
                    if n not in out and n not in self.skip and \
                            n not in self.fn.params and \
                            not any(n in e for e in self.exc):
                        got = set()
                        for a in list(c.args) + [k.value
                                                 for k in c.keywords]:
                            got |= self.effects(a)
                        return out | got
                if isinstance(c, ast.Call) and self.inf.targets(self.fn, c):
                    return out | self.effects(c)
                return out | self.uses(c)
            return out | self.effects(s.value)
        if isinstance(s, ast.Raise):
            live = frozenset()
            for e in self.exc:
                live |= e
            return live | self.effects(s.exc)
        if isinstance(s, ast.Return):
            live = frozenset(self.uses(s.value) if self.ret
                             else self.effects(s.value))
            for e in self.exc:
                live |= e
            return live
        if isinstance(s, ast.Assert):
            return out | self.effects(s.test)
        if isinstance(s, ast.If):
            a, b = self.block(s.body, out), self.block(s.orelse, out)
            live = a | b
            if only_raises(s.body) and (not s.orelse or
                                        only_raises(s.orelse)):
                flag = s.test
                while isinstance(flag, ast.UnaryOp) and isinstance(
                        flag.op, ast.Not):
                    flag = flag.operand
                # a switch: refuse, or do not
                if isinstance(flag, ast.Name):
                    return live | out | {flag.id}
                return live | out | self.effects(s.test)
            if self.idle(s.body, out) and self.idle(s.orelse, out):
                return live | self.effects(s.test)
            return live | self.uses(s.test)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            live = self.block(s.body, out)
            for i in reversed(s.items):
                live = live | self.uses(i.context_expr)
            return live
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            live = super().stmt(s, out)
            if isinstance(s, ast.While):
                return live | self.uses(s.test)
            body = [x for x in s.body]
            if only_raises(body) and not s.orelse:
                extra = self.effects(s.iter)
                plain = {n.id for n in ast.walk(s.iter)
                         if isinstance(n, ast.Name)}
                return (live - (plain - out)) | extra
            return live | self.uses(s.iter)
        if isinstance(s, ast.Delete):
            return out | set().union(*[self.loads(t) for t in s.targets])
        return super().stmt(s, out)

    def loads(self, t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)
                and isinstance(x.ctx, ast.Load)}

    def idle(self, body, out):
        """statements whose results nothing uses"""
        for s in body:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Assign) and all(
                    isinstance(t, ast.Name) and t.id not in out and
                    t.id not in self.skip for t in s.targets) and \
                    not any(isinstance(n, ast.Call)
                            for n in ast.walk(s.value)):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            return False
        return True
