"""Path-sensitive walk of one function body.

States are hashable values chosen by the client; the walker computes, for a
set of states at the start of a statement list, the states in which it can be
left normally, by return, break, continue or by an exception.  Loops are
iterated to a fixed point.  Clients override `simple` (effect of a simple
statement or of an evaluated expression) and `branch` (what a test says).
"""
import ast

LIMIT = 20000


class TooManyPaths(Exception):
    pass


class Out:
    __slots__ = ('normal', 'ret', 'brk', 'cont', 'exc')

    def __init__(self):
        self.normal, self.ret, self.brk = set(), set(), set()
        self.cont, self.exc = set(), set()

    def absorb(self, o, normal=False):
        self.ret |= o.ret
        self.brk |= o.brk
        self.cont |= o.cont
        self.exc |= o.exc
        if normal:
            self.normal |= o.normal


def may_raise(node):
    return any(isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Await,
                              ast.Compare, ast.Assert))
               for n in ast.walk(node))


def catches_all(h):
    if h.type is None:
        return True
    names = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
    for n in names:
        d = n.id if isinstance(n, ast.Name) else getattr(n, 'attr', None)
        if d == 'BaseException':
            return True
    return False


class Walk:
    exceptions = True     # follow exceptional exits of simple statements

    # ---- to override
    def raises(self, node):
        return may_raise(node)

    def catches_all(self, h):
        return catches_all(h)

    def simple(self, node, state):
        """states after evaluating a statement / expression"""
        return [state]

    def branch(self, test, state):
        """-> (states if true, states if false)"""
        return [state], [state]

    def during(self, node, state):
        """states in which evaluating the node may be interrupted"""
        return [state]

    def handler(self, h, state):
        """states in which an exception in `state` enters handler h"""
        return [state]

    def enter(self, node, state):
        return [state]

    def leave(self, node, state):
        return [state]

    # ---- engine
    def run(self, body, states):
        out = Out()
        cur = set(states)
        for s in body:
            if not cur:
                break
            if len(cur) > LIMIT:
                raise TooManyPaths()
            o = self.stmt(s, cur)
            out.absorb(o)
            cur = o.normal
        out.normal = cur
        return out

    def _simple(self, node, states, out):
        res = set()
        for st in states:
            if self.exceptions and self.raises(node):
                out.exc |= set(self.during(node, st))
            res |= set(self.simple(node, st))
        return res

    def _test(self, test, states, out):
        t, f = set(), set()
        for st in states:
            if self.exceptions and self.raises(test):
                out.exc |= set(self.during(test, st))
            for s2 in self.simple(test, st):
                a, b = self.branch(test, s2)
                t |= set(a)
                f |= set(b)
        return t, f

    def stmt(self, s, states):
        out = Out()
        if isinstance(s, ast.If):
            t, f = self._test(s.test, states, out)
            a = self.run(s.body, t)
            b = self.run(s.orelse, f)
            out.absorb(a, True)
            out.absorb(b, True)
        elif isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            head = set(states)
            if not isinstance(s, ast.While):
                head = self._simple(s.iter, head, out)
            seen = set()
            exits = set()
            work = head
            while work - seen:
                new = work - seen
                seen |= new
                if isinstance(s, ast.While):
                    t, f = self._test(s.test, new, out)
                    infinite = isinstance(s.test, ast.Constant) and \
                        s.test.value
                    if not infinite:
                        exits |= f
                else:
                    exits |= new
                    t = self._simple(s.target, new, out)
                b = self.run(s.body, t)
                out.ret |= b.ret
                out.exc |= b.exc
                out.normal |= b.brk
                work = b.normal | b.cont
                if len(seen) > LIMIT:
                    raise TooManyPaths()
            e = self.run(s.orelse, exits)
            out.absorb(e, True)
        elif isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            inner = Out()
            b = self.run(s.body, states)
            inner.ret |= b.ret
            inner.brk |= b.brk
            inner.cont |= b.cont
            e = self.run(s.orelse, b.normal)
            inner.absorb(e, True)
            escaped = set(b.exc)
            for h in s.handlers:
                ent = set()
                for st in b.exc:
                    ent |= set(self.handler(h, st))
                hb = self.run(h.body, ent)
                inner.absorb(hb, True)
                if self.catches_all(h):
                    escaped = set()
                    break
            inner.exc |= escaped
            if s.finalbody:
                for kind in ('normal', 'ret', 'brk', 'cont', 'exc'):
                    vals = getattr(inner, kind)
                    plain = {v[0] for v in vals} if kind == 'ret' else vals
                    fb = self.run(s.finalbody, plain)
                    out.absorb(fb)
                    if kind == 'ret':
                        nodes = {v[1] for v in vals}
                        out.ret |= {(st, n) for st in fb.normal
                                    for n in nodes}
                    else:
                        setattr(out, kind, getattr(out, kind) | fb.normal)
            else:
                out.absorb(inner, True)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            cur = set(states)
            for i in s.items:
                cur = self._simple(i.context_expr, cur, out)
            cur = {x for st in cur for x in self.enter(s, st)}
            b = self.run(s.body, cur)
            for kind in ('normal', 'brk', 'cont', 'exc'):
                setattr(out, kind, getattr(out, kind) | {
                    x for st in getattr(b, kind)
                    for x in self.leave(s, st)})
            out.ret |= {(x, n) for st, n in b.ret
                        for x in self.leave(s, st)}
        elif isinstance(s, ast.Return):
            cur = states
            if s.value is not None:
                cur = self._simple(s.value, states, out)
            out.ret |= {(st, s) for st in cur}
        elif isinstance(s, ast.Raise):
            cur = set(states)
            if s.exc is not None:
                cur = self._simple(s.exc, states, out)
            out.exc |= cur
        elif isinstance(s, ast.Break):
            out.brk |= set(states)
        elif isinstance(s, ast.Continue):
            out.cont |= set(states)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                            ast.ClassDef, ast.Import, ast.ImportFrom,
                            ast.Global, ast.Nonlocal, ast.Pass)):
            out.normal |= {x for st in states for x in self.simple(s, st)}
        elif isinstance(s, ast.Match):
            cur = self._simple(s.subject, states, out)
            rest = set(cur)
            for c in s.cases:
                b = self.run(c.body, cur)
                out.absorb(b, True)
                p = c.pattern
                if isinstance(p, ast.MatchAs) and p.pattern is None and \
                        c.guard is None:
                    rest = set()
            out.normal |= rest
        else:
            if isinstance(s, ast.Assert):
                if self.exceptions:
                    out.exc |= {x for st in states
                                for x in self.during(s, st)}
            out.normal |= self._simple(s, states, out)
        return out


def calls_in(node):
    """calls evaluated by a statement or expression, inner first"""
    out = []

    def rec(n):
        if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            return
        for c in ast.iter_child_nodes(n):
            rec(c)
        if isinstance(n, ast.Call):
            out.append(n)
    rec(node)
    return out


class Inline(Walk):
    """Walk that follows calls to the functions chosen by `pick`; `event`
    is told about every other evaluated call (inner first) and then about
    the statement or expression itself."""
    depth_limit = 6

    def __init__(self, flow, f, depth=0):
        self.flow, self.f, self.depth = flow, f, depth

    # ---- to override
    def pick(self, call):
        """functions whose bodies stand for the call (none: opaque)"""
        return []

    def event(self, node, state):
        return [state]

    def spawn(self, g):
        w = type(self)(self.flow, g, self.depth + 1)
        w.__dict__.update({k: v for k, v in self.__dict__.items()
                           if k not in ('f', 'depth', '_memo')})
        return w

    # ---- engine
    def effect(self, node, state):
        memo = self.__dict__.setdefault('_memo', {})
        got = memo.get((node, state))
        if got is not None:
            return got
        states, exc = {state}, {state}
        for c in calls_in(node):
            gs = self.pick(c) if self.depth < self.depth_limit else []
            new = set()
            for st in states:
                if gs:
                    for g in gs:
                        body = [ast.Expr(g.node.body)] if isinstance(
                            g.node, ast.Lambda) else g.node.body
                        o = self.spawn(g).run(body, {st})
                        new |= o.normal | {r[0] for r in o.ret}
                        exc |= o.exc
                else:
                    got = set(self.event(c, st))
                    new |= got
                    exc |= got
            states = new
        if not isinstance(node, ast.Call):
            states = {x for st in states for x in self.event(node, st)}
        memo[(node, state)] = (states, exc)
        return states, exc

    def simple(self, node, state):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef,
                             ast.ClassDef)):
            return [state]
        return self.effect(node, state)[0]

    def during(self, node, state):
        return self.effect(node, state)[1]
