"""Strong liveness of local names.

`dead_stores(fnode)` gives the stores to local names whose value no later
statement uses, where adding to a value (x += .., x = x + .., x.append(..),
x.update(..)) is not a use unless the result is used.  Names that nested
functions mention are left out, as are globals and nonlocals.
"""
import ast

GROW = {'append', 'extend', 'add', 'update', 'insert', 'setdefault'}


def names_in(node, ctx=ast.Load):
    return {n.id for n in ast.walk(node)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ctx)}


def captured(fnode):
    """names mentioned in nested functions, lambdas and classes"""
    out = set()
    for n in ast.walk(fnode):
        if n is not fnode and isinstance(n, (
                ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                ast.ClassDef)):
            for x in ast.walk(n):
                if isinstance(x, ast.Name):
                    out.add(x.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out |= set(n.names)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in ('locals', 'vars', 'eval', 'exec'):
            out.add('*')
    return out


class Live:
    def __init__(self, fnode, stop_uses=None):
        self.f = fnode
        self.skip = captured(fnode)
        self.dead = {}
        self.stores = []
        self.brk, self.cont, self.exc = [], [], []
        self.record = True

    def run(self):
        if '*' in self.skip:
            return {}
        body = self.f.body if isinstance(self.f.body, list) else []
        self.block(body, frozenset())
        return self.dead

    # ------------------------------------------------------------------
    def block(self, body, out):
        for s in reversed(body):
            out = self.stmt(s, out)
        return out

    def store(self, name, node, live):
        if name in self.skip:
            return live
        if self.record:
            self.stores.append((name, node))
            if name in live or any(name in e for e in self.exc):
                self.dead.pop((name, node), None)
                self.dead[(name, node)] = False
            elif self.dead.get((name, node)) is None:
                self.dead[(name, node)] = True
        return live - {name}

    def target(self, t, node, live):
        if isinstance(t, ast.Name):
            return self.store(t.id, node, live)
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                # parts of an unpacked value are not judged
                if isinstance(e, ast.Name):
                    live = live - {e.id}
                else:
                    live = self.target(e, node, live)
            return live
        if isinstance(t, ast.Starred):
            return self.target(t.value, node, live)
        return live | names_in(t)

    def self_part(self, name, value):
        """value is name + something"""
        n = value
        while isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            n = n.left
        return isinstance(n, ast.Name) and n.id == name and n is not value

    def stmt(self, s, out):
        if isinstance(s, ast.Assign):
            live = out
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                name = s.targets[0].id
                was = name in out or any(name in e for e in self.exc)
                live = self.store(name, s, live)
                used = names_in(s.value)
                if self.self_part(name, s.value) and not was and \
                        name not in self.skip:
                    used.discard(name)
                return live | used
            for t in s.targets:
                live = self.target(t, s, live)
            return live | names_in(s.value)
        if isinstance(s, ast.AnnAssign):
            live = out
            if s.value is not None:
                live = self.target(s.target, s, live) | names_in(s.value)
            return live
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                n = s.target.id
                was = n in out or any(n in e for e in self.exc)
                live = self.store(n, s, out)
                live = live | names_in(s.value)
                return live | {n} if was else live
            return out | names_in(s.target) | names_in(s.value)
        if isinstance(s, ast.Expr):
            c = s.value
            if isinstance(c, ast.Call) and isinstance(
                    c.func, ast.Attribute) and c.func.attr in GROW and \
                    isinstance(c.func.value, ast.Name):
                used = set()
                for a in list(c.args) + [k.value for k in c.keywords]:
                    used |= names_in(a)
                return out | used
            return out | names_in(s)
        if isinstance(s, (ast.Return, ast.Raise)):
            live = names_in(s)
            for e in self.exc:
                live |= e
            return frozenset(live)
        if isinstance(s, ast.Break):
            return self.brk[-1] if self.brk else frozenset()
        if isinstance(s, ast.Continue):
            return self.cont[-1] if self.cont else frozenset()
        if isinstance(s, ast.If):
            return (self.block(s.body, out) | self.block(s.orelse, out)
                    | names_in(s.test))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            after = self.block(s.orelse, out)
            head = after
            rec, self.record = self.record, False
            for _ in range(20):
                new = self.once(s, head, out, after)
                if new <= head:
                    break
                head = head | new
            self.record = rec
            self.once(s, head, out, after)
            return head | (names_in(s.iter) if hasattr(s, 'iter')
                           else frozenset())
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, out) if s.finalbody else out
            hs = frozenset()
            for h in s.handlers:
                lv = self.block(h.body, fin)
                if h.name:
                    lv = lv - {h.name}
                if h.type is not None:
                    lv |= names_in(h.type)
                hs |= lv
            if s.finalbody:
                hs |= fin
            rest = self.block(s.orelse, fin)
            self.exc.append(hs)
            live = self.block(s.body, rest)
            self.exc.pop()
            return live | hs
        if isinstance(s, (ast.With, ast.AsyncWith)):
            live = self.block(s.body, out)
            for i in reversed(s.items):
                if i.optional_vars is not None:
                    live = live - names_in(i.optional_vars, ast.Store)
                live |= names_in(i.context_expr)
            return live
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            used = set()
            for x in ast.walk(s):
                if isinstance(x, ast.Name):
                    used.add(x.id)
            return (out - {s.name}) | used
        if isinstance(s, ast.Match):
            live = out
            for c in s.cases:
                live |= self.block(c.body, out)
            return live | names_in(s.subject)
        return out | names_in(s)

    def once(self, s, head, out, after):
        self.brk.append(out)
        self.cont.append(head)
        live = self.block(s.body, head)
        self.brk.pop()
        self.cont.pop()
        if isinstance(s, ast.While):
            return live | names_in(s.test) | after
        return (live - names_in(s.target, ast.Store)) | after


def dead_stores(fnode):
    lv = Live(fnode)
    res = lv.run()
    return [k for k, dead in res.items() if dead]
