"""C05 log entries are durable, safely stored and readable"""
import ast
from ..model import AnalysisError, Func, Cls, Var, Ext, walk_own, dotted
from ..paths import Walk, calls_in

EXPLANATION = """
Modules using sqlite3 are enumerated and every statement execution in them is
an obligation: (1) the statement text must be built from string constants only
(interprocedural constant-origin analysis through locals, parameters, +=, join,
format and returned tuples), so text from outside can only be a bound value,
and the number of placeholders must equal the number of bound values on every
path; (2) the function inserting an entry must, on every path to a normal
return, have inserted and then committed (path-sensitive typestate
none/inserted/committed, helper methods inlined), and no statement or
connection option weakens durability; (3) the kinds accepted by the log gateway
are matched with the registered writers (including the argument binding of
every gateway call), every kind a writer stores is matched with a builder of
the log viewer, and every key a builder reads is stored by the writer on each
path (all combinations of optional keys are enumerated); (4) the viewer falls
back to showing the raw entry for values it cannot interpret, and describing
the arguments of a call cannot fail on the values given (comparisons of caller
values are guarded)."""

ASSUMPTIONS = [
    'sqlite3 commits durably (its defaults are kept, which is checked)',
    'keys of entries are string constants or constant expressions',
]

EXEC = ('execute', 'executemany', 'executescript')
MODIFY = ('INSERT', 'UPDATE', 'DELETE', 'REPLACE', 'CREATE', 'DROP', 'ALTER')


def run(rep):
    prog = rep.prog
    mods = [m for m in prog.modules.values() if uses_sqlite(m)]
    if not mods:
        raise AnalysisError('no module uses sqlite3')
    D = Db(rep, mods)
    D.statements()
    inserts = D.insert_functions()
    if not inserts:
        raise AnalysisError('no statement inserts log entries')
    durable(rep, D, inserts)
    viewer(rep, D, inserts)
    describing(rep, D, inserts)


def uses_sqlite(m):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import) and any(
                a.name.split('.')[0] == 'sqlite3' for a in n.names):
            return True
        if isinstance(n, ast.ImportFrom) and n.module and \
                n.module.split('.')[0] == 'sqlite3':
            return True
    return False


class Db:
    def __init__(self, rep, mods):
        self.rep, self.prog, self.mods = rep, rep.prog, mods
        self.funcs = [f for f in self.prog.funcs if f.module in mods]
        self.by_name = {}
        for f in self.funcs:
            self.by_name.setdefault(f.name, []).append(f)
        self.execs = []
        for f in self.funcs:
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr in EXEC:
                    self.execs.append((f, n))

    # -- who is called
    def target(self, f, call):
        fn = call.func
        if isinstance(fn, ast.Name):
            for g in self.by_name.get(fn.id, []):
                if g.cls is None:
                    return g
            e = self.prog.resolve_expr(f.module, fn)
            return e if isinstance(e, Func) else None
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and f.cls is not None and \
                    fn.value.id == f.method_self:
                return f.cls.lookup(fn.attr)
            e = self.prog.resolve_expr(f.module, fn)
            if isinstance(e, Func):
                return e
        return None

    def callers(self, g):
        """[(caller, call, offset of the first argument)] in the package"""
        out = []
        for f in self.prog.funcs:
            for n in walk_own(f.node):
                if not isinstance(n, ast.Call):
                    continue
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else \
                    getattr(n.func, 'id', None)
                if nm != g.name:
                    continue
                if f.module in self.mods:
                    t = self.target(f, n)
                    if t is g or (t is None and g.cls is not None and
                                  isinstance(n.func, ast.Attribute)):
                        out.append((f, n))
                elif g.cls is not None and isinstance(n.func, ast.Attribute):
                    d = dotted(n.func) or ''
                    if 'logger' in d or 'active' in d:
                        out.append((f, n))
                elif g.cls is None:
                    e = self.prog.resolve_expr(f.module, n.func)
                    if e is g:
                        out.append((f, n))
        return out

    # -- constant origin of statement text
    def const(self, f, e, depth=0, seen=()):
        """None if `e` is built from constants only, else the node that is
        not"""
        if depth > 12:
            return e
        if isinstance(e, ast.Constant):
            return None
        if isinstance(e, ast.JoinedStr):
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    bad = self.const(f, v.value, depth + 1, seen)
                    if bad is not None:
                        return bad
            return None
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Mult):
                l = self.const(f, e.left, depth + 1, seen)
                r = self.const(f, e.right, depth + 1, seen)
                return None if l is None or r is None else l
            for x in (e.left, e.right):
                bad = self.const(f, x, depth + 1, seen)
                if bad is not None:
                    return bad
            return None
        if isinstance(e, ast.IfExp):
            return self.const(f, e.body, depth + 1, seen) or \
                self.const(f, e.orelse, depth + 1, seen)
        if isinstance(e, (ast.List, ast.Tuple)):
            for x in e.elts:
                bad = self.const(f, x, depth + 1, seen)
                if bad is not None:
                    return bad
            return None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.const(f, e.elt, depth + 1, seen)
        if isinstance(e, ast.Starred):
            return self.const(f, e.value, depth + 1, seen)
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Attribute) and fn.attr in (
                    'join', 'format', 'strip', 'upper', 'lower', 'replace',
                    'lstrip', 'rstrip'):
                for x in [fn.value] + list(e.args) + [
                        k.value for k in e.keywords]:
                    bad = self.const(f, x, depth + 1, seen)
                    if bad is not None:
                        return bad
                return None
            t = self.target(f, e)
            if t is not None:
                return self.returned(t, None, depth + 1, seen)
            return e
        if isinstance(e, ast.Name):
            return self.name(f, e, depth, seen)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == f.method_self\
                    and f.cls is not None:
                return self.attr(f, e, depth, seen)
            x = self.prog.resolve_expr(f.module, e)
            if isinstance(x, Var) and isinstance(x.value, ast.AST):
                return self.const_mod(x, depth)
            return e
        return e

    def const_mod(self, var, depth):
        e = var.value
        if isinstance(e, ast.AST):
            for n in ast.walk(e):
                if isinstance(n, (ast.Call, ast.Name)) and not (
                        isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Attribute) and
                        n.func.attr in ('join', 'format')):
                    return e
            return None
        return ast.Constant(value=None)

    def attr(self, f, e, depth, seen):
        key = (f.cls, e.attr)
        if key in seen:
            return None
        seen = seen + (key,)
        found = False
        for g in self.funcs:
            if g.cls is not f.cls:
                continue
            for n in walk_own(g.node):
                vals = []
                if isinstance(n, ast.Assign):
                    vals = [(t, n.value) for t in n.targets]
                elif isinstance(n, ast.AugAssign):
                    vals = [(n.target, n.value)]
                for t, v in vals:
                    if isinstance(t, ast.Attribute) and t.attr == e.attr:
                        found = True
                        bad = self.const(g, v, depth + 1, seen)
                        if bad is not None:
                            return bad
        for st in f.cls.node.body:
            if isinstance(st, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == e.attr
                    for t in st.targets):
                found = True
                bad = self.const(f, st.value, depth + 1, seen)
                if bad is not None:
                    return bad
        return None if found else e

    def name(self, f, e, depth, seen):
        key = (f, e.id)
        if key in seen:
            return None
        seen = seen + (key,)
        found = False
        for n in walk_own(f.node):
            vals = []
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == e.id:
                        vals.append(n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, x in enumerate(t.elts):
                            if isinstance(x, ast.Name) and x.id == e.id:
                                if isinstance(n.value, (ast.Tuple,
                                                        ast.List)):
                                    vals.append(n.value.elts[i])
                                elif isinstance(n.value, ast.Call):
                                    tg = self.target(f, n.value)
                                    found = True
                                    if tg is None:
                                        return n.value
                                    bad = self.returned(tg, i, depth + 1,
                                                        seen)
                                    if bad is not None:
                                        return bad
                                else:
                                    return n.value
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and \
                    isinstance(n.target, ast.Name) and n.target.id == e.id:
                if n.value is not None:
                    vals.append(n.value)
            elif isinstance(n, ast.NamedExpr) and n.target.id == e.id:
                vals.append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name) and x.id == e.id:
                        vals.append(n.iter)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None and any(
                            isinstance(x, ast.Name) and x.id == e.id
                            for x in ast.walk(i.optional_vars)):
                        return i.context_expr
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and isinstance(
                    n.func.value, ast.Name) and n.func.value.id == e.id \
                    and n.func.attr in ('append', 'extend', 'insert'):
                vals.append(n.args[-1])
            elif isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                    n.value.id == e.id:
                return n
        for v in vals_iter(f, e.id, self, depth, seen):
            found = True
            if v is not None:
                return v
        if e.id in f.params and e.id != f.method_self:
            found = True
            bad = self.param(f, e.id, e, depth, seen)
            if bad is not None:
                return bad
        if not found:
            if f.parent is not None and isinstance(f.parent, Func):
                return self.name(f.parent, e, depth + 1, seen)
            x = self.prog.resolve_expr(f.module, e)
            if isinstance(x, Var):
                return self.const_mod(x, depth)
            return e
        return None

    def param(self, f, p, e, depth, seen):
        d = f.defaults.get(p)
        if d is not None:
            bad = self.const(f, d, depth + 1, seen)
            if bad is not None:
                return bad
        calls = self.callers(f)
        if not calls and f.public:
            return e        # anything may be passed
        for g, c in calls:
            a = argument(f, c, p)
            if a is None:
                if d is None:
                    return e
                continue
            bad = self.const(g, a, depth + 1, seen)
            if bad is not None:
                return bad
        return None

    def returned(self, f, i, depth, seen):
        key = (f, 'ret', i)
        if key in seen:
            return None
        seen = seen + (key,)
        any_ = False
        for n in walk_own(f.node):
            if isinstance(n, ast.Return) and n.value is not None:
                any_ = True
                v = n.value
                if i is not None:
                    if isinstance(v, ast.Tuple) and i < len(v.elts):
                        v = v.elts[i]
                    else:
                        return v
                bad = self.const(f, v, depth + 1, seen)
                if bad is not None:
                    return bad
        return None if any_ else f.node

    def pieces(self, f, e, seen=()):
        """string constants that may be part of the statement text"""
        out = []
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str):
                out.append(e.value)
        elif isinstance(e, ast.Name):
            if (f, e.id) in seen:
                return out
            seen = seen + ((f, e.id),)
            for n in walk_own(f.node):
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [
                        n.target]
                    if any(isinstance(t, ast.Name) and t.id == e.id
                           for t in ts):
                        out += self.pieces(f, n.value, seen)
            if not out and e.id in f.params:
                for g, c in self.callers(f):
                    a = argument(f, c, e.id)
                    if a is not None:
                        out += self.pieces(g, a, seen)
            if not out:
                x = self.prog.resolve_expr(f.module, e)
                if isinstance(x, Var) and isinstance(x.value, ast.AST):
                    out += self.pieces(f, x.value, seen)
        elif isinstance(e, ast.Attribute):
            if f.cls is not None:
                for st in f.cls.node.body:
                    if isinstance(st, ast.Assign) and any(
                            isinstance(t, ast.Name) and t.id == e.attr
                            for t in st.targets):
                        out += self.pieces(f, st.value, seen)
        else:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    out += self.pieces(f, c, seen)
        return out

    def statements(self):
        rep = self.rep
        for f, n in self.execs:
            rep.count('statements')
            if not n.args:
                continue
            bad = self.const(f, n.args[0])
            if bad is not None:
                rep.add('statement-text', f.qual,
                        'the text of a database statement contains %s, which '
                        'is not constant: outside text becomes part of the '
                        'statement' % ast.unparse(bad)[:80],
                        f.loc(n), [f.short])
            text = ' '.join(self.pieces(f, n.args[0])).upper()
            if 'PRAGMA' in text and any(
                    w in text for w in ('SYNCHRONOUS', 'JOURNAL_MODE')):
                rep.add('durability-option', f.qual,
                        'a PRAGMA weakens the durability of the log: %s'
                        % text[:60], f.loc(n))
            if n.func.attr == 'execute':
                self.bound(f, n)
        rep.floor('statements', 2)

    def bound(self, f, n):
        """placeholders and values must correspond"""
        e = n.args[0]
        vals = n.args[1] if len(n.args) > 1 else None
        if isinstance(e, ast.Name) and isinstance(vals, ast.Tuple):
            k = self.diff(f, e, n)
            if k is not None and k != {len(vals.elts)}:
                self.rep.add('placeholders', f.qual,
                             'a statement with %s placeholders is given %d '
                             'values' % (sorted(k), len(vals.elts)),
                             f.loc(n))
            self.rep.count('bindings_checked')
            return
        if isinstance(e, ast.Name) and isinstance(vals, ast.Name) and \
                e.id in f.params and vals.id in f.params:
            for g, c in self.callers(f):
                a, b = argument(f, c, e.id), argument(f, c, vals.id)
                if isinstance(a, ast.Name) and isinstance(b, ast.Name):
                    for m in walk_own(g.node):
                        if isinstance(m, ast.Assign) and isinstance(
                                m.targets[0], ast.Tuple) and isinstance(
                                m.value, ast.Call):
                            ids = [getattr(x, 'id', None)
                                   for x in m.targets[0].elts]
                            if ids[:2] == [a.id, b.id]:
                                t = self.target(g, m.value)
                                if t is not None:
                                    self.builder(t)

    def diff(self, f, e, n):
        class W(Walk):
            exceptions = False

            def simple(w, node, state):
                if isinstance(node, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == e.id
                        for t in node.targets):
                    return [marks(node.value)]
                if isinstance(node, ast.AugAssign) and isinstance(
                        node.target, ast.Name) and node.target.id == e.id:
                    return [state + marks(node.value)]
                if any(x is n for x in ast.walk(node)):
                    got.add(state)
                return [state]
        got = set()
        W().run(f.node.body, {0})
        return got or None

    def builder(self, f):
        """function returning (text, values): placeholders appended and
        values appended agree on every path"""
        rets = [r.value for r in walk_own(f.node)
                if isinstance(r, ast.Return) and isinstance(
                    r.value, ast.Tuple) and len(r.value.elts) == 2]
        if len(rets) != 1:
            return
        vexpr = rets[0].elts[1]
        while isinstance(vexpr, ast.Call) and vexpr.args:
            vexpr = vexpr.args[0]
        if not isinstance(vexpr, ast.Name):
            return
        vname = vexpr.id
        names = {vname}
        used = set()
        bad = []

        class W(Walk):
            exceptions = False

            def simple(w, node, state):
                d = state
                if isinstance(node, ast.Constant):
                    return [d]      # docstring
                if isinstance(node, ast.Expr) and isinstance(
                        node.value, ast.Constant):
                    return [d]
                for c in ast.walk(node):
                    if isinstance(c, ast.Call) and isinstance(
                            c.func, ast.Attribute) and isinstance(
                            c.func.value, ast.Name) and \
                            c.func.value.id in names:
                        if c.func.attr == 'append':
                            d -= 1
                        elif c.func.attr == 'extend' and isinstance(
                                c.args[0], (ast.List, ast.Tuple)):
                            d -= len(c.args[0].elts)
                        else:
                            used.add('?')
                if isinstance(node, ast.AugAssign) and isinstance(
                        node.target, ast.Name) and node.target.id in names:
                    if isinstance(node.value, (ast.List, ast.Tuple)):
                        d -= len(node.value.elts)
                    else:
                        used.add('?')
                if isinstance(node, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id in names
                        for t in node.targets) and isinstance(
                        node.value, (ast.List, ast.Tuple)):
                    d -= len(node.value.elts)
                d += marks(node)
                return [d]
        try:
            o = W().run(f.node.body, {0})
        except RecursionError:
            return
        if used:
            return
        self.rep.count('bindings_checked')
        ends = {s for s, _ in o.ret} | o.normal
        if len(ends) > 8:
            return
        if ends != {0}:
            self.rep.add('placeholders', f.qual,
                         'on some path %s builds a statement whose number of '
                         'placeholders differs from the number of values'
                         % f.name, f.loc(), [f.short])

    def insert_functions(self):
        out = []
        for f, n in self.execs:
            text = ' '.join(self.pieces(f, n.args[0])).upper() if n.args \
                else ''
            if 'INSERT' in text or 'REPLACE INTO' in text:
                if f not in out:
                    out.append(f)
        return out

    def modifying(self, f, n):
        text = ' '.join(self.pieces(f, n.args[0])).upper() if n.args else ''
        return any(w in text for w in MODIFY)


def marks(node):
    return sum(n.value.count('?') for n in ast.walk(node)
               if isinstance(n, ast.Constant) and isinstance(n.value, str))


def vals_iter(f, name, db, depth, seen):
    for n in walk_own(f.node):
        vals = []
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    vals.append(n.value)
                elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(
                        n.value, (ast.Tuple, ast.List)):
                    for x, v in zip(t.elts, n.value.elts):
                        if isinstance(x, ast.Name) and x.id == name:
                            vals.append(v)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(
                n.target, ast.Name) and n.target.id == name and \
                n.value is not None:
            vals.append(n.value)
        elif isinstance(n, (ast.For, ast.comprehension)):
            if any(isinstance(x, ast.Name) and x.id == name
                   for x in ast.walk(n.target)):
                vals.append(n.iter)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and isinstance(n.func.value, ast.Name) and \
                n.func.value.id == name and n.func.attr in (
                    'append', 'extend', 'insert') and n.args:
            vals.append(n.args[-1])
        for v in vals:
            yield db.const(f, v, depth + 1, seen)


def argument(f, call, p):
    """expression passed for parameter p of f"""
    for k in call.keywords:
        if k.arg == p:
            return k.value
    pos = [x for x in f.pos]
    if f.method_self and pos and pos[0] == f.method_self:
        pos = pos[1:]
    if p in pos:
        i = pos.index(p)
        if i < len(call.args) and not any(
                isinstance(a, ast.Starred) for a in call.args[:i + 1]):
            return call.args[i]
    return None


# ------------------------------------------------------------- durability
NONE, DIRTY, DONE = 'nothing inserted', 'inserted', 'committed'


class Durable(Walk):
    exceptions = True

    def __init__(self, db, f, auto, depth=0):
        self.db, self.f, self.auto, self.depth = db, f, auto, depth

    def simple(self, node, state):
        states = {state}
        for c in calls_in(node):
            states = {x for s in states for x in self.call(c, s)}
        return states

    def call(self, c, s):
        fn = c.func
        if isinstance(fn, ast.Attribute):
            if fn.attr in EXEC:
                if self.db.modifying(self.f, c):
                    if any('INSERT' in p.upper()
                           for p in self.db.pieces(self.f, c.args[0])):
                        return [DONE if self.auto else DIRTY]
                return [s]
            if fn.attr == 'commit':
                return [DONE if s == DIRTY else s]
            if fn.attr == 'rollback':
                return [NONE if s == DIRTY else s]
        t = self.db.target(self.f, c)
        if t is not None and t is not self.f and self.depth < 4 and \
                t.module in self.db.mods and relevant(self.db, t):
            o = Durable(self.db, t, self.auto, self.depth + 1).run(
                t.node.body, {s})
            return o.normal | {x for x, _ in o.ret}
        return [s]

    def leave(self, node, s):
        for i in node.items:
            d = dotted(i.context_expr) or ''
            if d.split('.')[-1] in self.db.connections:
                return [DONE if s == DIRTY else s]
        return [s]


def relevant(db, t, seen=None):
    seen = seen or set()
    if t in seen:
        return False
    seen.add(t)
    for n in walk_own(t.node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in \
                    EXEC + ('commit', 'rollback'):
                return True
            x = db.target(t, n)
            if x is not None and x.module in db.mods and relevant(
                    db, x, seen):
                return True
    return False


def durable(rep, D, inserts):
    auto = False
    D.connections = set()
    for f in D.funcs:
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, (
                    ast.Attribute, ast.Name)):
                e = D.prog.resolve_expr(f.module, n.func)
                nm = e.name if isinstance(e, Ext) else (dotted(n.func) or '')
                if nm.startswith('sqlite3') and nm.endswith('connect'):
                    rep.count('connections')
                    for k in n.keywords:
                        if k.arg == 'isolation_level' and isinstance(
                                k.value, ast.Constant) and \
                                k.value.value is None:
                            auto = True
                        if k.arg == 'autocommit' and isinstance(
                                k.value, ast.Constant) and k.value.value:
                            auto = True
                    arg = n.args[0] if n.args else None
                    if isinstance(arg, ast.Constant) and arg.value in (
                            ':memory:', ''):
                        rep.add('durability-option', f.qual,
                                'the log database is kept in memory',
                                f.loc(n))
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) \
                    and (dotted(n.value.func) or '').endswith('connect'):
                for t in n.targets:
                    if dotted(t):
                        D.connections.add(dotted(t).split('.')[-1])
    rep.floor('connections', 1)
    # the outermost functions on the way to an insertion
    todo = list(inserts)
    entry = []
    for f in todo:
        direct = Durable(D, f, auto).run(f.node.body, {NONE})
        ends = direct.normal | {s for s, _ in direct.ret}
        if ends <= {DIRTY, NONE} and DIRTY in ends and not f.public and \
                f.name != 'log':
            # a helper: its callers commit
            up = [g for g, _ in D.callers(f)]
            if up:
                todo += [g for g in up if g not in todo]
                continue
        entry.append((f, direct, ends))
    for f, o, ends in entry:
        rep.count('inserting_operations')
        for s in sorted(ends - {DONE}):
            what = {DIRTY: 'without committing the entry it inserted',
                    NONE: 'without having inserted the entry'}[s]
            where = [n for st, n in o.ret if st == s]
            rep.add('not-durable', '%s:%s' % (f.qual, s),
                    '%s can return %s' % (f.name, what),
                    f.loc(where[0] if where else None), [f.short])
    rep.floor('inserting_operations', 1)
    D.entries = [f for f, _, _ in entry]


# ----------------------------------------------------------------- viewer
def string_dict(node):
    return isinstance(node, ast.Dict) and node.keys and all(
        isinstance(k, ast.Constant) and isinstance(k.value, str)
        for k in node.keys)


def viewer(rep, D, inserts):
    prog = D.prog
    cls = next((f.cls for f in D.entries if f.cls is not None), None)
    if cls is None:
        raise AnalysisError('the log writer is not a method')
    # registered writers
    registry, reg_loc = {}, None
    for f in D.funcs:
        if f.cls is not cls:
            continue
        for n in walk_own(f.node):
            if string_dict(n):
                got = {}
                for k, v in zip(n.keys, n.values):
                    if isinstance(v, ast.Attribute) and isinstance(
                            v.value, ast.Name) and \
                            v.value.id == f.method_self and \
                            cls.lookup(v.attr):
                        got[k.value] = cls.lookup(v.attr)
                if len(got) == len(n.keys) and len(got) > len(registry):
                    registry, reg_loc = got, f.loc(n)
    if not registry:
        raise AnalysisError('no registry of log writers found')
    # builders of the viewer
    builders = {}
    for m in D.mods:
        for n in ast.walk(m.tree):
            if string_dict(n):
                got = {}
                for k, v in zip(n.keys, n.values):
                    if isinstance(v, ast.Tuple) and v.elts:
                        v = v.elts[0]
                    if isinstance(v, ast.Name):
                        g = next((g for g in D.by_name.get(v.id, [])
                                  if g.cls is None), None)
                        if g is not None:
                            got[k.value] = g
                if len(got) == len(n.keys) and len(got) > len(builders):
                    builders = got
    if not builders:
        raise AnalysisError('no table of log viewer builders found')
    gateway_calls(rep, D, registry)
    stored = {}
    for kind, w in sorted(registry.items()):
        for k2, keys in written(rep, D, w):
            if k2 is None:
                rep.add('entry-kind', w.qual,
                        'the kind of entry %s stores is not a constant'
                        % w.name, w.loc())
                continue
            stored.setdefault((k2, w), set()).add(keys)
    if not stored:
        raise AnalysisError('no writer stores an entry')
    for (kind, w), keysets in sorted(stored.items(),
                                     key=lambda x: (x[0][0], x[0][1].qual)):
        rep.count('entry_kinds')
        b = builders.get(kind)
        if b is None:
            rep.add('no-builder', kind,
                    '%s stores entries of kind %r, which the log viewer does '
                    'not know' % (w.name, kind), w.loc())
            continue
        rep.count('key_combinations', len(keysets))
        missing = {}
        named = named_strings(D, b)
        for ks in {frozenset(k & named) for k in keysets}:
            for key, node, fn in needs(D, b, ks):
                missing.setdefault(key, (node, fn))
        for key, (node, fn) in sorted(missing.items()):
            rep.add('missing-key', '%s:%s' % (kind, key),
                    'the viewer of %r entries reads %r, which %s does not '
                    'store on every path' % (kind, key, w.name),
                    fn.loc(node), [w.short, b.short])
    rep.floor('entry_kinds', 4)
    fallback(rep, D, builders)


def gateway_calls(rep, D, registry):
    """calls of the gateway: kind registered, arguments fit the writer"""
    gates = set()
    for f in D.prog.funcs:
        if f.module not in D.mods or f.cls is not None:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, ast.Load) and isinstance(n.slice, ast.Name) and \
                    n.slice.id in f.params and isinstance(
                    n.value, ast.Attribute):
                gates.add((f, n.slice.id))
    if not gates:
        raise AnalysisError('no log gateway found')
    for gate, kp in gates:
        for f, c in D.callers(gate):
            rep.count('gateway_calls')
            a = argument(gate, c, kp)
            kinds = consts_of(f, a)
            if kinds is None:
                rep.sample('gateway_calls_with_other_kinds', f.loc(c))
                continue
            for kind in kinds:
                w = registry.get(kind)
                if w is None:
                    rep.add('unknown-kind', '%s:%s' % (f.qual, kind),
                            '%s logs an entry of kind %r, for which no '
                            'writer is registered' % (f.name, kind),
                            f.loc(c))
                    continue
                fits(rep, D, gate, kp, f, c, kind, w)
    rep.floor('gateway_calls', 10)


def consts_of(f, a):
    if isinstance(a, ast.Constant):
        return [a.value]
    if isinstance(a, ast.IfExp):
        x, y = consts_of(f, a.body), consts_of(f, a.orelse)
        return None if x is None or y is None else x + y
    if isinstance(a, ast.Name):
        out = []
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == a.id
                    for t in n.targets):
                x = consts_of(f, n.value)
                if x is None:
                    return None
                out += x
        return out or None
    return None


def fits(rep, D, gate, kp, f, c, kind, w):
    """bind the rest of the gateway arguments to the writer"""
    if any(isinstance(a, ast.Starred) for a in c.args) or any(
            k.arg is None for k in c.keywords):
        rep.count('gateway_calls_unpacked')
        return
    # gateway(useLog, kind, *args, **kwargs) -> writer(useLog, *args, **kw)
    gp = list(gate.pos)
    npos = len(c.args)
    used = min(npos, len(gp))
    rest = c.args[used:]
    kws = [k.arg for k in c.keywords if k.arg not in gp]
    wp = list(w.pos)
    if w.method_self and wp[0] == w.method_self:
        wp = wp[1:]
    wp = wp[len(gp) - 1:]       # without useLog
    rep.count('writer_calls_bound')
    problems = []
    if len(rest) > len(wp) and not w.vararg:
        problems.append('%d values for %d parameters' % (len(rest), len(wp)))
    got = set(wp[:len(rest)])
    for k in kws:
        if k in got:
            problems.append('two values for %s' % k)
        elif k not in wp and k not in w.kwonly and not w.kwarg:
            problems.append('no parameter %s' % k)
        got.add(k)
    for p in wp:
        if p not in got and p not in w.defaults:
            problems.append('no value for %s' % p)
    for p in problems:
        rep.add('writer-arguments', '%s:%s' % (f.qual, kind),
                'the %r entry logged by %s does not fit %s: %s' % (
                    kind, f.name, w.name, p), f.loc(c), [w.short])


class Keys(Walk):
    """state: (tracked dictionaries, constants): frozensets of pairs"""
    exceptions = False

    def __init__(self, D, f, env, depth=0):
        self.D, self.f, self.depth = D, f, depth
        self.env = dict(local_consts(D, f), **env)
        self.found = []

    def const(self, e):
        return fold(e, self.env)

    def simple(self, node, state):
        states = {state}
        for c in calls_in(node):
            states = {x for s in states for x in self.call(c, s)}
        if isinstance(node, ast.Assign):
            for t in node.targets:
                states = {x for s in states
                          for x in self.assign(t, node.value, s)}
        elif isinstance(node, ast.AugAssign):
            if isinstance(node.target, ast.Name) and isinstance(
                    node.op, ast.BitOr):
                states = {x for s in states for x in self.merge(
                    node.target.id, node.value, s)}
        return states

    def assign(self, t, v, s):
        if isinstance(t, (ast.Tuple, ast.List)):
            out = {s}
            for x in t.elts:
                out = {z for y in out for z in self.assign(x, None, y)}
            return out
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            k = self.const(t.slice)
            d = dict(s)
            if t.value.id in d and k is not None:
                d[t.value.id] = d[t.value.id] | {k}
                return [frozenset(d.items())]
            return [s]
        if isinstance(t, ast.Name):
            out = []
            for ks in self.value(v, s):
                d = dict(s)
                d.pop(t.id, None)
                if ks is not None:
                    d[t.id] = ks
                out.append(frozenset(d.items()))
            return out
        return [s]

    def value(self, v, s):
        """key sets of a dictionary value, [None] if it is not one"""
        if isinstance(v, ast.Dict):
            ks = frozenset()
            outs = [frozenset()]
            for k, x in zip(v.keys, v.values):
                if k is None:
                    sub = self.value(x, s)
                    outs = [o | (u or frozenset()) for o in outs
                            for u in sub]
                else:
                    c = self.const(k)
                    if c is not None:
                        outs = [o | {c} for o in outs]
            return outs
        if isinstance(v, ast.Call):
            if isinstance(v.func, ast.Name) and v.func.id == 'dict':
                base = [frozenset()]
                if v.args:
                    base = [b or frozenset() for b in self.value(
                        v.args[0], s)]
                kw = frozenset(k.arg for k in v.keywords if k.arg)
                for k in v.keywords:
                    if k.arg is None:
                        base = [b | (u or frozenset()) for b in base
                                for u in self.value(k.value, s)]
                return [b | kw for b in base]
            t = self.D.target(self.f, v)
            if t is not None and self.depth < 4 and t.module in self.D.mods:
                return self.helper(t, v, s)
        if isinstance(v, ast.Name):
            d = dict(s)
            return [d.get(v.id)]
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.BitOr):
            return [(a or frozenset()) | (b or frozenset())
                    for a in self.value(v.left, s)
                    for b in self.value(v.right, s)]
        return [None]

    def helper(self, t, call, s):
        env = {}
        init = {}
        d = dict(s)
        for p in t.params:
            a = argument(t, call, p)
            if a is None:
                continue
            c = self.const(a)
            if c is not None:
                env[p] = c
            if isinstance(a, ast.Name) and a.id in d:
                init[p] = d[a.id]
        w = Keys(self.D, t, env, self.depth + 1)
        o = w.run(t.node.body, {frozenset(init.items())})
        self.found += w.found
        outs = set()
        for st, n in o.ret:
            for ks in w.value(n.value, st) if n.value is not None else [None]:
                outs.add(ks)
        if o.normal:
            outs.add(None)
        return list(outs) or [None]

    def merge(self, name, v, s):
        d = dict(s)
        if name not in d:
            return [s]
        out = []
        for ks in self.value(v, s):
            e = dict(d)
            e[name] = d[name] | (ks or frozenset())
            out.append(frozenset(e.items()))
        return out

    def call(self, c, s):
        fn = c.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            if fn.attr == 'update' and fn.value.id in dict(s):
                out = {s}
                for a in c.args:
                    out = {x for y in out
                           for x in self.merge(fn.value.id, a, y)}
                kw = frozenset(k.arg for k in c.keywords if k.arg)
                if kw:
                    o2 = set()
                    for y in out:
                        d = dict(y)
                        d[fn.value.id] = d[fn.value.id] | kw
                        o2.add(frozenset(d.items()))
                    out = o2
                return out
            if fn.attr == 'setdefault' and fn.value.id in dict(s) and c.args:
                k = self.const(c.args[0])
                if k is not None:
                    d = dict(s)
                    d[fn.value.id] = d[fn.value.id] | {k}
                    return [frozenset(d.items())]
            if fn.attr in ('pop', '__delitem__') and fn.value.id in dict(s) \
                    and c.args:
                k = self.const(c.args[0])
                d = dict(s)
                d[fn.value.id] = d[fn.value.id] - {k}
                return [frozenset(d.items())]
        t = self.D.target(self.f, c)
        if t is None:
            return [s]
        if t in self.D.entries:
            pos = [p for p in t.pos if p != t.method_self]
            ka, ia = argument(t, c, pos[0]), argument(t, c, pos[1])
            kind = self.const(ka) if ka is not None else None
            for ks in self.value(ia, s):
                self.found.append((kind, ks))
            return [s]
        if self.depth < 4 and t.module in self.D.mods and self.stores(t):
            # passes a dictionary on to be completed, or writes the entry
            d = dict(s)
            env, init, back = {}, {}, {}
            for p in t.params:
                a = argument(t, c, p)
                if a is None:
                    continue
                v = self.const(a)
                if v is not None:
                    env[p] = v
                if isinstance(a, ast.Name) and a.id in d:
                    init[p] = d[a.id]
                    back[p] = a.id
            w = Keys(self.D, t, env, self.depth + 1)
            o = w.run(t.node.body, {frozenset(init.items())})
            self.found += w.found
            out = set()
            for st in o.normal | {x for x, _ in o.ret}:
                e = dict(d)
                ds = dict(st)
                for p, nm in back.items():
                    if p in ds:
                        e[nm] = ds[p]
                out.add(frozenset(e.items()))
            return out or [s]
        return [s]

    def stores(self, t, seen=None):
        seen = seen or set()
        if t in seen:
            return False
        seen.add(t)
        for n in walk_own(t.node):
            if isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                    n.value.id in t.params:
                return True
            if isinstance(n, ast.Call):
                x = self.D.target(t, n)
                if x is not None and (x in self.D.entries or (
                        x.module in self.D.mods and self.stores(x, seen))):
                    return True
        return False


def local_consts(D, f):
    """locals (and module names) with one string value"""
    vals, bad = {}, set(f.params)
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    vals.setdefault(t.id, []).append(n.value)
                else:
                    bad |= {x.id for x in ast.walk(t) if isinstance(
                        x, ast.Name) and isinstance(x.ctx, ast.Store)}
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            vals.setdefault(n.id, [])
            vals[n.id].append(n)
    out = {}
    for n in walk_own(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                n.id not in vals and n.id not in bad:
            x = D.prog.resolve_expr(f.module, n)
            v = getattr(x, 'value', None)
            if isinstance(v, ast.Constant) and isinstance(v.value, str):
                out[n.id] = v.value
    for name, vs in vals.items():
        if name in bad:
            continue
        vs = [v for v in vs if not (isinstance(v, ast.Name) and
                                    v.id == name)]
        got = {fold(v, out) for v in vs}
        if len(got) == 1 and None not in got:
            out[name] = got.pop()
    return out


def fold(e, env):
    if isinstance(e, ast.Constant):
        return e.value if isinstance(e.value, str) else None
    if isinstance(e, ast.Name):
        return env.get(e.id)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = fold(e.left, env), fold(e.right, env)
        return None if a is None or b is None else a + b
    if isinstance(e, ast.JoinedStr):
        out = ''
        for v in e.values:
            x = fold(v.value if isinstance(v, ast.FormattedValue) else v,
                     env)
            if x is None:
                return None
            out += x
        return out
    return None


def written(rep, D, w):
    k = Keys(D, w, {})
    k.run(w.node.body, {frozenset()})
    out = set()
    for kind, ks in k.found:
        if ks is None:
            continue
        out.add((kind, ks))
    if not k.found:
        rep.add('writes-nothing', w.qual,
                'the registered writer %s stores no entry' % w.name, w.loc())
    return out


class Reads(Walk):
    """what a builder reads from an entry with the given keys; state: names
    known to be missing"""
    exceptions = False

    def __init__(self, D, f, entry, keys, env, depth=0):
        self.D, self.f, self.entry, self.keys = D, f, entry, keys
        self.env, self.depth = env, depth
        self.missing = []

    def simple(self, node, state):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            return [state]
        if isinstance(node, ast.Assign):
            self.expr(node.value, state)
            for t in node.targets:
                if isinstance(t, ast.Name):
                    state = state - {t.id}
                    if self.absent(node.value, state):
                        state = state | {t.id}
                else:
                    self.expr(t, state)
            return [state]
        if isinstance(node, ast.expr):
            if not isinstance(node, (ast.BoolOp, ast.UnaryOp)):
                self.expr(node, state)
            return [state]
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.expr):
                self.expr(c, state)
        return [state]

    def is_entry(self, e):
        return isinstance(e, ast.Name) and e.id == self.entry

    def absent(self, e, state):
        """is the value of e certainly None or empty"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                e.func.attr == 'get' and self.is_entry(e.func.value) and \
                e.args:
            k = fold(e.args[0], self.env)
            d = e.args[1] if len(e.args) > 1 else None
            falsy = d is None or (isinstance(d, ast.Constant)
                                  and not d.value) or (
                isinstance(d, (ast.Dict, ast.List, ast.Tuple)) and not (
                    getattr(d, 'elts', None) or getattr(d, 'keys', None)))
            return k is not None and k not in self.keys and falsy
        return isinstance(e, ast.Name) and e.id in state

    def branch(self, test, state):
        r = self.truth(test, state, True)
        return ([state] if r is not False else [],
                [state] if r is not True else [])

    def truth(self, t, state, check=False):
        if isinstance(t, ast.BoolOp):
            isand = isinstance(t.op, ast.And)
            unknown = False
            for v in t.values:
                r = self.truth(v, state, check)
                if check and isinstance(v, ast.expr) and not isinstance(
                        v, (ast.BoolOp, ast.UnaryOp)):
                    self.expr(v, state)
                if r is None:
                    unknown = True
                elif r is not isand:
                    return None if unknown and False else r
            return None if unknown else isand
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            if check and not isinstance(t.operand, (ast.BoolOp,
                                                    ast.UnaryOp)):
                self.expr(t.operand, state)
            r = self.truth(t.operand, state, check)
            return None if r is None else not r
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op = t.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)) and self.is_entry(
                    t.comparators[0]):
                k = fold(t.left, self.env)
                if k is None:
                    return None
                r = k in self.keys
                return r if isinstance(op, ast.In) else not r
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(
                    t.comparators[0], ast.Constant) and \
                    t.comparators[0].value is None and \
                    self.absent(t.left, state):
                return isinstance(op, ast.Is)
            return None
        if self.absent(t, state):
            return False
        return None

    def expr(self, e, state):
        if isinstance(e, ast.BoolOp):
            self.truth(e, state, True)
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, state)
            r = self.truth(e.test, state)
            if r is not False:
                self.expr(e.body, state)
            if r is not True:
                self.expr(e.orelse, state)
            return
        if isinstance(e, ast.Subscript) and self.is_entry(e.value) and \
                isinstance(e.ctx, ast.Load):
            k = fold(e.slice, self.env)
            if k is not None and k not in self.keys:
                self.missing.append((k, e, self.f))
        if isinstance(e, ast.Call):
            t = self.D.target(self.f, e)
            if t is not None and self.depth < 4 and t.module in self.D.mods:
                for p in t.params:
                    a = argument(t, e, p)
                    if a is not None and self.is_entry(a):
                        env = {}
                        for q in t.params:
                            b = argument(t, e, q)
                            if b is None:
                                b = t.defaults.get(q)
                            c = fold(b, self.env) if b is not None else None
                            if c is not None:
                                env[q] = c
                        w = Reads(self.D, t, p, self.keys, env,
                                  self.depth + 1)
                        w.run(t.node.body, {frozenset()})
                        self.missing += w.missing
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, state)
            elif isinstance(c, (ast.keyword, ast.FormattedValue)):
                self.expr(c.value, state)
            elif isinstance(c, ast.comprehension):
                self.expr(c.iter, state)


def named_strings(D, b, seen=None):
    """the string constants a builder (with its helpers) mentions"""
    seen = set() if seen is None else seen
    if b in seen:
        return set()
    seen.add(b)
    out = set(local_consts(D, b).values())
    for n in ast.walk(b.node):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            out.add(n.value)
        elif isinstance(n, ast.Call):
            t = D.target(b, n)
            if t is not None and t.module in D.mods:
                out |= named_strings(D, t, seen)
    parts = [x for x in out if x and len(x) < 30][:80]
    return out | {x + y for x in parts for y in parts}


def needs(D, b, keys):
    # the entry is the parameter of which keys are read
    best, n = None, -1
    for p in b.params:
        k = sum(1 for x in walk_own(b.node) if isinstance(x, ast.Subscript)
                and isinstance(x.value, ast.Name) and x.value.id == p)
        k += sum(1 for x in walk_own(b.node) if isinstance(x, ast.Call)
                 and any(isinstance(a, ast.Name) and a.id == p
                         for a in x.args)) * 0.5
        if k > n:
            best, n = p, k
    if best is None:
        return []
    w = Reads(D, b, best, keys, {})
    w.run(b.node.body, {frozenset()})
    return w.missing


def handled(f, node):
    """names of the exception types caught around `node` in f, per try"""
    out = set()

    def rec(stmts, cover):
        for s in stmts:
            if any(x is node for x in ast.walk(s)):
                if isinstance(s, ast.Try):
                    inbody = any(x is node for b in s.body
                                 for x in ast.walk(b))
                    c = set(cover)
                    if inbody:
                        for h in s.handlers:
                            if h.type is None:
                                c.add('Exception')
                            else:
                                ts = h.type.elts if isinstance(
                                    h.type, ast.Tuple) else [h.type]
                                c |= {(dotted(t) or '?').split('.')[-1]
                                      for t in ts}
                        rec(s.body, c)
                    else:
                        for part in (s.orelse, s.finalbody):
                            rec(part, cover)
                        for h in s.handlers:
                            rec(h.body, cover)
                    return
                subs = [getattr(s, k) for k in ('body', 'orelse')
                        if isinstance(getattr(s, k, None), list)]
                hit = False
                for sub in subs:
                    if any(x is node for b in sub for x in ast.walk(b)):
                        rec(sub, cover)
                        hit = True
                if not hit:
                    out.update(cover)
                    out.add('<found>')
    rec(f.node.body, set())
    return out


def covers(got, name):
    return name in got or 'Exception' in got or 'BaseException' in got


def fallback(rep, D, builders):
    """values the viewer cannot interpret are shown as they are"""
    bset = set(builders.values())
    for f in D.funcs:
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call):
                continue
            nm = (dotted(n.func) or '').split('.')[-1]
            if nm == 'literal_eval':
                rep.count('interpreted_values')
                got = handled(f, n)
                for exc in ('ValueError', 'SyntaxError'):
                    if not covers(got, exc):
                        rep.add('not-readable', '%s:literal_eval:%s' % (
                            f.qual, exc),
                            'an entry that is no literal (%s) stops %s' % (
                                exc, f.name), f.loc(n))
            elif isinstance(n.func, ast.Name) and builder_var(
                    f, n.func.id, bset):
                rep.count('builder_calls')
                got = handled(f, n)
                for exc in ('TypeError', 'KeyError'):
                    if not covers(got, exc):
                        rep.add('not-readable', '%s:builder:%s' % (
                            f.qual, exc),
                            'an entry of an unexpected form (%s) stops the '
                            'viewer in %s' % (exc, f.name), f.loc(n))
    rep.floor('interpreted_values', 1)


def builder_var(f, name, bset):
    """is the local `name` taken out of the table of builders"""
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, (
                ast.Subscript, ast.Call)):
            base = n.value.value if isinstance(n.value, ast.Subscript) else \
                getattr(n.value.func, 'value', None)
            if isinstance(base, ast.Name):
                e = f.module.symbols.get(base.id) if hasattr(
                    f.module, 'symbols') else None
                v = getattr(e, 'value', None)
                if string_dict(v):
                    for t in n.targets:
                        if any(isinstance(x, ast.Name) and x.id == name
                               for x in ast.walk(t)):
                            return True
    return False


# ------------------------------------------------------------- describing
def describing(rep, D, inserts):
    """functions describing caller values must not fail on them"""
    for f in D.funcs:
        tainted = {p for p in (f.vararg, f.kwarg) if p}
        if not tainted:
            continue
        changed = True
        while changed:
            changed = False
            for n in walk_own(f.node):
                src, tgt = None, None
                if isinstance(n, ast.Assign):
                    src, tgt = n.value, n.targets
                elif isinstance(n, (ast.For, ast.comprehension)):
                    src, tgt = n.iter, [n.target]
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr in (
                        'update', 'append', 'extend'):
                    if any(isinstance(x, ast.Name) and x.id in tainted
                           for a in n.args for x in ast.walk(a)):
                        b = n.func.value
                        if isinstance(b, ast.Name) and b.id not in tainted:
                            tainted.add(b.id)
                            changed = True
                    continue
                if src is None:
                    continue
                if isinstance(src, ast.Call) and isinstance(
                        src.func, ast.Name) and src.func.id in (
                        'str', 'len', 'repr', 'isinstance', 'callable'):
                    continue
                if any(isinstance(x, ast.Name) and x.id in tainted
                       for x in ast.walk(src)):
                    for t in tgt:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(
                                    x.ctx, ast.Store) and \
                                    x.id not in tainted:
                                tainted.add(x.id)
                                changed = True
                            elif isinstance(x, ast.Subscript) and \
                                    isinstance(x.value, ast.Name) and \
                                    x.value.id not in tainted:
                                tainted.add(x.value.id)
                                changed = True
        values = value_names(f, tainted)
        for n in walk_own(f.node):
            tests = []
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                tests = [n.test]
            elif isinstance(n, ast.comprehension):
                tests = n.ifs
            for t in tests:
                for c in ast.walk(t):
                    if isinstance(c, ast.Compare) and any(isinstance(
                            o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn))
                            for o in c.ops) and any(
                            isinstance(x, ast.Name) and x.id in values
                            for x in [c.left] + c.comparators):
                        rep.count('comparisons_of_caller_values')
                        got = handled(f, c)
                        if not covers(got, 'ValueError'):
                            rep.add('describing-fails', f.qual,
                                    'describing the arguments of a call for '
                                    'the log compares a value the caller '
                                    'gave (%s): for an array the truth of '
                                    'the comparison is a ValueError, which '
                                    'ends the logged call' % ast.unparse(c),
                                    f.loc(c), [f.short])


def value_names(f, tainted):
    """names that hold the values themselves (not their names)"""
    out = set(tainted)
    for n in walk_own(f.node):
        if isinstance(n, (ast.For, ast.comprehension)):
            t = n.target
            it = n.iter
            if isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(
                    it, ast.Call) and isinstance(
                    it.func, ast.Attribute) and it.func.attr == 'items' and \
                    isinstance(t.elts[0], ast.Name):
                out.discard(t.elts[0].id)
            if isinstance(t, ast.Tuple) and isinstance(it, ast.Call) and \
                    isinstance(it.func, ast.Name) and it.func.id == 'zip':
                for x, a in zip(t.elts, it.args):
                    if isinstance(a, ast.Name) and a.id not in tainted and \
                            isinstance(x, ast.Name):
                        out.discard(x.id)
    return out
