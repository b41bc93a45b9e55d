"""C10 a rejected call leaves the data object unchanged"""
import ast
from ..absint import Interp, Domain, Summary, InlineSummary, Closure
from ..model import AnalysisError, Func, walk_own, dotted
from .effects import Effects, public_methods, CONTENT, guarded_no_names

EXPLANATION = """
Typestate analysis over every public operation that changes a data object, its
points or its features, for each storage type, through every package function
the operation runs (interprocedural, flow-sensitive, per receiver class). An
object leaves the state 'unchanged' at the first write to its stored data,
dimensions or names; raising one of the package's own exceptions about a value
the caller gave, or about the state of the object, is only allowed before that.
A raise is about the values its controlling conditions are computed from; that
dependence is followed outwards through the calls as long as the value handed
on is the caller's own (under another name, an attribute, an element, a copy of
it, or what a function of the caller returned) and ends where the operation
computed a new value itself (those checks are internal consistency checks).
An exception handled and not raised again, a write undone by the handler before
it raises again, and writes that change no content (ordering caches, names
created lazily as empty) do not count."""

ASSUMPTIONS = [
    'checks of values an operation computed itself do not refuse them',
    'library calls are given what they accept (their exceptions are not the '
    'package\'s own)',
]

NOTES = ('rs', 'late')
# calls that hand on the very value they are given
SAME = {'copy', 'deepcopy', 'list', 'tuple', 'iter', 'enumerate', 'reversed',
        'zip', 'dict', 'items', 'values', 'keys', 'set', 'next', 'view'}
# calls that put their last argument into a collection
ADD = {'append', 'extend', 'insert', 'add', 'update'}


def plain(deps):
    return frozenset(x.rstrip('*+') for x in deps)


class Part:
    """what is put into a collection: one element or several"""

    def __init__(self, value, several):
        self.value, self.several = value, several


class Depends:
    """what the condition of a raise is computed from, and what is handed on
    unchanged, in terms of the parameters of one function"""

    def __init__(self, prog):
        self.prog = prog
        self._taint, self._par = {}, {}

    def chain(self, f):
        out = []
        while f is not None:
            out.append(f)
            f = f.parent
        return out

    def assigned(self, f):
        """(target name, value expression, elementwise) of f itself"""
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    yield t, n.value
            elif isinstance(n, ast.AugAssign):
                yield n.target, n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                yield n.target, n.value
            elif isinstance(n, (ast.For, ast.comprehension)):
                yield n.target, n.iter
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                yield n.optional_vars, n.context_expr
            elif isinstance(n, ast.NamedExpr):
                yield n.target, n.value

    @staticmethod
    def names(t):
        return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]

    def taint(self, f):
        """variable -> parameters (of f or a function around it) its value
        may be computed from; nested functions see the variables around"""
        got = self._taint.get(f)
        if got is not None:
            return got
        got = dict(self.taint(f.parent)) if f.parent is not None else {}
        for p in f.params:
            got[p] = frozenset([p])
        if f.parent is not None:
            for p in f.params:
                # what the function is called with
                got[p] = frozenset(['<called>'])
        self._taint[f] = got
        changed = True
        while changed:
            changed = False
            for t, v in self.assigned(f):
                src = self.of(got, v)
                for x in self.names(t):
                    new = got.get(x, frozenset()) | src
                    if new != got.get(x):
                        got[x] = new
                        changed = True
        return got

    @staticmethod
    def of(taint, expr):
        out = frozenset()
        for n in ast.walk(expr):
            if isinstance(n, ast.Name):
                out |= taint.get(n.id, frozenset())
        return out

    def parents(self, f):
        got = self._par.get(f)
        if got is None:
            got = {}
            for n in ast.walk(f.node):
                for c in ast.iter_child_nodes(n):
                    got[c] = n
            self._par[f] = got
        return got

    def controls(self, f, node):
        """expressions deciding whether `node` is reached"""
        par = self.parents(f)
        out = []
        c = node
        while c is not f.node and c in par:
            p = par[c]
            if isinstance(p, (ast.If, ast.While, ast.IfExp)) and \
                    c is not p.test:
                out.append(p.test)
            elif isinstance(p, ast.For) and c is not p.iter:
                out.append(p.iter)
            elif isinstance(p, ast.ExceptHandler):
                t = par[p]
                if isinstance(t, ast.Try):
                    out.extend(t.body)
            elif isinstance(p, ast.Try) and c in p.orelse:
                out.extend(p.body)
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(p, fld, None)
                if isinstance(b, list) and c in b:
                    for s in b[:b.index(c)]:
                        if isinstance(s, ast.If) and any(
                                isinstance(x, (ast.Return, ast.Continue,
                                               ast.Break))
                                for x in ast.walk(s)):
                            out.append(s.test)
            c = p
        return out

    def needs(self, f, node):
        """parameters that are not None where `node` is reached"""
        par, out = self.parents(f), set()
        c = node
        while c is not f.node and c in par:
            p = par[c]
            if isinstance(p, ast.If) and c is not p.test:
                t = p.test
                if isinstance(t, ast.Compare) and isinstance(
                        t.left, ast.Name) and isinstance(
                        t.comparators[0], ast.Constant) and \
                        t.comparators[0].value is None and \
                        isinstance(t.ops[0], (ast.IsNot, ast.Is)):
                    if isinstance(t.ops[0], ast.IsNot) == (c in p.body):
                        out.add(t.left.id)
            c = p
        return out

    def of_raise(self, f, node):
        t = self.taint(f)
        out = frozenset()
        for e in self.controls(f, node):
            out |= self.of(t, e)
        # the elements of what a loop around it goes through
        par = self.parents(f)
        c = node
        while c is not f.node and c in par:
            p = par[c]
            if isinstance(p, ast.For) and c in p.body:
                out |= frozenset(x + '*' for x in self.of(t, p.iter)
                                 if x in f.params)
            c = p
        return out

    # -- identity
    def identity(self, f, e, seen=()):
        """parameters of f (or '<called>': what a nested function is called
        with) of which e, where it stands, is the value, a part or a copy"""
        if isinstance(e, Part):
            return frozenset(
                x if x[-1] in '*+' else x + ('*' if e.several else '+')
                for x in self.identity(f, e.value, seen))
        if isinstance(e, ast.Name):
            if (e.id, f) in seen:
                return frozenset()
            return self.reaching(f, e.id, e, seen + ((e.id, f),))
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            return self.identity(f, e.value, seen)
        if isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
            return frozenset(x.rstrip('*+') for x in self.identity(
                f, e.value, seen))
        if isinstance(e, ast.IfExp):
            return self.identity(f, e.body, seen) | self.identity(
                f, e.orelse, seen)
        if isinstance(e, ast.BoolOp):
            return self.all_of(f, e.values, seen)
        if isinstance(e, (ast.Tuple, ast.List)):
            return self.all_of(f, e.elts, seen)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return frozenset(x if x[-1] in '*+' else x + '*'
                             for x in self.all_of(f, [e.left, e.right], seen))
        if isinstance(e, ast.NamedExpr):
            return self.identity(f, e.value, seen)
        if isinstance(e, ast.Lambda):
            return self.calls_of(f, e, seen)
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name):
                if fn.id in SAME or self.wraps(f, fn):
                    return self.all_of(f, e.args, seen)
                # what a function of the caller returned
                return self.identity(f, fn, seen)
            if isinstance(fn, ast.Attribute) and fn.attr in SAME:
                if isinstance(fn.value, ast.Name) and fn.value.id == 'copy':
                    return self.all_of(f, e.args, seen)
                return self.identity(f, fn.value, seen)
        return frozenset()

    def wraps(self, f, fn):
        """a package function that returns a function around its argument"""
        g = self.prog.resolve_name(f.module, fn.id)
        if not isinstance(g, Func):
            return False
        inner = {n.name for n in walk_own(g.node)
                 if isinstance(n, ast.FunctionDef)}
        return any(isinstance(n, ast.Return) and isinstance(
            n.value, ast.Name) and n.value.id in inner
            for n in walk_own(g.node))

    def calls_of(self, f, d, seen):
        """what a nested function calls"""
        out = frozenset()
        for n in ast.walk(d):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id not in SAME:
                if (n.func.id, f) not in seen:
                    out |= self.reaching(f, n.func.id, d, seen + (
                        (n.func.id, f),))
        return out

    def all_of(self, f, es, seen):
        return frozenset().union(*[self.identity(f, x, seen) for x in es])

    def reaching(self, f, name, use, seen):
        """identity of a variable at a use: of the assignments that reach"""
        par = self.parents(f)
        out = frozenset()
        c = use
        while c is not f.node and c in par:
            p = par[c]
            if isinstance(p, (ast.Lambda, ast.FunctionDef)) and \
                    p is not f.node and name in [
                        a.arg for a in p.args.args]:
                return out
            if isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                              ast.DictComp)):
                for g in p.generators:
                    if g is not c and name in self.names(g.target) or \
                            g is c and use is not g.iter and name in \
                            self.names(g.target):
                        return out | self.identity(f, g.iter, seen)
            if isinstance(p, ast.For) and c is not p.iter and \
                    c is not p.target:
                if name in self.names(p.target):
                    return out | self.identity(f, p.iter, seen)
            if isinstance(p, (ast.For, ast.While)) and c in p.body:
                for v in self.inside(p.body, name):
                    out |= self.identity(f, v, seen)
            if isinstance(p, ast.With):
                for w in p.items:
                    if w.optional_vars is not None and name in self.names(
                            w.optional_vars):
                        return out | self.identity(f, w.context_expr, seen)
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(p, fld, None)
                if not (isinstance(b, list) and c in b):
                    continue
                for s in reversed(b[:b.index(c)]):
                    if isinstance(s, ast.FunctionDef) and s.name == name:
                        return out | self.calls_of(f, s, seen)
                    if isinstance(s, ast.Assign) and any(
                            name in self.names(t) and not isinstance(
                                t, (ast.Attribute, ast.Subscript))
                            for t in s.targets):
                        v = s.value
                        t = s.targets[0]
                        if isinstance(t, ast.Tuple) and isinstance(
                                v, ast.Tuple) and len(t.elts) == len(v.elts):
                            for x, y in zip(t.elts, v.elts):
                                if name in self.names(x):
                                    v = y
                        return out | self.identity(f, v, seen)
                    for v in self.inside([s], name):
                        out |= self.identity(f, v, seen)
                    if self.always(s, name):
                        return out
            c = p
        if name in f.params:
            return out | frozenset([name] if f.parent is None
                                   else ['<called>'])
        if f.parent is not None and not out:
            g = f.parent
            if name in g.params:
                return self.reaching_end(g, name, seen)
            return self.reaching_end(g, name, seen)
        return out

    def reaching_end(self, f, name, seen):
        out = frozenset()
        for t, v in self.assigned(f):
            if name in self.names(t):
                out |= self.identity(f, v, seen)
        if name in f.params:
            out |= frozenset([name])
        return out

    def inside(self, stmts, name):
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Assign) and any(
                        name in self.names(t) and not isinstance(
                            t, (ast.Attribute, ast.Subscript))
                        for t in n.targets):
                    yield n.value
                elif isinstance(n, (ast.For, ast.comprehension)) and \
                        name in self.names(n.target):
                    yield n.iter
                # a collection given further elements
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr in ADD and \
                        isinstance(n.func.value, ast.Name) and \
                        n.func.value.id == name and n.args:
                    yield Part(n.args[-1], n.func.attr in (
                        'extend', 'update'))
                elif isinstance(n, ast.Assign) and any(
                        isinstance(t, ast.Subscript) and isinstance(
                            t.value, ast.Name) and t.value.id == name
                        for t in n.targets):
                    yield Part(n.value, False)
                elif isinstance(n, ast.AugAssign) and isinstance(
                        n.op, ast.Add) and isinstance(
                            n.target, ast.Name) and n.target.id == name:
                    yield Part(n.value, True)

    def always(self, s, name):
        """the statement assigns the variable on every way through it"""
        if isinstance(s, ast.Assign):
            return any(name in self.names(t) and not isinstance(
                t, (ast.Attribute, ast.Subscript)) for t in s.targets)
        if isinstance(s, ast.If):
            return all(any(self.always(x, name) for x in b) or (
                b and isinstance(b[-1], (ast.Return, ast.Raise)))
                for b in (s.body, s.orelse))
        if isinstance(s, ast.With):
            return any(self.always(x, name) for x in s.body)
        if isinstance(s, ast.Try):
            return any(self.always(x, name) for x in s.body) and all(
                any(self.always(x, name) for x in h.body) or (
                    h.body and isinstance(h.body[-1], (ast.Return,
                                                       ast.Raise)))
                for h in s.handlers)
        return False


class Reject(Interp):
    """passes on the call a summary is applied at"""
    site = None
    callee = None
    closure_calls = ()

    def apply_summary(self, fr, st, node, f, s, b):
        t = Summary()
        for a in ('writes', 'captures', 'ret', 'retalts', 'raises', 'anyexc',
                  'facts'):
            setattr(t, a, getattr(s, a))
        if s.facts is not None:
            # exceptions the callee handled
            t.facts = frozenset(x for x in s.facts if x[0] not in NOTES)
        if s.anyexc is not None:
            t.anyexc = frozenset(x for x in s.anyexc if x[0] not in NOTES)
        prev = self.site, self.callee
        self.site, self.callee = node, f
        try:
            out = Interp.apply_summary(self, fr, st, node, f, t, b)
            # what it may have refused and did not
            self.passed(fr, st, b, s.raises)
            return out
        finally:
            self.site, self.callee = prev

    def passed(self, fr, st, b, raises):
        if fr.parent is None and st.facts is not None:
            new = set()
            for fx in raises.values():
                for x in fx:
                    if x[0] == 'rs' and not x[4]:
                        o = self.dom.outer(self, fr, b, *x[1:])
                        if o is not None:
                            new.add(('ok', o[0], plain(o[1]),
                                     id(self.site)))
            st.facts = st.facts | new

    def call_closure(self, fr, st, node, clo, args, kwargs):
        prev = self.closure_calls
        self.closure_calls = prev + ((fr, node, args is None),)
        try:
            return Interp.call_closure(self, fr, st, node, clo, args, kwargs)
        finally:
            self.closure_calls = prev

    def contract(self, fr, st, node, recv, c, name, args, kwargs):
        f = c.lookup(name)
        if self.refusals is not None and isinstance(f, Func):
            mine = self.nim.mutating(c, name)
            for n, fx in self.refusals(f, c).items():
                if mine:
                    # of an operation that is a step of another: what it
                    # refuses about the elements it is given and about what
                    # a function returned (the identifiers it is given were
                    # looked up before)
                    fx = frozenset(
                        (x[0], x[1], frozenset(
                            d for d in x[2] if d.endswith('*') or
                            x[1][0].parent is not None)) + x[3:]
                        for x in fx if x[0] == 'rs' and not x[3] and
                        not x[4])
                    fx = frozenset(x for x in fx if x[2])
                prev = self.site, self.callee
                self.site, self.callee = node, f
                out = self.dom.exit_facts(self, fr, {}, st.facts, fx)
                self.site, self.callee = prev
                if any(x[0] in NOTES for x in out):
                    self.add_exp(fr, st, n, out)
        prev = self.before
        # not what the same call does for another class of the receiver
        self.before = self.entered
        try:
            return Interp.contract(self, fr, st, node, recv, c, name, args,
                                   kwargs)
        finally:
            self.before = prev

    def call_method(self, fr, st, node, recv, name, args, kwargs):
        prev = self.entered, self.before
        self.entered, self.before = st.facts, None
        try:
            return Interp.call_method(self, fr, st, node, recv, name, args,
                                      kwargs)
        finally:
            self.entered, self.before = prev

    def exec_stmt(self, fr, s, st):
        prev = self.mute
        self.mute = self.repeats(fr, s)
        try:
            return Interp.exec_stmt(self, fr, s, st)
        finally:
            self.mute = prev

    def repeats(self, fr, s):
        """the statement before makes the same call with the same arguments
        on another object: what it refuses was refused there"""
        if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)
                and isinstance(s.value.func, ast.Attribute)):
            return False
        name = s.value.func.attr
        if name.startswith('_') or not any(
                self.nim.mutating(c, name) for c in self.nim.axis_concrete):
            return False
        p = self.dom.D.parents(fr.func).get(s)
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(p, fld, None)
            if isinstance(b, list) and s in b and b.index(s):
                q = b[b.index(s) - 1]
                return isinstance(q, ast.Expr) and isinstance(
                    q.value, ast.Call) and self.shape(q.value) == \
                    self.shape(s.value)
        return False

    @staticmethod
    def shape(call):
        return (call.func.attr if isinstance(call.func, ast.Attribute)
                else None, [ast.dump(a) for a in call.args],
                [ast.dump(k) for k in call.keywords])

    def add_any(self, fr, st, facts=None):
        if self.mute:
            return
        if facts is None and self.before is not None:
            facts = self.before
        Interp.add_any(self, fr, st, facts)

    mute = False
    entered = before = None
    refusals = None


class Order(Domain):
    """('mod', ref, where, hop): content reachable from ref was modified;
    ('rs', where, deps, own, cb): this exception was raised about deps (own:
    about the object itself; cb: by the function handed in as deps, which may
    turn out to be one of the package); ('late', ref, mod, where, deps, own,
    cb): raised after the modification"""

    def __init__(self, E, names):
        self.E, self.names = E, names
        self.D = Depends(E.p)
        self.modified = set()
        self.raised = set()

    def on_write(self, I, fr, st, ref, kind, node, site):
        if site.via or not CONTENT & set(ref[1]):
            return
        if self.E.exempt(ref[1], kind, site):
            return
        self.modified.add((site.func, site.node))
        mod = (site.func, site.node, site.desc)
        if self.in_handler(fr.func, node):
            # put back what the block being handled had changed
            st.facts = frozenset(
                x for x in st.facts if not (
                    x[0] in ('mod', 'late') and x[1] == ref
                    and x[2][2] == site.desc))
            return
        st.facts = st.facts | {('mod', ref, mod, id(node))}

    def in_handler(self, f, node):
        par = self.D.parents(f)
        c = node
        while c in par:
            p = par[c]
            if isinstance(p, ast.ExceptHandler) and (
                    p.type is None or (dotted(p.type) or '') in (
                        'Exception', 'BaseException')) and any(
                    isinstance(x, ast.Raise) for x in p.body):
                return True
            c = p
        return False

    def on_raise(self, I, fr, st, node, name):
        if name not in self.names or node.exc is None:
            return
        f = fr.func
        self.raised.add((f, node))
        deps = self.D.of_raise(f, node)
        me = f.method_self
        if isinstance(fr.summary, InlineSummary):
            deps = self.outside(I, fr, deps)
            if deps is None:
                return
            me = self.host(fr).func.method_self
        own = bool(deps) and plain(deps) <= {me}
        if not deps:
            return
        st.facts = frozenset(x for x in st.facts if x[0] != 'rs') | \
            self.refuse(st.facts, (f, node), deps, own, False)

    @staticmethod
    def refuse(facts, where, deps, own, cb):
        out = {('rs', where, deps, own, cb)}
        for x in facts:
            if x[0] == 'mod':
                out.add(('late', x[1], x[2], where, deps, own, cb))
        return out

    def on_call(self, I, fr, st, node, name, target, recv, args, kwargs):
        # a function handed in is called: what it is decides at the callers
        if not (isinstance(node, ast.Call) and isinstance(
                node.func, ast.Name)) or isinstance(
                    fr.summary, InlineSummary):
            return
        if node.func.id in fr.func.params and fr.func.parent is None:
            I.add_exp(fr, st, 'InvalidArgumentValue', st.facts | self.refuse(
                st.facts, (fr.func, node), frozenset([node.func.id]), False,
                True))

    @staticmethod
    def host(fr):
        while isinstance(fr.summary, InlineSummary):
            fr = fr.parent
        return fr

    def outside(self, I, fr, deps):
        """dependence of a raise in a nested function, in terms of the
        function being analysed"""
        h = self.host(fr)
        if h.func in self.D.chain(fr.func.parent):
            # defined there: what it sees of it, and what it is called with
            return frozenset(x for x in deps if x.rstrip('*') in
                             h.func.params or x == '<called>')
        # defined elsewhere: known by what is called
        for cfr, node, escaped in I.closure_calls:
            if cfr is h:
                out = frozenset()
                if isinstance(node, ast.Call):
                    out = self.D.identity(h.func, node.func)
                    if escaped or not out:
                        for a in list(node.args) + [k.value for k in
                                                    node.keywords]:
                            out |= self.D.identity(h.func, a)
                return out or None
        return None

    # -- calls
    def outer(self, I, fr, b, where, deps, own, cb):
        """a refusal of the callee in terms of the caller; None: not about
        anything the caller was given"""
        f = I.callee
        for p in self.D.needs(*where):
            # handed on under its name; not given here
            if p in f.params and self.actual(I.site, f, p) is None and \
                    self.no_default(f, p):
                return None
        if cb:
            p, = deps
            for x in (b[p].ents if p in b else ()):
                if isinstance(x, Closure):
                    r = [n for n in walk_own(x.func.node)
                         if isinstance(n, ast.Raise) and n.exc is not None]
                    if r:
                        where, cb = (x.func, r[0]), False
            if cb and not (p in b and b[p].refs):
                return None
        d = self.about(I, fr, deps, own)
        if d is None or cb and (len(d) != 1 or plain(d) != d):
            return None
        return where, d, plain(d) <= {fr.func.method_self}, cb

    def about(self, I, fr, deps, own):
        node, f = I.site, I.callee
        g = fr.func
        me = g.method_self
        out = frozenset()
        if own:
            recv = None
            if isinstance(node, ast.Call) and isinstance(
                    node.func, ast.Attribute):
                recv = node.func.value
                if isinstance(recv, ast.Call):      # super()
                    return frozenset([me]) if me else None
            elif isinstance(node, ast.Subscript):
                recv = node.value
            if recv is None:
                return None
            r = self.D.identity(g, recv)
            return r or None
        for p in deps:
            several = p.endswith('*')
            p = p.rstrip('*')
            if p == f.method_self:
                continue
            a = self.actual(node, f, p)
            if a is not None:
                for x in self.D.identity(g, a):
                    if several:
                        out |= {x[:-1] if x[-1] == '+' else
                                x if x[-1] == '*' else x + '*'}
                    elif x[-1] not in '*+':
                        out |= {x}
        out = frozenset(x for x in out if x.rstrip('*') != me)
        return out or None

    @staticmethod
    def no_default(f, p):
        a = f.node.args
        pos = a.posonlyargs + a.args
        for x, d in list(zip(reversed(pos), reversed(a.defaults))) + list(
                zip(a.kwonlyargs, a.kw_defaults)):
            if x.arg == p:
                return isinstance(d, ast.Constant) and d.value is None
        return False

    @staticmethod
    def actual(node, f, p):
        pos = list(f.pos)
        if f.method_self is not None and pos[:1] == [f.method_self]:
            pos = pos[1:]
        if isinstance(node, ast.Call):
            for k in node.keywords:
                if k.arg == p:
                    return k.value
            if p in pos:
                i = pos.index(p)
                for j, a in enumerate(node.args[:i + 1]):
                    if isinstance(a, ast.Starred):
                        return a.value
                    if j == i:
                        return a
            elif p == f.vararg and len(node.args) > len(pos):
                return ast.Tuple(node.args[len(pos):], ast.Load())
            for k in node.keywords:
                if k.arg is None:
                    return k.value
            return None
        if isinstance(node, ast.Subscript) and pos[:1] == [p]:
            return node.slice
        if isinstance(node, ast.BinOp) and pos[:1] == [p]:
            return node.right
        return None

    def exit_facts(self, I, fr, b, pre, callee):
        here = id(I.site)
        out = {x for x in pre if x[0] == 'mod'}
        mods = set(out)
        oks = {x for x in pre if x[0] == 'ok'}
        out |= oks
        for x in callee:
            if x[0] == 'rs':
                o = self.outer(I, fr, b, *x[1:])
                if o is None:
                    continue
                out.add(('rs',) + o)
                if any(k[1] == o[0] and k[2] & plain(o[1]) and k[3] != here
                       for k in oks):
                    continue    # checked before, at another place
                for m in mods:
                    if o[2] and m[3] == here:
                        continue    # the same check passed before
                    out.add(('late', m[1], m[2]) + o)
            elif x[0] == 'mod':
                for m in I.mapref(fr, b, *x[1], True):
                    if x[2][0] in self.E.default_names and \
                            guarded_no_names(fr.func, I.site):
                        continue
                    out.add(('mod', m, x[2], here))
            elif x[0] == 'late':
                o = self.outer(I, fr, b, *x[3:])
                if o is None:
                    continue
                for m in I.mapref(fr, b, *x[1], True):
                    out.add(('late', m, x[2]) + o)
        return frozenset(out)


def run(rep):
    p, nim = rep.prog, rep.nim
    names = {c.name for c in p.classes if 'NimbleException' in
             [x.name for x in c.mro()]}
    if len(names) < 3:
        raise AnalysisError('the exceptions of the package were not found')
    names |= {'KeyError', 'IndexError', 'ValueError', 'TypeError',
              'ZeroDivisionError', 'AttributeError'}
    E = Effects(rep)
    first = Reject(p, nim, Order(E, names), contracts=True)
    memo = {}

    def refusals(f, c):
        k = f, c
        if k not in memo:
            memo[k] = {}
            s = first.analyse(f, c)
            memo[k] = {n: frozenset(x for x in fx if x[0] == 'rs')
                       for n, fx in s.raises.items()
                       if any(x[0] == 'rs' for x in fx)}
        return memo[k]

    dom = Order(E, names)
    I = Reject(p, nim, dom, contracts=True)
    I.refusals = refusals
    seen = {}
    for cls in nim.concrete:
        for ctx in [cls] + [nim.axis_of[cls, a] for a in (
                'points', 'features')]:
            for name, f in sorted(public_methods(nim, ctx).items()):
                if not nim.mutating(ctx, name):
                    continue
                rep.count('operations')
                s = I.analyse(f, ctx)
                if any(x[0] == 'rs' for fx in s.raises.values() for x in fx):
                    rep.count('operations_with_refusals')
                for n, fx in s.raises.items():
                    for x in fx:
                        if x[0] == 'late' and not x[6] and \
                                x[1][0] == f.method_self:
                            k = (x[2][0].short, x[2][2], x[3][0].short)
                            seen.setdefault(k, [x, set()])[1].add(
                                '%s.%s' % (ctx.name, name))
    for k, (x, ops) in sorted(seen.items()):
        m, r = x[2], x[3]
        rep.add('late-rejection', '%s:%s:%s' % k,
                '%s: %s (%s) may already have changed the object when %s '
                'refuses the %s' % (
                    ', '.join(sorted(ops)[:6]), m[2], m[0].loc(m[1]),
                    r[0].short, ', '.join(sorted(plain(x[4])))),
                r[0].loc(r[1]), ['%s: %s' % (m[0].short, m[0].loc(m[1])),
                                 '%s: %s' % (r[0].short, r[0].loc(r[1]))])
    rep.count('raises', len(dom.raised))
    rep.count('writes', len(dom.modified))
    rep.count('functions_summarised', len(I.cache))
    rep.floor('operations', 150)
    rep.floor('operations_with_refusals', 80)
    rep.floor('raises', 60)
    rep.floor('writes', 60)
