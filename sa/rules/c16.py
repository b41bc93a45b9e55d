"""C16 session settings and saved settings stay separate"""
import ast
from ..flow import Flow, parents, guards, split_guards, STAR, MISSING
from ..model import Func, Ext, Var, walk_own, dotted
from ..absint import Interp, Domain
from ..paths import Inline, Walk, calls_in, TooManyPaths

EXPLANATION = """
The class that keeps the settings is found by its configparser object; its
dictionary of unsaved changes, its hooks and the path of its file by how they
are initialised and used.  Decided: (1) no path of calls from set, get, hook
or the string forms - constants passed for parameters taken into account -
reaches a statement that writes the file or changes the saved values; (2) get
and the string forms write nothing that belongs to the object and return no
alias of the dictionaries of changes; (3) what a save moves to the saved
values and drops from the changes is limited to the section and option it was
asked for: a whole-object or whole-section effect only happens where the
tests on the path say that the section or option was not given (or the
section has become empty); setDefault passes its own section and option on;
(4) the file is written completely and closed under another name and put in
place afterwards with one atomic replacement, never from a failed write, and
saved values are always written before the save ends; an empty file is only
created where none exists; (5) every way set can end having changed the
session's value has consulted the hook registered for it, and the hook gets
the new value; (6) inside the package settings are only set or saved where
they were found missing, or on behalf of a caller's own arguments."""

ASSUMPTIONS = [
    'os.replace and os.rename within one folder are atomic',
    'code outside of the package does not use the parser object directly',
    'functions registered as hooks are those registered inside the package '
    '(user hooks may do anything)',
]

MUTATORS = {'set', 'add_section', 'remove_option', 'remove_section',
            'read_dict', 'read_string', 'read', 'read_file', 'clear',
            'update', 'setdefault', 'pop', 'popitem', '__setitem__',
            '__delitem__'}
REMOVERS = {'pop', 'popitem', 'clear', '__delitem__'}
SAME = {'realpath', 'abspath', 'normpath', 'expanduser', 'fspath', 'str',
        'Path', 'PurePath', 'PosixPath', 'resolve', 'absolute'}
REPLACE = {'os.replace', 'os.rename'}
COPY = {'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.move'}


class Roles:
    def __init__(self, K, flow):
        self.K, self.flow = K, flow
        self.parser, self.path, self.dicts = set(), set(), set()
        params = {}
        for m in K.methods.values():
            for n in walk_own(m.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    a = self.attr(m, n.targets[0])
                    if a is None:
                        continue
                    if self.is_parser(m, n.value):
                        self.parser.add(a)
                    elif isinstance(n.value, ast.Dict) and \
                            not n.value.keys or isinstance(
                                n.value, ast.Call) and dotted(
                                    n.value.func) in (
                                        'dict', 'collections.defaultdict',
                                        'defaultdict'):
                        self.dicts.add(a)
                    elif isinstance(n.value, ast.Name) and \
                            n.value.id in m.params:
                        params[a] = (m, n.value.id)
        for a, (m, p) in params.items():
            for n in walk_own(m.node):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr in (
                            'read', 'read_file'):
                    for x in n.args:
                        if any((isinstance(y, ast.Name) and y.id == p) or
                               self.attr(m, y) == a for y in ast.walk(x)):
                            self.path.add(a)
        self.hooks = {a for a in self.dicts if self.called(a)}
        self.changes = self.dicts - self.hooks

    def attr(self, f, n):
        """name of an attribute of the settings object"""
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
                and f.cls is self.K and n.value.id == self.flow.self_name(f):
            return n.attr
        return None

    def is_parser(self, f, v):
        if not isinstance(v, ast.Call):
            return False
        e = self.flow.entity(f, v.func)
        return isinstance(e, Ext) and e.name.startswith('configparser.') \
            and e.name.endswith('Parser')

    def called(self, a):
        for m in self.K.methods.values():
            for n in walk_own(m.node):
                if isinstance(n, ast.Call) and not isinstance(
                        n.func, ast.Attribute) and self.base(
                            m, n.func) == a:
                    return True
        return False

    def base(self, f, e, depth=0):
        """attribute of the settings object the value is an item of"""
        while depth < 12:
            depth += 1
            a = self.attr(f, e)
            if a is not None:
                return a
            if isinstance(e, ast.Subscript):
                e = e.value
            elif isinstance(e, ast.Call) and isinstance(
                    e.func, ast.Attribute) and e.func.attr in (
                        'get', 'pop', 'setdefault'):
                e = e.func.value
            elif isinstance(e, ast.IfExp):
                a = self.base(f, e.body, depth)
                if a is not None:
                    return a
                e = e.orelse
            elif isinstance(e, ast.Name):
                g = self.flow.scope_of(f, e.id)
                if g is None:
                    return None
                for v in self.flow.assigns(g).get(e.id, ()):
                    if v is not None and v is not e:
                        a = self.base(g, v, depth + 2)
                        if a is not None:
                            return a
                if e.id in g.params and e.id != self.flow.self_name(g):
                    for h, c, t in self.flow.callers(g):
                        v = self.flow.value(t, c, e.id)
                        if isinstance(v, ast.AST):
                            a = self.base(h, v, depth + 4)
                            if a is not None:
                                return a
                return None
            else:
                return None
        return None

    def mentions(self, f, e, attrs, depth=0):
        """is the expression computed from one of the attributes"""
        if depth > 5 or not isinstance(e, ast.AST):
            return False
        for n in ast.walk(e):
            if self.attr(f, n) in attrs:
                return True
        for n in ast.walk(e):
            if not isinstance(n, ast.Name):
                continue
            g = self.flow.scope_of(f, n.id)
            if g is None or n.id == self.flow.self_name(f):
                continue
            for v in self.flow.assigns(g).get(n.id, ()):
                if v is not None and v is not e and self.mentions(
                        g, v, attrs, depth + 1):
                    return True
            for v in self.iterated(g, n.id):
                if v is not e and self.mentions(g, v, attrs, depth + 1):
                    return True
        return False

    def iterated(self, g, name):
        for n in walk_own(g.node):
            if isinstance(n, (ast.For, ast.comprehension)) and any(
                    isinstance(x, ast.Name) and x.id == name
                    for x in ast.walk(n.target)):
                yield n.iter
            elif isinstance(n, ast.withitem) and isinstance(
                    n.optional_vars, ast.Name) and \
                    n.optional_vars.id == name:
                yield n.context_expr

    def is_path(self, f, e, depth=0):
        """the path of the settings file itself"""
        if depth > 6 or not isinstance(e, ast.AST):
            return False
        if self.attr(f, e) in self.path:
            return True
        if isinstance(e, ast.Attribute) and e.attr in self.path and \
                isinstance(self.flow.entity(f, e.value), Var):
            return True
        if isinstance(e, ast.Name):
            g = self.flow.scope_of(f, e.id)
            if g is None:
                return False
            vals = [v for v in self.flow.assigns(g).get(e.id, ())
                    if v is not None]
            if any(self.is_path(g, v, depth + 1) for v in vals):
                return True
            if e.id in g.params:
                return any(self.is_path(h, self.flow.value(t, c, e.id),
                                        depth + 1)
                           for h, c, t in self.flow.callers(g))
            return False
        if isinstance(e, ast.Call):
            d = (dotted(e.func) or getattr(e.func, 'attr', '') or
                 '').split('.')[-1]
            if d in SAME:
                if e.args:
                    return self.is_path(f, e.args[0], depth + 1)
                if isinstance(e.func, ast.Attribute):
                    return self.is_path(f, e.func.value, depth + 1)
        return False


def open_mode(call):
    m = call.args[1] if len(call.args) > 1 else next(
        (k.value for k in call.keywords if k.arg == 'mode'), None)
    if isinstance(call.func, ast.Attribute) and call.func.attr == 'open' and \
            not (isinstance(call.func.value, ast.Name) and
                 call.func.value.id in ('io', 'codecs', 'os')):
        m = call.args[0] if call.args else m
    if isinstance(m, ast.Constant) and isinstance(m.value, str):
        return m.value
    return 'r' if m is None else 'w'


class C16:
    def __init__(self, rep):
        self.rep, self.p = rep, rep.prog
        self.flow = Flow(rep.prog)

    def ext(self, f, node):
        e = self.flow.entity(f, node)
        return e.name if isinstance(e, Ext) else None

    # ------------------------------------------------------ statements
    def writes(self, R, f):
        """[(node, what)] statements of f that change the saved state:
        'file-direct', 'file-new', 'replace', 'copy', 'values'"""
        got = self._writes.get(f)
        if got is not None:
            return got
        out = []
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                nm = self.ext(f, n.func) or dotted(n.func) or ''
                if nm in REPLACE or nm in COPY:
                    if len(n.args) > 1 and R.is_path(f, n.args[1]):
                        out.append((n, 'replace' if nm in REPLACE
                                    else 'copy'))
                elif isinstance(n.func, ast.Attribute) and n.func.attr in (
                        'replace', 'rename') and len(n.args) == 1 and \
                        R.is_path(f, n.args[0]):
                    out.append((n, 'replace'))
                elif isinstance(n.func, ast.Attribute) and n.func.attr in (
                        'write_text', 'write_bytes') and R.is_path(
                            f, n.func.value):
                    out.append((n, 'file-direct'))
                elif nm in ('os.remove', 'os.unlink', 'os.truncate') and \
                        n.args and R.is_path(f, n.args[0]):
                    out.append((n, 'file-direct'))
                elif nm == 'open' or nm.endswith('.open') or (
                        isinstance(n.func, ast.Attribute) and
                        n.func.attr == 'open'):
                    if set(open_mode(n)) & set('wax+'):
                        tgt = n.args[0] if n.args else next(
                            (k.value for k in n.keywords
                             if k.arg == 'file'), None)
                        if isinstance(n.func, ast.Attribute) and R.is_path(
                                f, n.func.value):
                            tgt = n.func.value
                        if tgt is not None and R.is_path(f, tgt):
                            out.append((n, 'file-direct'))
                elif isinstance(n.func, ast.Attribute):
                    base = n.func.value
                    while isinstance(base, ast.Subscript):
                        base = base.value
                    if self.parser_of(R, f, base):
                        if n.func.attr == 'write':
                            out.append((n, 'file-new'))
                        elif n.func.attr in MUTATORS:
                            out.append((n, 'values'))
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                ts = n.targets if not isinstance(n, ast.AugAssign) else [
                    n.target]
                for t in ts:
                    b = t
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(t, ast.Subscript) and self.parser_of(
                            R, f, b):
                        out.append((n, 'values'))
        self._writes[f] = out
        return out

    def parser_of(self, R, f, e, depth=0):
        """the parser object or a section of it"""
        if R.attr(f, e) in R.parser:
            return True
        if isinstance(e, ast.Attribute) and e.attr in R.parser and \
                isinstance(self.flow.entity(f, e.value), Var):
            return True
        if depth > 4:
            return False
        if isinstance(e, ast.Subscript):
            return self.parser_of(R, f, e.value, depth + 1)
        if isinstance(e, ast.Name):
            g = self.flow.scope_of(f, e.id)
            if g is None:
                return False
            if any(v is not None and self.parser_of(R, g, v, depth + 1)
                   for v in self.flow.assigns(g).get(e.id, ())):
                return True
            if e.id in g.params and e.id != self.flow.self_name(g):
                return any(
                    isinstance(a, ast.AST) and self.parser_of(
                        R, h, a, depth + 2)
                    for h, c, t in self.flow.callers(g)
                    for a in [self.flow.value(t, c, e.id)])
        return False

    # ---------------------------------------------------- reachability
    def reach(self, R, f, env=None, seen=None):
        """call path to a function with a saving statement, or None"""
        seen = set() if seen is None else seen
        env = env or {}
        key = (f, tuple(sorted(env.items(), key=repr)))
        if key in seen or len(seen) > 20000:
            return None
        seen.add(key)
        own = self.writes(R, f)
        par = None
        if own:
            par = parents(f.node)
            for n, what in own:
                if self.live(par, f, n, env):
                    return [(f, n, what)]
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call):
                continue
            ts = [t for t in self.flow.targets(f, n)
                  if t.exact or self.interesting(R, t.func)]
            if not ts:
                continue
            par = par or parents(f.node)
            if not self.live(par, f, n, env):
                continue
            for t in ts:
                e2 = {}
                for p in t.func.params:
                    v = self.flow.value(t, n, p)
                    if isinstance(v, ast.Constant):
                        e2[p] = v.value
                    elif isinstance(v, ast.Name) and v.id in env:
                        e2[p] = env[v.id]
                got = self.reach(R, t.func, e2, seen)
                if got:
                    return [(f, n, 'call')] + got
        # nested functions are taken to run
        return None

    def interesting(self, R, g):
        """a by-name guess is only followed into the settings class"""
        return g.cls is R.K

    def live(self, par, f, n, env):
        for t, pol in split_guards(guards(par, n, f.node)):
            if isinstance(t, ast.Name) and t.id in env and \
                    bool(env[t.id]) != pol:
                return False
        return True

    def chain(self, path):
        return ['%s at %s' % (f.short, f.loc(n)) for f, n, _ in path]

    def session_only(self, R):
        rep = self.rep
        saving = [f for f in self.p.funcs if self.writes(R, f)]
        rep.count('saving_statements', sum(len(self.writes(R, f))
                                           for f in saving))
        for nm in ('set', 'get', 'hook', '__str__', '__repr__'):
            m = R.K.lookup(nm)
            if m is None:
                continue
            rep.count('session_operations')
            path = self.reach(R, m)
            if path:
                f, n, what = path[-1]
                rep.add('session-saves', '%s.%s' % (R.K.name, nm),
                        '%s.%s reaches a statement that %s' % (
                            R.K.name, nm, 'changes the saved values'
                            if what == 'values' else
                            'writes the settings file'), f.loc(n),
                        self.chain(path))
        # the functions registered as hooks inside the package
        for f in self.p.funcs:
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr == 'hook' \
                        and len(n.args) > 2:
                    h = self.flow.entity(f, n.args[2])
                    if not isinstance(h, Func):
                        continue
                    rep.count('package_hooks')
                    path = self.reach(R, h)
                    if path:
                        rep.add('session-saves', h.short,
                                'the hook %s, run when a setting changes '
                                'for the session, writes saved settings' %
                                h.short, f.loc(n), self.chain(path))
        for nm in ('saveChanges', 'setDefault'):
            m = R.K.lookup(nm)
            if m is not None:
                rep.count('saving_operations')
                if not self.reach(R, m):
                    rep.add('not-saved', '%s.%s' % (R.K.name, nm),
                            '%s.%s never writes the settings file' % (
                                R.K.name, nm), m.loc(m.node))

    # --------------------------------------------------------- reading
    def reading(self, R):
        rep = self.rep
        I = Interp(self.p, rep.nim, Domain())
        for nm in ('get', '__str__', '__repr__'):
            m = R.K.lookup(nm)
            if m is None:
                continue
            rep.count('reading_operations')
            s = I.analyse(m, R.K)
            for (root, path, kind), site in s.writes.items():
                if root == 'self' and path and (kind == 'attr' or path[0] in (
                        R.changes | R.hooks | R.path) and len(path) < 3):
                    rep.add('read-changes', '%s.%s:%s' % (
                        R.K.name, nm, path[0]),
                        '%s.%s, which only reads, changes %s' % (
                            R.K.name, nm, '.'.join(path)), m.loc(m.node))
            w = ReadWalk(self, R, m)
            try:
                w.run(m.node.body, {frozenset()})
            except TooManyPaths:
                rep.add('read-changes', m.short + ':paths',
                        'too many paths to decide', m.loc(m.node))
            rep.count('reading_statements', w.seen)
            for n in w.stores:
                rep.add('read-changes', '%s.%s:%s' % (
                    R.K.name, nm, ast.unparse(n)[:40]),
                    '%s.%s, which only reads, stores into the unsaved '
                    'changes' % (R.K.name, nm), m.loc(n))
            if nm == 'get':
                for n in w.returned:
                    rep.add('handed-out', '%s.get:%s' % (
                        R.K.name, ast.unparse(n)[:40]),
                        '%s.get returns a stored dictionary of changes '
                        'itself' % R.K.name, m.loc(n))

    # ------------------------------------------------------- selection
    def origins(self, R, f, e, stack, depth=0):
        """where a section / option name comes from:
        ('param', name, root function) or ('all', base expression) """
        if depth > 6:
            return {('other',)}
        if isinstance(e, ast.Name):
            g = self.flow.scope_of(f, e.id)
            if g is None:
                return {('other',)}
            its = list(R.iterated(g, e.id))
            if its:
                return {('all',)}
            if e.id in g.params:
                if stack and stack[-1][2].func is g:
                    h, c, t = stack[-1]
                    a = self.flow.value(t, c, e.id)
                    if isinstance(a, ast.AST):
                        return self.origins(R, h, a, stack[:-1], depth + 1)
                    return {('other',)}
                return {('param', e.id)}
            vals = [v for v in self.flow.assigns(g).get(e.id, ())
                    if v is not None]
            out = set()
            for v in vals:
                out |= self.origins(R, g, v, stack, depth + 1)
            return out or {('other',)}
        if isinstance(e, ast.Constant):
            return {('const', e.value)}
        return {('other',)}

    def call_stacks(self, R, f, top, depth=0):
        """ways to get from the method `top` to f inside the class"""
        if f is top:
            return [[]]
        if depth > 4:
            return []
        out = []
        for h, c, t in self.flow.callers(f):
            if not t.exact or h.cls is not R.K and h is not top:
                continue
            for s in self.call_stacks(R, h, top, depth + 1):
                out.append(s + [(h, c, t)])
        return out

    def known(self, f, node, stack, R, top):
        """(None-known params of top, given-known params, empty-tested)"""
        none, given = set(), set()
        empty = False
        sites = [(f, node)] + [(h, c) for h, c, _ in reversed(stack)]
        for i, (g, n) in enumerate(sites):
            par = parents(g.node)
            rest = stack[:len(stack) - i]
            for t, pol in split_guards(guards(par, n, g.node)):
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and \
                        isinstance(t.comparators[0], ast.Constant) and \
                        t.comparators[0].value is None:
                    pos = isinstance(t.ops[0], (ast.Is, ast.Eq))
                    for o in self.origins(R, g, t.left, rest):
                        if o[0] == 'param':
                            (none if pos == pol else given).add(o[1])
                elif isinstance(t, ast.Name) and not pol:
                    for o in self.origins(R, g, t, rest):
                        if o[0] == 'param':
                            none.add(o[1])
                if i == 0 and R.mentions(g, t, R.changes):
                    if isinstance(t, ast.Compare) and isinstance(
                            t.left, ast.Call) and dotted(
                                t.left.func) == 'len':
                        c0 = t.comparators[0]
                        if isinstance(c0, ast.Constant) and (
                                (c0.value == 0 and isinstance(
                                    t.ops[0], (ast.Eq, ast.LtE)) and pol) or
                                (c0.value == 0 and isinstance(
                                    t.ops[0], (ast.Gt, ast.NotEq)) and
                                 not pol) or
                                (c0.value == 1 and isinstance(
                                    t.ops[0], ast.Lt) and pol)):
                            empty = True
                    elif not isinstance(t, (ast.Compare, ast.BoolOp)) \
                            and not pol:
                        empty = True
                    elif isinstance(t, ast.Compare) and isinstance(
                            t.ops[0], ast.Eq) and pol and isinstance(
                                t.comparators[0], ast.Dict):
                        empty = True
        return none, given, empty

    def selections(self, R, f):
        """[(node, 'save'|'drop', section expr or None, option expr or
        None)] None: all of them"""
        out = []
        for n, what in self.writes(R, f):
            if what != 'values':
                continue
            if isinstance(n, ast.Call):
                a = n.func.attr
                if a in ('read', 'read_file') and f.name == '__init__':
                    continue
                if a == 'add_section':
                    continue
                if a == 'set' and len(n.args) >= 2:
                    out.append((n, 'save', n.args[0], n.args[1]))
                elif isinstance(n.func.value, ast.Subscript) and \
                        a in ('update', 'clear'):
                    out.append((n, 'save', n.func.value.slice, None))
                else:
                    out.append((n, 'save', None, None))
            else:
                for t in (n.targets if not isinstance(n, ast.AugAssign)
                          else [n.target]):
                    idx = []
                    b = t
                    while isinstance(b, ast.Subscript):
                        idx.insert(0, b.slice)
                        b = b.value
                    if not idx:
                        continue
                    if len(idx) == 1 and isinstance(n, ast.Assign) and \
                            isinstance(n.value, ast.Dict) and \
                            not n.value.keys:
                        continue      # a new section
                    out.append((n, 'save', idx[0],
                                idx[1] if len(idx) > 1 else None))
        for n in walk_own(f.node):
            if isinstance(n, ast.Delete):
                for t in n.targets:
                    idx, b = [], t
                    while isinstance(b, ast.Subscript):
                        idx.insert(0, b.slice)
                        b = b.value
                    if idx and R.attr(f, b) in R.changes:
                        out.append((n, 'drop', idx[0], idx[1]
                                    if len(idx) > 1 else None))
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in REMOVERS:
                idx, b = [], n.func.value
                while isinstance(b, ast.Subscript):
                    idx.insert(0, b.slice)
                    b = b.value
                if R.attr(f, b) in R.changes:
                    if n.func.attr in ('pop', '__delitem__') and n.args:
                        idx.append(n.args[0])
                    out.append((n, 'drop', idx[0] if idx else None,
                                idx[1] if len(idx) > 1 else None))
            elif isinstance(n, ast.Assign) and f.name != '__init__':
                for t in n.targets:
                    if R.attr(f, t) in R.changes:
                        out.append((n, 'drop', None, None))
        return out

    def selection(self, R):
        rep = self.rep
        for nm in ('saveChanges', 'set', 'setDefault'):
            top = R.K.lookup(nm)
            if top is None:
                continue
            names = [p for p in top.params if p != top.method_self][:2]
            if len(names) < 2:
                continue
            sec, opt = names
            for f in self.p.funcs:
                if f.cls is not R.K:
                    continue
                sel = self.selections(R, f)
                if not sel:
                    continue
                for stack in self.call_stacks(R, f, top):
                    for n, kind, s, o in sel:
                        if nm != 'saveChanges' and any(
                                h is not top and h.name == 'saveChanges'
                                for h, _, _ in stack) or (
                                    nm != 'saveChanges' and
                                    f.name == 'saveChanges'):
                            continue
                        rep.count('selections_checked')
                        self.one(R, top, sec, opt, f, n, kind, s, o, stack)

    def one(self, R, top, sec, opt, f, n, kind, s, o, stack):
        none, given, empty = self.known(f, n, stack, R, top)
        so = self.origins(R, f, s, stack) if s is not None else {('all',)}
        oo = self.origins(R, f, o, stack) if o is not None else {('all',)}
        verb = 'saves' if kind == 'save' else 'forgets'
        bad = None
        if ('all',) in so and sec not in none:
            bad = 'every section although one may have been named'
        elif sec not in none and any(x[0] == 'param' and x[1] != sec or
                                     x[0] == 'const' for x in so):
            bad = 'a section other than the one named'
        elif ('all',) in oo and not (opt in none or sec in none) and \
                not (kind == 'drop' and o is None and empty):
            bad = 'every option of the section although one may have ' \
                  'been named'
        elif opt not in none and any(x[0] == 'param' and x[1] != opt or
                                     x[0] == 'const' for x in oo):
            bad = 'an option other than the one named'
        if bad:
            self.rep.add('selection', '%s.%s:%s:%s' % (
                R.K.name, top.name, kind, ast.unparse(n)[:50]),
                '%s.%s %s %s' % (R.K.name, top.name, verb, bad), f.loc(n))

    def forwarding(self, R):
        """setDefault saves just what it set"""
        rep = self.rep
        top = R.K.lookup('setDefault')
        if top is None:
            return
        names = [p for p in top.params if p != top.method_self][:2]
        seen = False
        for n in walk_own(top.node):
            if not isinstance(n, ast.Call):
                continue
            for t in self.flow.targets(top, n):
                if t.func is not R.K.lookup('saveChanges'):
                    continue
                seen = True
                rep.count('forwarded_saves')
                tn = [p for p in t.func.params
                      if p != t.func.method_self][:2]
                for a, b in zip(names, tn):
                    v = self.flow.value(t, n, b)
                    if not (isinstance(v, ast.Name) and
                            self.origins(R, top, v, []) == {('param', a)}):
                        rep.add('selection', '%s.setDefault:%s' % (
                            R.K.name, b),
                            '%s.setDefault does not limit the save to the '
                            '%s it was given' % (R.K.name, a), top.loc(n))
        if not seen:
            rep.count('forwarded_saves', 0)

    # ---------------------------------------------------------- atomic
    def atomic(self, R):
        rep = self.rep
        for f in self.p.funcs:
            ws = self.writes(R, f)
            par = None
            for n, what in ws:
                if what in ('file-direct', 'copy'):
                    par = par or parents(f.node)
                    if any(self.missing_file(R, f, t, pol)
                           for t, pol in split_guards(
                               guards(par, n, f.node))):
                        continue
                    rep.add('not-atomic', '%s:%s' % (
                        f.short, ast.unparse(n)[:40]),
                        '%s writes to the settings file itself; a failure '
                        'on the way loses what was saved' % f.short,
                        f.loc(n))
        self.creation(R)
        for nm in ('saveChanges', 'setDefault'):
            top = R.K.lookup(nm)
            if top is None:
                continue
            w = SaveWalk(self.flow, top)
            w.c16, w.R = self, R
            w.problems = set()
            try:
                o = w.run(top.node.body, {('clean', False)})
            except TooManyPaths:
                rep.add('not-atomic', top.short + ':paths',
                        'too many paths to decide', top.loc(top.node))
                continue
            rep.count('save_paths', len(o.normal | {s for s, _ in o.ret}))
            for st in o.normal | {s for s, _ in o.ret}:
                if st[1]:
                    rep.add('not-written', '%s.%s' % (R.K.name, nm),
                            '%s.%s can end without having written the '
                            'values it saved' % (R.K.name, nm),
                            top.loc(top.node))
                if st[0] in ('opened', 'written'):
                    rep.add('not-written', '%s.%s:replace' % (
                        R.K.name, nm),
                        '%s.%s can end without putting the file it wrote '
                        'in place' % (R.K.name, nm), top.loc(top.node))
            for g, n, msg in w.problems:
                rep.add('not-atomic', '%s:%s' % (g.short, msg[:30]),
                        '%s %s' % (g.short, msg), g.loc(n))

    def missing_file(self, R, f, t, pol):
        if isinstance(t, ast.Call):
            d = (dotted(t.func) or getattr(t.func, 'attr', '')).split(
                '.')[-1]
            return d in ('exists', 'isfile', 'is_file') and not pol
        return False

    def creation(self, R):
        """files opened for writing where the settings object is made"""
        rep = self.rep
        for f in self.p.funcs:
            made = False
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and self.flow.entity(
                        f, n.func) is R.K:
                    made = True
            if not made:
                continue
            par = parents(f.node)
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Name) and n.func.id == 'open' and \
                        set(open_mode(n)) & set('w+') and n.args:
                    rep.count('created_files')
                    same = ast.dump(n.args[0])
                    ok = False
                    for t, pol in split_guards(guards(par, n, f.node)):
                        if self.missing_file(R, f, t, pol) and (
                                any(ast.dump(a) == same for a in t.args) or
                                isinstance(t.func, ast.Attribute) and
                                ast.dump(t.func.value) == same):
                            ok = True
                    if not ok:
                        rep.add('not-atomic', '%s:create' % f.short,
                                '%s opens the settings file for writing '
                                'without having found it missing' % f.short,
                                f.loc(n))

    # ----------------------------------------------------------- hooks
    def hooked(self, R):
        rep = self.rep
        top = R.K.lookup('set')
        if top is None or not R.hooks:
            return
        w = HookWalk(self.flow, top)
        w.c16, w.R = self, R
        w.calls = set()
        o = w.run(top.node.body, {'same'})
        ends = o.normal | {s for s, _ in o.ret}
        rep.count('set_paths', len(ends))
        if 'changed' in ends:
            rep.add('hook', '%s.set' % R.K.name,
                    '%s.set can end having changed the value without '
                    'consulting the hook registered for the option' %
                    R.K.name, top.loc(top.node))
        names = [p for p in top.params if p != top.method_self]
        for g, c in w.calls:
            rep.count('hook_calls')
            if not (len(c.args) == 1 and not c.keywords):
                rep.add('hook', '%s.set:args' % R.K.name,
                        'a hook is called with something else than the new '
                        'value', g.loc(c))
                continue
            og = set()
            stacks = self.call_stacks(R, g, top) or [[]]
            for s in stacks:
                og |= self.origins(R, g, c.args[0], s)
            if len(names) > 2 and ('param', names[2]) not in og:
                rep.add('hook', '%s.set:value' % R.K.name,
                        'the hook is not called with the new value',
                        g.loc(c))
        if not w.calls:
            rep.add('hook', '%s.set:none' % R.K.name,
                    '%s.set never calls a hook' % R.K.name,
                    top.loc(top.node))

    # -------------------------------------------------------- internal
    def internal(self, R):
        rep = self.rep
        K = R.K
        targets = {nm: K.lookup(nm) for nm in ('saveChanges', 'setDefault',
                                               'set')}
        for f in self.p.funcs:
            if f.cls is K:
                continue
            par = None
            for n in walk_own(f.node):
                if not (isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr in targets):
                    continue
                if n.func.attr == 'set' and not self.settings_object(
                        R, f, n.func.value):
                    continue
                ts = [t for t in self.flow.targets(f, n)
                      if t.func is targets[n.func.attr]]
                if not ts:
                    continue
                rep.count('internal_changes_of_settings')
                rep.sample('internal_sites', f.loc(n))
                par = par or parents(f.node)
                if self.found_missing(R, f, n, par):
                    continue
                if n.func.attr == 'set' and n.args[2:] and \
                        isinstance(n.args[2], ast.Name) and \
                        n.args[2].id in f.params:
                    continue
                if self.never(f, n, par):
                    continue
                rep.add('internal', '%s:%s' % (f.short, n.func.attr),
                        '%s calls %s for a setting that was not found '
                        'missing: a choice of the user is overwritten or '
                        'saved without being asked to' % (
                            f.short, n.func.attr), f.loc(n))

    def settings_object(self, R, f, e):
        d = dotted(e) or ''
        if d.split('.')[-1] == 'settings':
            return True
        if isinstance(e, ast.Name):
            return any(isinstance(v, ast.Call) and
                       self.flow.entity(f, v.func) is R.K
                       for v in self.flow.assigns(f).get(e.id, ()))
        return False

    def from_get(self, f, e, depth=0):
        if depth > 5 or not isinstance(e, ast.AST):
            return False
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr == 'get' and (
                        (dotted(n.func.value) or '').split('.')[-1] ==
                        'settings' or any(
                            t.func.cls is self.K
                            for t in self.flow.targets(f, n))):
                return True
            if isinstance(n, ast.Name) and self.flow.scope_of(
                    f, n.id) is f:
                if any(v is not e and self.from_get(f, v, depth + 1)
                       for v in self.flow.assigns(f).get(n.id, ())
                       if v is not None):
                    return True
        return False

    def absent(self, f, t, pol):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.absent(f, t.operand, not pol)
        if isinstance(t, ast.BoolOp):
            every = isinstance(t.op, ast.Or) == pol
            fn = all if every else any
            return fn(self.absent(f, v, pol) for v in t.values)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            if isinstance(t.ops[0], (ast.NotIn, ast.In)):
                return isinstance(t.ops[0], ast.NotIn) == pol and \
                    self.from_get(f, t.comparators[0])
            if isinstance(t.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                return isinstance(t.ops[0], (ast.Is, ast.Eq)) == pol and \
                    isinstance(t.comparators[0], ast.Constant) and not \
                    t.comparators[0].value and self.from_get(f, t.left)
            return False
        return not pol and self.from_get(f, t)

    def found_missing(self, R, f, n, par):
        for t, pol in guards(par, n, f.node):
            if self.absent(f, t, pol):
                return True
        cur = n
        while cur in par and cur is not f.node:
            p = par[cur]
            if isinstance(p, ast.ExceptHandler) and p.type is not None:
                tr = par.get(p)
                body = ast.Module(body=tr.body, type_ignores=[])
                names = p.type.elts if isinstance(p.type, ast.Tuple) else [
                    p.type]
                okn = all('configparser' in (self.ext(f, x) or
                                             dotted(x) or '') or
                          (dotted(x) or '').split('.')[-1] in (
                              'configErrors', 'NoSectionError',
                              'NoOptionError', 'KeyError')
                          for x in names)
                if okn and self.from_get(f, body):
                    return True
            cur = p
        return False

    def never(self, f, n, par):
        """only under a parameter that no caller in the package sets"""
        for t, pol in split_guards(guards(par, n, f.node)):
            if isinstance(t, ast.Name) and t.id in f.params:
                vals = []
                for h, c, tg in self.flow.callers(f):
                    vals.append(self.flow.value(tg, c, t.id))
                if vals and all(isinstance(v, ast.Constant) and
                                bool(v.value) != pol for v in vals):
                    return True
        return False

    def run(self):
        rep = self.rep
        rep.floor('session_operations', 3)
        rep.floor('saving_operations', 2)
        for K in self.p.classes:
            if not any(isinstance(v, ast.Assign) for m in K.methods.values()
                       for v in walk_own(m.node)):
                continue
            R = Roles(K, self.flow)
            if not R.parser or 'set' not in K.methods:
                continue
            self.K = K
            self._writes = {}
            rep.count('settings_classes')
            self.session_only(R)
            self.reading(R)
            self.selection(R)
            self.forwarding(R)
            self.atomic(R)
            self.hooked(R)
            self.internal(R)
        rep.floor('settings_classes', 1)


class ReadWalk(Walk):
    """which values are the stored dictionaries.  Levels: 'A0' the changes
    of all sections, 'A1' those of one section, 'S0' a new dictionary
    holding stored ones, None anything else"""
    exceptions = True

    def __init__(self, c16, R, f, depth=0):
        self.c16, self.R, self.f, self.depth = c16, R, f, depth
        self.stores, self.returned, self.seen = [], [], 0
        self.results = set()

    def level(self, e, env):
        R, f = self.R, self.f
        if R.attr(f, e) in R.changes:
            return 'A0'
        if isinstance(e, ast.Name):
            return dict(env).get(e.id)
        if isinstance(e, ast.Subscript):
            return {'A0': 'A1', 'S0': 'A1'}.get(self.level(e.value, env))
        if isinstance(e, ast.IfExp):
            return self.level(e.body, env) or self.level(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                if self.level(v, env):
                    return self.level(v, env)
            return None
        if isinstance(e, ast.BinOp):
            a, b = self.level(e.left, env), self.level(e.right, env)
            return 'S0' if {a, b} & {'A0', 'S0'} else None
        if isinstance(e, ast.Dict):
            for k, v in zip(e.keys, e.values):
                lv = self.level(v, env)
                if k is None and lv in ('A0', 'S0') or \
                        k is not None and lv == 'A1':
                    return 'S0'
            return None
        if isinstance(e, ast.DictComp):
            env2 = env
            for g in e.generators:
                env2 = self.bind_loop(g.target, g.iter, env2)
            return 'S0' if self.level(e.value, env2) == 'A1' else None
        if isinstance(e, ast.NamedExpr):
            return self.level(e.value, env)
        if isinstance(e, ast.Call):
            d = dotted(e.func) or ''
            if d in ('dict', 'copy.copy', 'copy') and e.args:
                lv = self.level(e.args[0], env)
                return 'S0' if lv in ('A0', 'S0') else None
            if isinstance(e.func, ast.Attribute):
                lv = self.level(e.func.value, env)
                if e.func.attr == 'copy':
                    return 'S0' if lv in ('A0', 'S0') else None
                if e.func.attr in ('get', 'pop', 'setdefault', '__getitem__'):
                    return 'A1' if lv in ('A0', 'S0') else None
            if self.depth < 3:
                for t in self.c16.flow.targets(self.f, e):
                    if t.exact and t.func.cls is R.K and \
                            t.func is not self.f:
                        w = ReadWalk(self.c16, R, t.func, self.depth + 1)
                        env2 = set()
                        for p in t.func.params:
                            a = self.c16.flow.value(t, e, p)
                            lv = self.level(a, env) if isinstance(
                                a, ast.AST) else None
                            if lv:
                                env2.add((p, lv))
                        w.run(t.func.node.body, {frozenset(env2)})
                        self.stores += [e] if w.stores else []
                        for lv in ('A0', 'A1', 'S0'):
                            if lv in w.results:
                                return lv
        return None

    def bind_loop(self, target, it, env):
        pairs = []
        lv = None
        kind = None
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) \
                and it.func.attr in ('items', 'values'):
            lv = self.level(it.func.value, env)
            kind = it.func.attr
        names = {x.id for x in ast.walk(target) if isinstance(x, ast.Name)}
        env = {(a, b) for a, b in env if a not in names}
        if lv in ('A0', 'S0'):
            if kind == 'values' and isinstance(target, ast.Name):
                pairs.append((target.id, 'A1'))
            elif kind == 'items' and isinstance(target, ast.Tuple) and \
                    len(target.elts) == 2 and isinstance(
                        target.elts[1], ast.Name):
                pairs.append((target.elts[1].id, 'A1'))
        return frozenset(env | set(pairs))

    def stmt(self, s, states):
        if isinstance(s, ast.For):
            states = {self.bind_loop(s.target, s.iter, st) for st in states}
        if isinstance(s, ast.Return) and s.value is not None:
            for st in states:
                lv = self.level(s.value, st)
                self.results.add(lv)
                if lv and s not in self.returned:
                    self.returned.append(s)
        return super().stmt(s, states)

    def simple(self, node, state):
        if isinstance(node, ast.stmt):
            self.seen += 1
        env = dict(state)
        ts = []
        if isinstance(node, ast.Assign):
            ts = node.targets
        elif isinstance(node, (ast.AugAssign, ast.AnnAssign)):
            ts = [node.target]
        elif isinstance(node, ast.Delete):
            ts = node.targets
        for t in ts:
            if isinstance(t, ast.Subscript) and self.level(
                    t.value, state) in ('A0', 'A1'):
                self.stores.append(node)
            elif isinstance(t, ast.Name) and not isinstance(
                    node, (ast.AugAssign, ast.Delete)) and \
                    node.value is not None:
                lv = self.level(node.value, state)
                env.pop(t.id, None)
                if lv:
                    env[t.id] = lv
        for c in calls_in(node):
            if isinstance(c.func, ast.Attribute) and c.func.attr in (
                    'update', 'pop', 'popitem', 'clear', 'setdefault',
                    '__setitem__') and self.level(
                        c.func.value, state) in ('A0', 'A1'):
                self.stores.append(c)
        return [frozenset(env.items())]


class SaveWalk(Inline):
    """state: (file state, are saved values not yet written)"""

    def pick(self, call):
        return [t.func for t in self.flow.targets(self.f, call)
                if t.exact and (t.func.cls is self.R.K or
                                t.func.parent is not None or
                                self.c16.writes(self.R, t.func))
                and t.func is not self.f and t.func.name != 'set']

    def kinds(self):
        return {id(n): w for n, w in self.c16.writes(self.R, self.f)}

    def event(self, node, state):
        what = self.kinds().get(id(node))
        fs, dirty = state
        if what == 'values':
            return [(fs, True)]
        if what == 'file-new':
            return [('written', False)]
        if what == 'file-direct':
            return [(fs, False)]
        if what == 'replace':
            if fs == 'clean' and isinstance(node, ast.Call):
                self.problems.add((self.f, node, 'puts a file in place '
                                   'that was not completely written on '
                                   'this path'))
            elif fs == 'written' and self.inside(node):
                self.problems.add((self.f, node, 'puts the new file in '
                                   'place before it is closed'))
            return [('clean', dirty)]
        return [state]

    def inside(self, node):
        """in the with block whose file the values are written to"""
        par = parents(self.f.node)
        cur = node
        while cur in par:
            cur = par[cur]
            if isinstance(cur, ast.With) and any(
                    isinstance(i.context_expr, ast.Call) and set(
                        open_mode(i.context_expr)) & set('wax+')
                    and 'open' in (dotted(i.context_expr.func) or '') or
                    'TemporaryFile' in ast.unparse(i.context_expr)
                    for i in cur.items):
                if any(id(x) in self.kinds() and
                       self.kinds()[id(x)] == 'file-new'
                       for x in ast.walk(cur)):
                    return True
        return False


class HookWalk(Inline):
    """state: 'same', 'changed' (hook not consulted yet), 'told'"""

    def pick(self, call):
        return [t.func for t in self.flow.targets(self.f, call)
                if t.exact and t.func.cls is self.R.K and
                t.func is not self.f]

    def event(self, node, state):
        R, f = self.R, self.f
        if isinstance(node, ast.Call) and not isinstance(
                node.func, ast.Attribute) and R.base(
                    f, node.func) in R.hooks:
            self.calls.add((f, node))
            return ['told' if state == 'changed' else state]
        if self.changes(node):
            return ['changed']
        return [state]

    def changes(self, node):
        R, f = self.R, self.f
        if isinstance(node, (ast.Assign, ast.Delete)):
            for t in node.targets:
                b = t
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(t, ast.Subscript) and R.base(
                        f, b) in R.changes:
                    return True
        if isinstance(node, ast.Call) and isinstance(
                node.func, ast.Attribute) and node.func.attr in (
                    'pop', 'update', 'setdefault', '__setitem__'):
            return R.base(f, node.func.value) in R.changes
        return False

    def branch(self, test, state):
        if state == 'changed' and self.R.mentions(
                self.f, test, self.R.hooks):
            # the branch in which a hook is registered has to call it
            if absent_if_true(test):
                return ['told'], [state]
            return [state], ['told']
        return [state], [state]


def absent_if_true(t):
    """does the test say, when true, that something is not there"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return not absent_if_true(t.operand)
    if isinstance(t, ast.BoolOp):
        return any(absent_if_true(v) for v in t.values)
    if isinstance(t, ast.Compare):
        return isinstance(t.ops[0], (ast.NotIn, ast.Is, ast.Eq))
    return False


def run(rep):
    C16(rep).run()
