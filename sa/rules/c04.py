"""C04 every operation is logged once or not at all, as requested"""
import ast
from ..absint import Interp, Domain, EMPTY
from ..model import AnalysisError, Func, walk_own, dotted
from .effects import public_methods
from .c02 import module_functions, other_classes

EXPLANATION = """
Log events are counted along every path by an interprocedural flow-sensitive
analysis. An event is a call of the log gateway (handleLogging), of a method
wrapped by the logging decorator, or of another public operation taking
useLog, unless the useLog value at that call is False on every path. Each
public operation taking useLog is analysed with useLog=False (no event on any
exit, normal or exceptional), and with useLog=True (exactly one event on every
normal exit; the decorator itself is analysed in the same way and the body of a
decorated method must add none). Each public operation without useLog must
have no event. The writers of the session logger are analysed likewise with
the database insertion as the event. Events of nested validation runs
(deepRun) must be conditional on the deep logging option."""

ASSUMPTIONS = [
    'calls on values of unknown class that are not resolvable by method name '
    'do not log',
    'user supplied callables do not log',
]

GATE = 'handleLogging'
MANY = 2


class Count(Domain):
    """facts: ('n', k) possible number of events so far (2 = more), and
    ('ev', where) the events that may have happened"""

    def __init__(self, gates, wrapped, nested=None):
        self.gates = gates          # functions whose call is an event
        self.wrapped = wrapped      # decorated functions
        self.nested = nested or (lambda f: None)

    def entry(self, I, fr):
        return frozenset([('n', 0), ('m', 0)])

    def _add(self, fr, st, node, what, c='n'):
        out = set()
        for f in st.facts:
            if f[0] == c:
                out.add((c, min(f[1] + 1, MANY)))
            else:
                out.add(f)
        out.add(('ev', (fr.func.loc(node), fr.func.short, what)))
        st.facts = frozenset(out)

    def on_call(self, I, fr, st, node, name, target, recv, args, kwargs):
        if not isinstance(target, Func):
            return
        if target in self.gates:
            v = I.bind(target, args, kwargs, st, recv).get('useLog')
            kind = self.kind(I, target, args, kwargs, st, recv)
            if v is not None and v.consts == frozenset([False]):
                return
            if kind == frozenset(['deepRun']):
                return      # see deep_guard
            if kind == frozenset(['tuning']):
                # the search has an entry of its own
                self._add(fr, st, node, 'tuning entry', 'm')
                return
            self._add(fr, st, node, '%s(%s)' % (
                name, ', '.join(sorted(map(str, kind or ())))))
            return
        if 'useLog' not in target.params:
            return
        if target in self.wrapped or I.by_contract:
            v = I.bind(target, args, kwargs, st, recv).get('useLog')
            if v is not None and v.consts == frozenset([False]):
                return
            inner = self.nested(target)
            if inner is not None and max(counts(inner) or [0]) == 0:
                # called by an operation it writes nothing of its own
                if max(counts(inner, 'm') or [0]):
                    pre = st.facts
                    self._add(fr, st, node, 'tuning entry', 'm')
                    st.facts = st.facts | pre
                return
            self._add(fr, st, node, 'operation %s without useLog=False'
                      % name)

    @staticmethod
    def kind(I, target, args, kwargs, st, recv):
        v = I.bind(target, args, kwargs, st, recv).get('logType')
        return v.consts if v is not None else None

    def exit_facts(self, I, fr, b, pre, callee):
        out = {f for f in pre | callee if f[0] not in ('n', 'm')}
        for f in pre:
            if f[0] not in ('n', 'm'):
                continue
            for g in callee:
                if g[0] == f[0]:
                    out.add((f[0], min(f[1] + g[1], MANY)))
        return frozenset(out)


def counts(facts, c='n'):
    return sorted({f[1] for f in facts or () if f[0] == c})


def events(facts):
    return ['%s (%s): %s' % (fn, loc, what) for _, (loc, fn, what) in sorted(
        f for f in facts or () if f[0] == 'ev')]


def any_entry(facts):
    return any(max(counts(facts, c) or [0]) > 0 for c in 'nm')


def trackers(p):
    """decorators that note on themselves whether a call is the user's or one
    made by another operation: {decorator: attribute}"""
    out = {}
    for f in p.funcs:
        if f.parent is None:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Attribute)
                    and isinstance(t.value, ast.Name)
                    and t.value.id == f.parent.name for t in n.targets):
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        out[f.parent] = t.attr
    return out


def find_gate(p):
    """function that decides on useLog and looks up the writer"""
    fs = [f for f in p.funcs if f.parent is None and f.cls is None
          and f.name == GATE]
    if len(fs) != 1 or 'useLog' not in fs[0].params:
        raise AnalysisError('the log gateway %s(useLog, logType, ...) was '
                            'not found' % GATE)
    return fs[0]


def log_decorators(p, gate):
    """decorator functions with an inner function that calls the gateway;
    -> {decorator: inner}"""
    out = {}
    for f in p.funcs:
        if f.parent is None or 'useLog' not in f.params:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and p.resolve_expr(
                    f.module, n.func) is gate:
                out[f.parent] = f
    if not out:
        raise AnalysisError('no logging decorator found')
    return out


def run(rep):
    p, nim = rep.prog, rep.nim
    gate = find_gate(p)
    decs = log_decorators(p, gate)
    wrapped = set()
    for f in p.funcs:
        for d in f.decos:
            if p.resolve_expr(f.module, d) in decs:
                wrapped.add(f)
    rep.count('decorated_operations', len(wrapped))
    rep.floor('decorated_operations', 30)
    tracked = {}
    track = trackers(p)
    for f in p.funcs:
        for d in f.decos:
            t = p.resolve_expr(f.module, d)
            if t in track:
                tracked[f] = track[t]
    rep.count('tracked_operations', len(tracked))

    def interp(entry, nested=None):
        I = Interp(p, nim, Count({gate}, wrapped, nested), contracts=True)
        I.keep_consts = ('useLog',)
        if entry is not None:
            I.attr_consts = {a: entry for a in track.values()}
        return I

    inner = interp(False)
    cache = {}

    def nested(f):
        if f not in tracked:
            return None
        if f not in cache:
            cache[f] = inner.analyse(f, f.cls, consts={'useLog': True}).facts
        return cache[f]

    outside = interp(None)
    inside = interp(True, nested)

    def judge(f, cls, label, takes):
        I = inside if f in tracked else outside
        rep.count('entry_points')
        deco = f in wrapped
        if not takes or deco:
            # a decorated body is always called with None
            s = I.analyse(f, cls, consts={'useLog': None} if deco else None)
            facts = (s.facts or EMPTY) | (s.anyexc or EMPTY)
            if any_entry(facts):
                rep.add('extra-entry', where(facts),
                        '%s may write a log entry %s' % (
                            label, 'besides the one it is asked for' if deco
                            else 'although it takes no useLog'),
                        f.loc(), events(facts))
            return
        rep.count('with_useLog')
        s = I.analyse(f, cls, consts={'useLog': False})
        facts = (s.facts or EMPTY) | (s.anyexc or EMPTY)
        if any_entry(facts):
            rep.add('logs-when-off', where(facts),
                    '%s(useLog=False) may write a log entry' % label,
                    f.loc(), events(facts))
        if any((dotted(d) or '').endswith('contextmanager')
               for d in f.decos):
            want = [2]
        else:
            want = [1]
        for val in (True, None):
            s = I.analyse(f, cls, consts={'useLog': val})
            c = counts(s.facts)
            if c == [0] and counts(s.facts, 'm') == [1]:
                continue        # the search itself
            if s.facts is not None and c != want:
                rep.add('not-once', label,
                        '%s(useLog=%s) writes %s log entries, not exactly '
                        'one' % (label, val, ' or '.join(
                            'several' if x == MANY else str(x) for x in c)),
                        f.loc(), events(s.facts))

    for cls in nim.concrete + nim.axis_concrete:
        for name, f in sorted(public_methods(nim, cls).items()):
            judge(f, cls, '%s.%s' % (cls.name, name), 'useLog' in f.params)
        f = cls.lookup('__init__')
        judge(f, cls, '%s()' % cls.name, 'useLog' in f.params)
    for f, label in sorted(module_functions(rep).items(),
                           key=lambda x: x[1]):
        if writes_user_entry(p, f):
            rep.sample('user_entry_functions', label)
            continue
        judge(f, None, label, 'useLog' in f.params)
    for cls in other_classes(rep):
        for name, f in sorted(public_methods(nim, cls).items()):
            judge(f, cls, '%s.%s' % (cls.name, name), 'useLog' in f.params)
        f = cls.lookup('__init__')
        if f is not None:
            # validators take useLog for the runs they make later
            s = outside.analyse(f, cls)
            facts = (s.facts or EMPTY) | (s.anyexc or EMPTY)
            if max(counts(facts) or [0]) > 0:
                rep.add('extra-entry', where(facts),
                        'creating a %s may write a log entry' % cls.name,
                        f.loc(), events(facts))
    for d, body in decs.items():
        for val, want in ((False, [0]), (True, [1]), (None, [1])):
            s = outside.analyse(body, None, consts={'useLog': val})
            rep.count('decorators')
            if counts(s.facts) != want:
                rep.add('decorator', '%s:%s' % (d.qual, val),
                        'the logging decorator writes %s entries for '
                        'useLog=%s' % (counts(s.facts), val), body.loc())
    rep.floor('entry_points', 1500)
    rep.floor('with_useLog', 20)
    gateway(rep, p, nim, gate)
    deep_guard(rep, p, gate)
    writers(rep, p, nim, gate)
    rep.count('functions_summarised', len(outside.cache) +
              len(inside.cache))


def gateway(rep, p, nim, gate):
    """the gateway hands on exactly the requested entries"""
    class Through(Domain):
        def entry(self, I, fr):
            return frozenset([('n', 0), ('m', 0)])

        def on_call(self, I, fr, st, node, name, target, recv, args, kwargs):
            if fr.func is gate and (
                    target is None or not isinstance(target, Func) or
                    'useLog' in target.params and 'logType' not in
                    target.params and len(target.params) > 1):
                Count._add(self, fr, st, node, 'writer')
        exit_facts = Count.exit_facts

    I = Interp(p, nim, Through(), contracts=True)
    I.keep_consts = ('useLog',)
    for val, want in ((False, [0]), (True, [1])):
        s = I.analyse(gate, None, consts={'useLog': val})
        c = counts(s.facts)
        if c != want:
            rep.add('gateway', str(val), '%s(useLog=%s) hands on %s entries'
                    % (gate.name, val, c), gate.loc(), events(s.facts))
    f = p.func('nimble.core.logger.session_logger.loggingEnabled')
    for val in (False, True):
        s = I.analyse(f, None, consts={'useLog': val})
        if s.ret is None or s.ret.consts != frozenset([val]):
            rep.add('gateway', 'loggingEnabled:%s' % val,
                    'the explicit choice useLog=%s is not what decides '
                    'whether to log' % val, f.loc())


def where(facts):
    ev = sorted(f[1] for f in facts if f[0] == 'ev')
    return '%s:%s' % (ev[0][1], ev[0][2]) if ev else 'tuning'


def writes_user_entry(p, f):
    """nimble.log: calls the writer of the active logger directly"""
    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr == 'log' and \
                (dotted(n.func) or '').endswith('active.log'):
            return True
    return False


def deep_guard(rep, p, gate):
    """entries of nested runs depend on the deep logging option"""
    sites = []
    for f in p.funcs:
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and p.resolve_expr(
                    f.module, n.func) is gate:
                kind = n.args[1] if len(n.args) > 1 else next(
                    (k.value for k in n.keywords if k.arg == 'logType'), None)
                if isinstance(kind, ast.Constant) and \
                        kind.value == 'deepRun':
                    sites.append((f, n))
    for func, node in sites:
        rep.count('deep_events')
        a = node.args[0] if node.args else None
        exprs = [a]
        if isinstance(a, ast.Name):
            exprs = [n.value for n in walk_own(func.node)
                     if isinstance(n, ast.Assign) and any(
                         isinstance(t, ast.Name) and t.id == a.id
                         for t in n.targets)]
        ok = bool(exprs)
        for e in exprs:
            calls = set()
            if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
                calls = {dotted(c.func) for c in e.values
                         if isinstance(c, ast.Call)}
            elif isinstance(e, ast.Call):
                calls = {dotted(e.func)}
            if not any((c or '').endswith('deepLoggingEnabled')
                       for c in calls):
                ok = False
        if not ok and guarded_by(func, node, 'deepLoggingEnabled'):
            ok = True
        if not ok:
            rep.add('deep-unconditional', func.qual,
                    'entries of nested runs are written without asking for '
                    'deep logging', func.loc(node))
    rep.floor('deep_events', 1)


def guarded_by(func, node, call):
    def walk(stmts, g):
        for s in stmts:
            if isinstance(s, ast.If):
                t = g or any(isinstance(c, ast.Call) and (
                    dotted(c.func) or '').endswith(call)
                    for c in ast.walk(s.test))
                if walk(s.body, t) or walk(s.orelse, g):
                    return True
            elif any(x is node for x in ast.walk(s)):
                bodies = [getattr(s, k, None) or [] for k in (
                    'body', 'orelse', 'finalbody')]
                if any(bodies):
                    return any(walk(b, g) for b in bodies)
                return g
        return False
    return walk(func.node.body, False)


def writers(rep, p, nim, gate):
    """the methods reachable from the gateway insert exactly one entry"""
    cls = p.cls('nimble.core.logger.session_logger.SessionLogger')
    ins = cls.lookup('log')
    if ins is None:
        raise AnalysisError('SessionLogger.log not found')

    class Ins(Domain):
        def entry(self, I, fr):
            return frozenset([('n', 0), ('m', 0)])

        def on_call(self, I, fr, st, node, name, target, recv, args, kwargs):
            if target is ins:
                Count._add(self, fr, st, node, 'insertion')
        exit_facts = Count.exit_facts

    I = Interp(p, nim, Ins(), contracts=True)
    I.keep_consts = ('useLog',)
    for name, f in sorted(public_methods(nim, cls).items()):
        if 'useLog' not in f.params:
            continue
        rep.count('log_writers')
        for val, want in ((False, [0]), (True, [1])):
            s = I.analyse(f, cls, consts={'useLog': val})
            c = counts(s.facts)
            if s.facts is not None and c != want:
                rep.add('writer', '%s:%s' % (f.qual, val),
                        '%s(useLog=%s) inserts %s entries' % (
                            f.short, val, c), f.loc(), events(s.facts))
    rep.floor('log_writers', 5)
    # nobody writes around the gateway
    names = {n for n, f in public_methods(nim, cls).items()
             if 'useLog' in f.params} - {'log'}
    for f in p.funcs:
        if f.cls is cls or f is gate:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr in names:
                d = dotted(n.func) or ''
                if 'logger' in d or 'active' in d:
                    rep.add('around-gateway', f.qual,
                            '%s writes to the log without the gateway'
                            % f.short, f.loc(n))
