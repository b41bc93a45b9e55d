"""C13 arguments reach the operation they name"""
import ast
import re
from ..flow import Flow, MISSING, parents, terminates
from ..influence import Influence, Faint, own_params, statements
from ..model import Func, walk_own

EXPLANATION = """
Three whole-program queries over the syntax tree and the resolved calls.
(1) Faint-variable analysis, backwards through every function and to a
fixpoint over the call graph: a parameter influences its operation when its
value on entry can reach a returned value, a store, a condition that decides
more than whether an exception is raised, or a parameter with influence of a
function called; being checked, shown in a message or logged is none. Every
parameter of a public operation, of the shared code below it and of each
storage type's implementation must have influence; and where a call leaves out
an argument of which the caller has a parameter of the same name, that
parameter must have influence on the paths through this call; where two
parameters are merged, neither is handed on alone afterwards. (2) Binding of
the arguments of every resolved call: an argument named like one parameter of
the callee must not arrive at another one, a value whose name says one of two
roles (start/end, point/feature, train/test, x/y, row/column, ...) not at a
parameter of the other role, and the values a function returns or keeps not
under each other's names. (3) Code that does one thing for points and the same
for features is compared token by token with the roles exchanged: either all
of it is exchanged or none."""

ASSUMPTIONS = [
    'a value that is used in a computation influences its result (x * 0 is '
    'not recognised)',
    'names that carry a role (start, end, point, feature, ...) say what a '
    'value is',
]

SILENT = ('nimble.core.logger',)

# parameters that only matter to some implementations: hints, sizes that
# follow from the other arguments, parts of a fixed protocol
UNUSED = {
    ('_calculate_implementation', 'preserveZeros'):
        'a hint for sparse storage',
    ('_splitByParsing_implementation', 'numRetFeatures'):
        'follows from the other arguments',
    ('_splitByCollapsingFeatures_implementation', 'currNumPoints'):
        'follows from the data',
    ('_referenceFrom_implementation', 'other'):
        'only sparse storage has more than the data to take over',
    ('_extractNamesFromListOfDict', 'copied'):
        'the data is never changed here',
    ('_optionDefaults', 'option'): 'no option has a default',
    ('_diagnoseFailureAndRaiseException', 'opName'): 'always raises',
    ('_diagnoseFailureAndRaiseException', 'error'): 'always raises',
    ('isDataFile', 'filename'): 'every file is a data file here',
    ('learnerType', 'name'): 'the same for all learners',
    ('_applyBackend', 'customDict'): 'nothing was kept there by training',
    ('_applyBackend', 'learnerName'): 'only named in the refusal',
    ('train', 'trainY'): 'an imputation has no labels',
}

# forwarding calls that leave an argument out because it was, or will be,
# dealt with otherwise
ELSEWHERE = {
    ('meanStandardDeviationNormalize', 'meanNormalize', 'values2'),
    ('createConstantHelper', 'data', 'returnType'),
    ('generateClusteredPoints', 'data', 'returnType'),
    ('trainAndTestOnTrainingData', '__init__', 'performanceFunction'),
    ('_copy_outputAs1D', '_copy_implementation', 'to'),
    ('_copy_nestedPythonTypes', '_copy_implementation', 'to'),
    ('_transformEachElement_noPreserve_implementation',
     'calculateOnElements', 'points'),
    ('_transformEachElement_noPreserve_implementation',
     'calculateOnElements', 'features'),
    ('_countUnique_implementation', 'denseCountUnique', 'points'),
    ('_countUnique_implementation', 'denseCountUnique', 'features'),
}

# one side written with the names of the other, the rest exchanged
MIRRORS = [
    {'point': 'feature', 'points': 'features', 'pt': 'ft', 'pts': 'fts',
     'row': 'col', 'rows': 'cols', 'ps': 'fs', 'pe': 'fe', 'p': 'f'},
    {'left': 'right', 'l': 'r'},
    {'x': 'y'},
    {'train': 'test', 'training': 'testing'},
    {'start': 'end', 'starts': 'ends'},
    {'min': 'max', 'minimum': 'maximum', 'lower': 'upper'},
    {'known': 'predicted'},
]
# what both sides share although its name belongs to one
SHARED = {
    ('_merge_implementation', 'tmpDfL'): 'holds both sides after the join',
}

WORDS = re.compile(r'[A-Z]+(?![a-z])|[A-Z]?[a-z]+|[0-9]+')
PAIRS = [
    ({'point', 'points', 'pt', 'pts', 'ps', 'pe'},
     {'feature', 'features', 'ft', 'fts', 'fs', 'fe'}),
    ({'start', 'starts', 'begin', 'ps', 'fs'},
     {'end', 'ends', 'stop', 'pe', 'fe'}),
    ({'train', 'training'}, {'test', 'testing'}),
    ({'x'}, {'y'}),
    ({'left'}, {'right'}),
    ({'row', 'rows'}, {'col', 'cols', 'column', 'columns'}),
    ({'min', 'minimum', 'lower'}, {'max', 'maximum', 'upper'}),
    ({'include'}, {'exclude'}),
    ({'known'}, {'predicted'}),
]


def words(s):
    return {w.lower() for w in WORDS.findall(s)}


def side(s, pair):
    """0 / 1, None for neither, 2 for both"""
    w = words(s)
    a, b = bool(w & pair[0]), bool(w & pair[1])
    return 2 if a and b else 0 if a else 1 if b else None


def named(e):
    """what an argument is called: a name, or an attribute"""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr.lstrip('_')
    return None


class Arguments:
    def __init__(self, rep):
        self.rep, self.prog, self.nim = rep, rep.prog, rep.nim
        self.flow = Flow(self.prog)
        self.inf = Influence(self.prog, self.flow, SILENT)
        self.par = {}
        self._hooks = None

    def parents(self, f):
        got = self.par.get(f)
        if got is None:
            got = self.par[f] = parents(f.node)
        return got

    # ------------------------------------------------------- influence
    def influence(self):
        log = Influence(self.prog, self.flow)
        for f in self.inf.funcs:
            if f in self.inf.empty or f in self.inf.refusing or \
                    f.is_abstract or f.parent is not None:
                continue
            if f.name.startswith('__') and f.name not in (
                    '__init__', '__call__', '__getitem__', '__setitem__',
                    '__contains__'):
                continue
            inf = log if f.module.name.startswith(SILENT) else self.inf
            ps = [p for p in own_params(f)
                  if p != 'useLog' and not p.startswith('_')]
            lost = [p for p in ps if p not in inf.eff[f]]
            self.rep.count('parameters_analysed', len(ps))
            if not lost or f in self.hooks() or self.checker(f, inf):
                continue
            public = not f.name.startswith('_') or f.name.startswith('__')
            if not public:
                # a protocol that others fill in with more or less
                if f.module.name.startswith('nimble.core.interfaces') and \
                        len(self.flow.methods.get(f.name, ())) > 1:
                    continue
            for p in lost:
                if (f.name, p) in UNUSED or self.refuses(f, p):
                    continue
                kind = 'public operation' if public else 'function'
                self.rep.add(
                    'no-influence', '%s|%s' % (f.short, p),
                    "the argument '%s' of the %s %s has no influence on "
                    'what it does: no use of it reaches a result, a store, '
                    'a decision or another function that uses it'
                    % (p, kind, f.short), f.loc(f.node),
                    self.lost_at(f, p, inf))

    def checker(self, f, inf):
        """only there to raise: gives nothing back and changes nothing"""
        return self._checker(f, set())

    def _checker(self, f, seen):
        if f in seen or isinstance(f.node, ast.Lambda):
            return f in seen
        seen.add(f)
        if f.name in ('__init__',) or f.is_generator:
            return False
        for n in walk_own(f.node):
            if isinstance(n, ast.Return) and n.value is not None and not (
                    isinstance(n.value, ast.Constant)):
                return False
            if isinstance(n, (ast.Attribute, ast.Subscript)) and \
                    isinstance(n.ctx, (ast.Store, ast.Del)):
                return False
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global)):
                return False
        raises = any(isinstance(n, ast.Raise) for n in walk_own(f.node))
        for n in walk_own(f.node):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                ts = self.inf.targets(f, n.value)
                if ts and all(self._checker(t.func, seen) for t in ts):
                    raises = True
                    continue
                fn = n.value.func
                if isinstance(fn, ast.Attribute) and isinstance(
                        fn.value, ast.Name) and fn.attr in (
                        'append', 'add', 'extend') and \
                        fn.value.id not in f.params:
                    continue
                return False
        return raises

    def hooks(self):
        """functions handed on as values: who calls them says what they
        are given"""
        if self._hooks is None:
            self._hooks = set()
            for f in self.prog.funcs:
                called = {n.func for n in walk_own(f.node)
                          if isinstance(n, ast.Call)}
                for n in walk_own(f.node):
                    if isinstance(n, ast.Name) and isinstance(
                            n.ctx, ast.Load) and n not in called:
                        e = self.flow.entity(f, n)
                        if isinstance(e, Func):
                            self._hooks.add(e)
                    elif isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, ast.Load) and n not in called and \
                            isinstance(n.value, ast.Name) and \
                            n.value.id == self.flow.self_name(f) and \
                            f.cls is not None:
                        for c in [f.cls] + f.cls.all_subs():
                            g = c.lookup(n.attr)
                            if g is not None and not g.is_property:
                                self._hooks.add(g)
        return self._hooks

    def refuses(self, f, p):
        """the parameter decides about an exception of a private helper that
        besides hands something back"""
        if not f.name.startswith('_') or f.name.startswith('__'):
            return False
        live = Faint(self.inf, f)
        for n in walk_own(f.node):
            if isinstance(n, (ast.If, ast.Assert)):
                reads = any(isinstance(x, ast.Name) and x.id == p
                            for x in ast.walk(n.test))
                if reads and (isinstance(n, ast.Assert) or any(
                        isinstance(x, ast.Raise)
                        for s in n.body + n.orelse for x in ast.walk(s))):
                    return True
        return False

    def lost_at(self, f, p, inf):
        out = []
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                for a, yes in inf.passes(f, n):
                    if not yes and isinstance(a, ast.Name) and a.id == p:
                        ts = inf.targets(f, n)
                        out.append('%s: given to %s, where it has none' % (
                            f.loc(n), ', '.join(sorted(
                                {t.func.short for t in ts}))))
        return out[:6] or ['not read' if not any(
            isinstance(n, ast.Name) and n.id == p and
            isinstance(n.ctx, ast.Load) for n in ast.walk(f.node))
            else 'only checked, shown or logged']

    # ------------------------------------------------ arguments left out
    def left_out(self):
        for f in self.inf.funcs:
            mine = [p for p in own_params(f) if p != 'useLog']
            if not mine:
                continue
            for n in walk_own(f.node):
                if not isinstance(n, ast.Call):
                    continue
                got = {}
                for t in self.inf.targets(f, n):
                    g = t.func
                    if isinstance(g.node, ast.Lambda):
                        continue
                    # forwarding: named exactly, or given arguments of its
                    # own under the same names
                    if not t.exact and not any(
                            named(v) == q and q in mine for q, v in
                            self.flow.binding(t, n).items()):
                        continue
                    for q in own_params(g):
                        if q not in mine or q == g.kwarg or \
                                q == g.vararg or q not in self.inf.eff[g]:
                            continue
                        a = self.flow.argument(t, n, q)
                        if a is MISSING or isinstance(a, ast.Constant):
                            got.setdefault(q, g)
                for q, g in got.items():
                    self.rep.count('omitted_arguments')
                    how = ''
                    if q in self.on_path(f, n):
                        if (f.name, g.name, q) in ELSEWHERE or \
                                not self.forwards(f, n, g, mine):
                            continue
                    else:
                        how = ' and does not use it in any other way on ' \
                            'that path'
                    self.rep.add(
                        'argument-left-out',
                        '%s|%s|%s' % (f.short, g.short, q),
                        "%s forwards its arguments to %s but leaves out its "
                        "own '%s'%s" % (f.short, g.short, q, how), f.loc(n))

    def superseded(self):
        """two parameters that say the same kind of thing are merged: what
        is done from there on must be given what became of both"""
        for f in self.inf.funcs:
            mine = set(own_params(f)) | {f.kwarg}
            for n in walk_own(f.node):
                if not (isinstance(n, ast.Assign) and isinstance(
                        n.value, ast.Call) and len(n.targets) == 1 and
                        isinstance(n.targets[0], ast.Name)):
                    continue
                ts = [t.func for t in self.inf.targets(f, n.value)]
                if len(ts) != 1 or not ts[0].name.startswith('merge'):
                    continue
                src = {a.id for a in list(n.value.args) + [
                    k.value for k in n.value.keywords]
                    if isinstance(a, ast.Name) and a.id in mine}
                if len(src) < 2:
                    continue
                self.rep.count('merged_arguments')
                src.discard(n.targets[0].id)
                for c, name in self.after(f, n, src):
                    self.rep.add(
                        'merged-apart', '%s|%s' % (f.short, name),
                        "%s merges '%s' into '%s' and then hands on '%s' "
                        'alone: what was merged with it is lost on this '
                        'path' % (f.short, name, n.targets[0].id, name),
                        f.loc(c))

    def after(self, f, n, names):
        """calls after statement n that are handed one of the names"""
        par = self.parents(f)
        cur = n
        while cur is not f.node and cur in par:
            up = par[cur]
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(up, fld, None)
                if not (isinstance(b, list) and cur in b):
                    continue
                for s in b[b.index(cur) + 1:]:
                    if isinstance(s, ast.Assign) and any(
                            isinstance(t, ast.Name) and t.id in names
                            for t in s.targets):
                        return
                    for c in ast.walk(s):
                        if not isinstance(c, ast.Call):
                            continue
                        for a in list(c.args) + [k.value for k in
                                                 c.keywords]:
                            if isinstance(a, ast.Starred):
                                a = a.value
                            if isinstance(a, ast.Name) and a.id in names:
                                ts = self.inf.targets(f, c)
                                if ts and all(self.checker(t.func, self.inf)
                                              for t in ts):
                                    continue
                                if not ts and not isinstance(
                                        c.func, ast.Attribute):
                                    continue    # isinstance, len, ...
                                yield c, a.id
            cur = up

    def forwards(self, f, n, g, mine):
        """several arguments are handed on under their names"""
        ts = list(self.inf.targets(f, n))
        for t in ts:
            if t.func is g and (t.exact or len(ts) == 1):
                return sum(named(v) == q and q in mine for q, v in
                           self.flow.binding(t, n).items()) > 1
        return False

    def on_path(self, f, call):
        """parameters with influence on the paths through a call"""
        par = self.parents(f)
        keep = {}
        cur = call
        while cur in par:
            up = par[cur]
            if isinstance(up, ast.If) and cur is not up.test:
                keep[up] = cur in up.body
            elif isinstance(up, ast.IfExp) and cur is not up.test:
                pass
            cur = up

        def prune(body):
            out = []
            for s in body:
                if isinstance(s, ast.If) and s in keep:
                    a = prune(s.body) if keep[s] else []
                    b = [] if keep[s] else prune(s.orelse)
                    new = ast.If(test=s.test, body=a or [ast.Pass()],
                                 orelse=b)
                    out.append(ast.copy_location(new, s))
                    # nothing after a branch that does not come back
                    if terminates(s.body if keep[s] else s.orelse):
                        break
                elif isinstance(s, (ast.For, ast.While, ast.With, ast.Try)):
                    if any(k in keep for k in ast.walk(s)):
                        new = type(s)(**{fl: getattr(s, fl)
                                         for fl in s._fields
                                         if hasattr(s, fl)})
                        new.body = prune(s.body)
                        out.append(ast.copy_location(new, s))
                    else:
                        out.append(s)
                else:
                    out.append(s)
            return out
        live = Faint(self.inf, f)
        live.f = f.node
        node = ast.FunctionDef(
            name=f.name, args=f.node.args, body=prune(f.node.body),
            decorator_list=[], returns=None, type_comment=None)
        ast.copy_location(node, f.node)
        live.f = node
        return live.entry()

    # ------------------------------------------------------------ names
    def crossing(self):
        for f in self.prog.funcs:
            if isinstance(f.node, ast.Lambda):
                continue
            known = self.flow.local_names(f) | set(f.params)
            self.crossed_update(f)
            for n in walk_own(f.node):
                if isinstance(n, ast.Call):
                    self.crossed_call(f, n, known)
                elif isinstance(n, ast.Assign):
                    self.crossed_store(f, n)
                elif isinstance(n, ast.Dict):
                    self.crossed_pairs(
                        f, n, [(k.value, v) for k, v in
                               zip(n.keys, n.values)
                               if isinstance(k, ast.Constant) and
                               isinstance(k.value, str)])

    def crossed_call(self, f, n, known):
        self.crossed_pairs(f, n, [(k.arg, k.value) for k in n.keywords
                                  if k.arg])
        ts = [t for t in self.inf.targets(f, n)
              if not isinstance(t.func.node, ast.Lambda)]
        if not ts:
            return
        self.rep.count('calls_bound')
        found = []
        for t in ts:
            g = t.func
            ps = set(own_params(g))
            b = self.flow.binding(t, n)
            hit = None
            for q, v in b.items():
                self.rep.count('arguments_bound')
                x = named(v)
                if x is None or x == q or x not in ps or q not in ps or \
                        x in ('self',):
                    continue
                other = b.get(x)
                if other is not None and named(other) == x and \
                        q not in f.params:
                    continue
                if q in known or other is not None and named(other) == q:
                    hit = (x, q, g)
            found.append(hit)
        if all(found) and self.turned(f, n):
            return
        if all(found):
            x, q, g = found[0]
            self.rep.add(
                'crossed-argument', '%s|%s|%s' % (f.short, g.short, x),
                "%s gives its '%s' to the parameter '%s' of %s, which has a "
                "parameter '%s'" % (f.short, x, q, g.short, x), f.loc(n))
            return
        # roles
        for i, pair in enumerate(PAIRS):
            bad = []
            for t in ts:
                b = self.flow.binding(t, n)
                hit = None
                for q, v in b.items():
                    r = side(q, pair)
                    if r not in (0, 1):
                        continue
                    got = self.role(f, v, pair)
                    if got is not None:
                        self.rep.count('role_arguments')
                    if got == 1 - r and not (i == 2 and r == 1):
                        hit = (q, v, t.func)
                bad.append(hit)
            if bad and all(bad):
                q, v, g = bad[0]
                self.rep.add(
                    'other-role', '%s|%s|%s' % (f.short, g.short, q),
                    "%s gives '%s' to the parameter '%s' of %s" % (
                        f.short, ast.unparse(v)[:60], q, g.short), f.loc(n))

    def turned(self, f, n):
        """where rows are features the two change places"""
        if 'transpose' in f.name.lower():
            return True
        par = self.parents(f)
        cur = n
        while cur in par:
            up = par[cur]
            if isinstance(up, (ast.If, ast.IfExp)) and any(
                    words(x.id if isinstance(x, ast.Name) else x.attr) &
                    {'rows', 'transpose', 'transposed'}
                    for x in ast.walk(up.test)
                    if isinstance(x, (ast.Name, ast.Attribute))):
                return True
            cur = up
        return False

    def role(self, f, v, pair, depth=0):
        """the one role an expression speaks of, or None"""
        if any(isinstance(x, (ast.BinOp, ast.Subscript, ast.IfExp,
                              ast.Lambda, ast.Compare, ast.BoolOp,
                              ast.UnaryOp, ast.comprehension))
               for x in ast.walk(v)):
            return None
        got = set()
        for n in ast.walk(v):
            if isinstance(n, ast.Name):
                s = side(n.id, pair)
                if s is None and depth < 2 and n.id not in f.params:
                    vals = self.flow.assigns(f).get(n.id, [])
                    if len(vals) == 1 and isinstance(
                            vals[0], (ast.Name, ast.Attribute)):
                        s = self.role(f, vals[0], pair, depth + 1)
            elif isinstance(n, ast.Attribute):
                s = side(n.attr, pair)
            elif isinstance(n, ast.Constant) and isinstance(
                    n.value, str) and n.value.isidentifier():
                s = side(n.value, pair)
            else:
                continue
            if s is not None:
                got.add(s)
        return got.pop() if len(got) == 1 and 2 not in got else None

    def crossed_pairs(self, f, n, items):
        """{'start': end, 'end': start}"""
        d = {k: named(v) for k, v in items}
        self.rep.count('keyword_values', len(d))
        for k, x in d.items():
            if x and x != k and d.get(x) == k and k < x:
                self.rep.add(
                    'crossed-pair', '%s|%s|%s' % (f.short, k, x),
                    "%s gives '%s' under the name '%s' and the other way "
                    'round' % (f.short, x, k), f.loc(n))

    def crossed_store(self, f, n):
        for t in n.targets:
            if isinstance(t, ast.Subscript) and isinstance(
                    t.slice, ast.Constant) and isinstance(
                    t.slice.value, str) and t.slice.value.isidentifier():
                self.entry_role(f, n, t)
            if isinstance(t, ast.Attribute):
                k, x = t.attr.lstrip('_'), n.value
                if isinstance(x, ast.Name) and x.id != k and \
                        k in f.params and x.id in f.params and \
                        isinstance(t.value, ast.Name) and \
                        t.value.id == self.flow.self_name(f):
                    # the own value of k kept nowhere else under its name
                    if not any(isinstance(s, ast.Assign) and
                               isinstance(s.value, ast.Name) and
                               s.value.id == k and
                               any(isinstance(u, ast.Attribute) and
                                   u.attr.lstrip('_') == k
                                   for u in s.targets)
                               for s in walk_own(f.node)):
                        self.rep.add(
                            'crossed-store', '%s|%s|%s' % (
                                f.short, k, x.id),
                            "%s keeps its argument '%s' as '%s'" % (
                                f.short, x.id, t.attr), f.loc(n))
            elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(
                    n.value, ast.Call):
                self.crossed_result(f, n, t)

    def entry_role(self, f, n, t):
        """kwds['start'] = end"""
        for pair in PAIRS:
            r = side(t.slice.value, pair)
            if r not in (0, 1):
                continue
            got = self.role(f, n.value, pair)
            if got is not None:
                self.rep.count('role_arguments')
            if got == 1 - r:
                self.rep.add(
                    'other-role', '%s|%s' % (f.short, t.slice.value),
                    "%s puts '%s' under the key '%s'" % (
                        f.short, ast.unparse(n.value)[:60],
                        t.slice.value), f.loc(n))

    def crossed_result(self, f, n, t):
        """a, b = g(...) where g returns b, a"""
        want = [named(e) for e in t.elts]
        ts = self.inf.targets(f, n.value)
        for tg in ts:
            g = tg.func
            if isinstance(g.node, ast.Lambda):
                return
            for r in walk_own(g.node):
                if not (isinstance(r, ast.Return) and
                        isinstance(r.value, ast.Tuple) and
                        len(r.value.elts) == len(want)):
                    continue
                self.rep.count('returned_tuples')
                have = [named(e) for e in r.value.elts]
                for i, w in enumerate(want):
                    if not w or not have[i] or have[i] == w:
                        continue
                    if w in g.params and have[i] in g.params and all(
                            w in map(named, n.value.args)
                            for w in (w, have[i])):
                        continue        # exchanging them is its purpose
                    if w in have and have[i] in want:
                        self.rep.add(
                            'crossed-result', '%s|%s|%s' % (
                                f.short, g.short, w),
                            "%s returns '%s' where %s takes it for '%s'"
                            % (g.short, have[i], f.short, w), f.loc(n),
                            ['returned at %s' % g.loc(r)])

    def crossed_update(self, f):
        """start = index(start); end = index(start)"""
        done = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name) and \
                    n.targets[0].id in f.params and \
                    isinstance(n.value, ast.Call):
                p = n.targets[0].id
                fn = ast.unparse(n.value.func)
                given = [a.id for a in list(n.value.args) +
                         [k.value for k in n.value.keywords]
                         if isinstance(a, ast.Name) and a.id in f.params]
                done.setdefault(fn, []).append((p, given, n))
        for fn, lst in done.items():
            own = {p for p, given, _ in lst if p in given}
            self.rep.count('converted_arguments', len(own))
            for p, given, n in lst:
                for x in given:
                    if x in own and x != p and p not in given:
                        self.rep.add(
                            'crossed-update', '%s|%s|%s' % (f.short, p, x),
                            "%s converts its argument '%s' with %s and then "
                            "takes the conversion of '%s' for '%s'" % (
                                f.short, x, fn, x, p), f.loc(n))

    # ----------------------------------------------------------- mirror
    def mirror(self):
        ms = [Mirror(t) for t in MIRRORS]
        for f in self.prog.funcs:
            if isinstance(f.node, ast.Lambda):
                continue
            for a, b in neighbours(f.node):
                for m in ms:
                    self.mirrored(m, f, a, b)
        m = ms[0]
        pts, fts = self.prog.cls('Points'), self.prog.cls('Features')
        for name, f in sorted(pts.methods.items()):
            g = fts.methods.get(name)
            if g is None:
                continue
            got = m.compare(ast.Module(statements(f), []),
                            ast.Module(statements(g), []))
            if got is None:
                continue
            self.rep.count('mirrored_methods')
            sw, same, diff = got
            if diff or sw and same:
                self.rep.add(
                    'half-mirrored', '%s|%s' % (g.short, name),
                    '%s and %s are the same code for points and for '
                    'features, but differ in %s' % (
                        f.short, g.short, ', '.join(
                            repr(d) for d in diff + same)[:80]),
                    g.loc(g.node), [f.loc(f.node)])

    def mirrored(self, m, f, a, b):
        got = m.compare(a, b)
        if got is None or not got[0]:
            return
        self.rep.count('mirrored_statements')
        sw, same, diff = got
        if same and (f.name, same[0]) not in SHARED:
            self.rep.add(
                'half-mirrored', '%s|%s' % (f.short, same[0]),
                "in %s two statements do the same for %s, but both use '%s'"
                % (f.short, ' and '.join(sorted(
                    w for w in m.names(a) | m.names(b))), same[0]),
                f.loc(b), ['%s: %s' % (f.loc(a), first(a)),
                           '%s: %s' % (f.loc(b), first(b))])


def first(s):
    return ast.unparse(s).split('\n')[0][:90]


def neighbours(node):
    for n in [node] + list(walk_own(node)):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for i, s in enumerate(b):
                for j in (1, 2, 3):
                    if i + j < len(b):
                        yield s, b[i + j]
        if isinstance(n, ast.If) and n.orelse and \
                len(n.body) == len(n.orelse):
            yield from zip(n.body, n.orelse)


class Mirror:
    SPLIT = re.compile(r'[A-Z]+(?![a-z])|[A-Z]?[a-z0-9]+|[^A-Za-z0-9]+')

    def __init__(self, table):
        self.swaps = dict(table)
        self.swaps.update({v: k for k, v in table.items()})
        self.axes = 'point' in table

    def swap(self, s):
        out = []
        for w in self.SPLIT.findall(s):
            r = self.swaps.get(w.lower())
            if r is None:
                out.append(w)
            else:
                out.append(r.capitalize() if w[0].isupper() else r)
        return ''.join(out)

    def names(self, s):
        """the roles a statement speaks of"""
        out = set()
        for n in ast.walk(s):
            t = n.id if isinstance(n, ast.Name) else \
                n.attr if isinstance(n, ast.Attribute) else ''
            out |= {w.lower() for w in self.SPLIT.findall(t)
                    if w.lower() in self.swaps}
        return out

    def tokens(self, n):
        out = []

        def go(n):
            if self.axes and isinstance(n, ast.Subscript) and isinstance(
                    n.value, ast.Attribute) and n.value.attr in (
                    'shape', '_dims', 'dimensions') and isinstance(
                    n.slice, ast.Constant) and n.slice.value in (0, 1):
                go(n.value)
                out.append(('V', ('point', 'feature')[n.slice.value]))
            elif isinstance(n, ast.AST):
                out.append(('N', type(n).__name__))
                for fn, v in ast.iter_fields(n):
                    if fn not in ('ctx', 'type_comment', 'kind'):
                        go(v)
            elif isinstance(n, list):
                out.append(('L', len(n)))
                for x in n:
                    go(x)
            else:
                out.append(('V', n))
        go(n)
        return out

    def compare(self, a, b):
        """(exchanged tokens, role tokens left as they are, other
        differences) of two statements of the same form, else None"""
        ta, tb = self.tokens(a), self.tokens(b)
        if len(ta) != len(tb):
            return None
        sw, same, diff = 0, [], []
        for x, y in zip(ta, tb):
            if x[0] != y[0]:
                return None
            if x[0] != 'V':
                if x != y:
                    return None
                continue
            u, v = x[1], y[1]
            if isinstance(u, str) and isinstance(v, str):
                if self.swap(u) != u:
                    if self.swap(u) == v:
                        sw += 1
                    elif u == v:
                        same.append(u)
                    else:
                        return None
                elif u != v:
                    # prange, frange
                    if not self.axes or u[1:] != v[1:] or \
                            {u[:1], v[:1]} != {'p', 'f'}:
                        return None
                    sw += 1
            elif u != v:
                diff.append((u, v))
        return sw, same, diff


def run(rep):
    a = Arguments(rep)
    a.influence()
    a.left_out()
    a.superseded()
    a.crossing()
    a.mirror()
    rep.floor('parameters_analysed', 2000)
    rep.floor('arguments_bound', 7000)
    rep.floor('role_arguments', 1000)
    rep.floor('mirrored_statements', 200)
    rep.floor('mirrored_methods', 50)
    rep.floor('returned_tuples', 60)
    rep.floor('merged_arguments', 8)
