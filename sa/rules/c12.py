"""C12 every storage type supports every operation and option"""
import ast
from ..flow import Flow, guards, parents
from ..model import AnalysisError, Func, Cls, Var, walk_own, dotted

EXPLANATION = """
(steps) Every method that the shared code declares or calls on data objects,
points, features and stretched objects is looked up in each concrete class (four
storage types, their views, their points and features): it must end in an
implementation, and each implementation must accept the call as each call site
makes it (number of positional arguments, keywords, required parameters).
Overridden public methods accept the parameters of the method they override.
(options) From each public method that restricts an argument to a list of
values, every value (and every combination for methods with several) is
followed through the shared code into each implementation, deciding the tests
on it along the way (constant propagation per concrete class); what is left of
an implementation for one value has to differ from what is left for each other
value, no chain of tests on the option is left without a matching case, and
copy has to return the kind of object that the value names.  The parts of the
code shared by points and features must differ between the two.
(parameters) Every parameter of an implementation is used by it.
(refusals) No implementation refuses with an exception of its own what the
implementations of the other storage types accept."""

ASSUMPTIONS = [
    'two option values are handled if the code remaining for them differs; '
    'whether the code for one value is right is the subject of other '
    'properties',
]

# parameters without meaning for a storage type
UNUSED = {
    ('_calculate_implementation', 'preserveZeros'):
        'the function passed in already returns zero for zero',
    ('_splitByParsing_implementation', 'numRetFeatures'):
        'the number of columns follows from the concatenated frames',
    ('_splitByCollapsingFeatures_implementation', 'currNumPoints'):
        'coordinates are made from the points directly',
    ('_referenceFrom_implementation', 'other'): 'shared part',
}
# the values an argument may take where the shared code does not list them
# ('given*' is some value other than None)
OPTIONS = {
    ('base', 'merge'): {'point': ['union', 'intersection', 'left', 'strict'],
                        'feature': ['union', 'intersection', 'left',
                                    'strict'],
                        'onFeature': [None, 'given*']},
}
# steps that take an option: each implementation is walked with each value
STEPS = {
    '_merge_implementation': {'point': ['union', 'intersection', 'left'],
                              'feature': ['union', 'intersection', 'left'],
                              'onFeature': [None, 'given*']},
    '_structuralBackend_implementation': {'structure': ['copy', 'extract']},
}
# values that mean the same
SAME = [{'h5', 'hdf5'}, {'p', 'pkl', 'pickle'}]
OWN = {'InvalidArgumentValue', 'InvalidArgumentType', 'InvalidArgumentType',
       'InvalidArgumentValueCombination', 'ImproperObjectAction',
       'InvalidArgumentTypeCombination', 'NotImplementedError'}
KIND = {'pythonlist': 'list', 'numpyarray': 'array', 'numpymatrix': 'matrix',
        'scipycsr': 'csr', 'scipycsc': 'csc', 'scipycoo': 'coo',
        'pandasdataframe': 'frame'}
# consistency checks that no call can fail: counts of its own columns
INTERNAL = {'_setDtypes'}
UNKNOWN = object()
GIVEN = ('*',)


class Residual:
    """the text that remains of a function for given values of arguments"""

    def __init__(self, rule, f, cls, env, depth=0):
        self.rule, self.f, self.cls, self.depth = rule, f, cls, depth
        self.env = dict(env)
        self.out = []
        self.gaps = []      # (test node) chain without a case
        self.calls = []     # (call node, target, cls, env)
        self.returns = []   # (node, env)
        self.bound = set(f.params)
        me = f.method_self
        self.me = me
        self.messages = self.only_raised()

    def only_raised(self):
        """names that only serve messages of exceptions"""
        loads, raised = {}, {}
        for n in walk_own(self.f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                loads[n.id] = loads.get(n.id, 0) + 1
        for n in walk_own(self.f.node):
            if isinstance(n, ast.Raise):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name):
                        raised[x.id] = raised.get(x.id, 0) + 1
        return {k for k in raised if raised[k] == loads.get(k)}

    # ---- values
    def value(self, e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return self.env.get(e.id, UNKNOWN)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) \
                and e.value.id == self.me and self.cls is not None:
            if e.attr in ('_axis',):
                return self.rule.axis_name(self.cls)
            if e.attr == '_isPoint':
                v = self.rule.axis_name(self.cls)
                return v if v is UNKNOWN else v == 'point'
            return UNKNOWN
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            vs = [self.value(x) for x in e.elts]
            if any(v is UNKNOWN for v in vs):
                return UNKNOWN
            try:
                return set(vs) if isinstance(e, ast.Set) else \
                    list(vs) if isinstance(e, ast.List) else tuple(vs)
            except TypeError:
                return UNKNOWN
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.value(e.operand)
            return UNKNOWN if v is UNKNOWN else not v
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            unknown = False
            v = UNKNOWN
            for x in e.values:
                v = self.value(x)
                if v is UNKNOWN or v is GIVEN:
                    unknown = True
                elif bool(v) is stop:
                    return v
            return UNKNOWN if unknown else v
        if isinstance(e, ast.IfExp):
            t = self.value(e.test)
            if t is UNKNOWN:
                return UNKNOWN
            return self.value(e.body if t else e.orelse)
        if isinstance(e, ast.Compare):
            return self.compare(e)
        if isinstance(e, ast.Subscript):
            b, i = self.value(e.value), self.value(e.slice)
            if isinstance(e.value, ast.Dict):
                for k, v in zip(e.value.keys, e.value.values):
                    if k is not None and i is not UNKNOWN and \
                            self.value(k) == i:
                        return self.value(v)
            if b is not UNKNOWN and i is not UNKNOWN:
                try:
                    return b[i]
                except Exception:
                    return UNKNOWN
            return UNKNOWN
        if isinstance(e, ast.Call):
            return self.called(e)
        ent = self.rule.flow.entity(self.f, e)
        if isinstance(ent, Var) and self.rule.is_available(ent):
            return list(self.rule.type_names)
        return UNKNOWN

    def called(self, e):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == 'isinstance' and \
                len(e.args) == 2:
            return self.instance(e.args[0], e.args[1])
        if isinstance(fn, ast.Attribute):
            v = self.value(fn.value)
            if isinstance(v, str) and not e.keywords and fn.attr in (
                    'lower', 'upper', 'strip', 'startswith', 'endswith',
                    'split', 'replace', 'join'):
                args = [self.value(a) for a in e.args]
                if UNKNOWN not in args:
                    try:
                        return getattr(v, fn.attr)(*args)
                    except Exception:
                        return UNKNOWN
        return UNKNOWN

    def instance(self, who, what):
        if isinstance(who, ast.Name) and who.id == self.me and \
                self.cls is not None:
            es = what.elts if isinstance(what, ast.Tuple) else [what]
            got = []
            for x in es:
                c = self.rule.flow.entity(self.f, x)
                if not isinstance(c, Cls):
                    return UNKNOWN
                got.append(self.cls.issub(c))
            return any(got)
        v = self.value(who)
        if isinstance(v, str) and isinstance(what, ast.Name):
            if what.id == 'str':
                return True
            if what.id in ('list', 'dict', 'int', 'float', 'tuple'):
                return False
        return UNKNOWN

    def compare(self, e):
        left = self.value(e.left)
        for op, r in zip(e.ops, e.comparators):
            right = self.value(r)
            if right is UNKNOWN:
                ent = self.rule.flow.entity(self.f, r)
                if isinstance(ent, Var) and self.rule.is_available(ent):
                    right = list(self.rule.type_names)
            if left is UNKNOWN or right is UNKNOWN:
                return UNKNOWN
            if (left is GIVEN or right is GIVEN) and not isinstance(
                    op, (ast.Is, ast.IsNot)):
                return UNKNOWN
            try:
                ok = {ast.Eq: lambda a, b: a == b,
                      ast.NotEq: lambda a, b: a != b,
                      ast.In: lambda a, b: a in b,
                      ast.NotIn: lambda a, b: a not in b,
                      ast.Is: lambda a, b: a is b,
                      ast.IsNot: lambda a, b: a is not b}[type(op)](
                          left, right)
            except (KeyError, TypeError):
                return UNKNOWN
            if not ok:
                return False
            left = right
        return True

    # ---- statements
    def text(self, e):
        if e is None:
            return ''
        v = self.value(e)
        if v is GIVEN:
            v = UNKNOWN
        if v is not UNKNOWN and not isinstance(e, ast.Call) and not (
                isinstance(e, ast.Name) and isinstance(v, (list, tuple))):
            return repr(v)
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.IfExp):
            t = self.value(e.test)
            if t is not UNKNOWN:
                return self.text(e.body if t else e.orelse)
        if isinstance(e, ast.BoolOp):
            # operands that are decided and do not matter
            stop = isinstance(e.op, ast.Or)
            parts = [x for x in e.values
                     if self.value(x) is UNKNOWN or
                     bool(self.value(x)) is stop]
            return ('|' if stop else '&').join(self.text(x) for x in parts)
        if isinstance(e, ast.Lambda):
            return 'lambda ' + ast.dump(e.args) + self.text(e.body)
        out = [type(e).__name__]
        for n, v in ast.iter_fields(e):
            if isinstance(v, ast.AST):
                out.append(self.text(v) if isinstance(v, ast.expr)
                           else self.other(v))
            elif isinstance(v, list):
                out.append('[%s]' % ','.join(
                    self.text(x) if isinstance(x, ast.expr)
                    else self.other(x) if isinstance(x, ast.AST)
                    else repr(x) for x in v))
            elif n not in ('kind', 'type_comment'):
                out.append(repr(v))
        return '(%s)' % ' '.join(out)

    def other(self, n):
        if isinstance(n, (ast.comprehension, ast.keyword, ast.arguments,
                          ast.FormattedValue)):
            return ' '.join([type(n).__name__] + [
                self.text(x) if isinstance(x, ast.expr) else self.other(x)
                for x in ast.iter_child_nodes(n)])
        return type(n).__name__

    def call(self, e):
        rule = self.rule
        targets = rule.exact(self.f, self.cls, e, self)
        txt = []
        inner = []
        for g, gcls, bound in targets:
            given = rule.bind(g, e, bound, self)
            if given or rule.by_axis(g, gcls):
                self.calls.append((e, g, gcls, given))
                inner.append('{%s}' % rule.residual(g, gcls, given,
                                                    self.depth + 1))
            else:
                inner.append(g.qual)
        head = inner if inner else [self.text(e.func)]
        for a in e.args:
            v = self.value(a)
            if inner and v is not UNKNOWN:
                continue        # its effect is in the called function
            txt.append(self.text(a))
        for k in e.keywords:
            v = self.value(k.value)
            if inner and v is not UNKNOWN:
                continue
            txt.append('%s=%s' % (k.arg, self.text(k.value)))
        recv = self.text(e.func.value) if inner and isinstance(
            e.func, ast.Attribute) else ''
        return '%s.%s(%s)' % (recv, '|'.join(head), ','.join(txt))

    def kill(self, nodes):
        for s in nodes:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    self.env.pop(n.id, None)

    def run(self):
        body = self.f.node.body
        if not isinstance(body, list):
            self.out.append(self.text(body))
        else:
            self.block(body)
        return self

    def block(self, body):
        """True when the block ends by leaving"""
        for s in body:
            if self.stmt(s):
                return True
            self.bound |= self.assigned([s])
        return False

    def merge(self, a, b):
        return {k: v for k, v in a.items()
                if k in b and type(b[k]) is type(v) and b[k] == v}

    def stmt(self, s):
        o = self.out
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return False
            o.append(self.text(s.value))
        elif isinstance(s, ast.Return):
            self.returns.append((s, dict(self.env)))
            o.append('return ' + self.text(s.value))
            return True
        elif isinstance(s, ast.Raise):
            o.append('raise ' + rule_exc(s))
            return True
        elif isinstance(s, (ast.Continue, ast.Break)):
            o.append(type(s).__name__)
            return True
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Assign):
            ts = s.targets
            if all(isinstance(t, ast.Name) and t.id in self.messages
                   for t in ts):
                self.kill(ts)
                return False
            v = self.value(s.value)
            txt = self.text(s.value)
            self.kill(ts)
            if len(ts) == 1 and isinstance(ts[0], ast.Name) and \
                    v is not UNKNOWN and isinstance(
                        v, (str, bool, int, type(None), list, tuple)):
                self.env[ts[0].id] = v
                if not isinstance(v, (list, tuple)):
                    return False
            o.append(','.join(self.text(t) for t in ts) + '=' + txt)
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and \
                    s.target.id in self.messages:
                return False
            txt = self.text(s.value)
            self.kill([s.target])
            o.append('%s %s= %s' % (self.text(s.target),
                                    type(s.op).__name__, txt))
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                o.append(self.text(s.target) + '=' + self.text(s.value))
            self.kill([s.target])
        elif isinstance(s, ast.If):
            return self.if_(s)
        elif isinstance(s, (ast.For, ast.While)):
            self.kill([s])
            o.append('loop ' + (self.text(s.iter) if isinstance(s, ast.For)
                                else self.text(s.test)))
            if isinstance(s, ast.For):
                o.append(self.text(s.target))
            env = dict(self.env)
            self.block(s.body)
            self.env = self.merge(env, self.env)
            o.append('end')
            self.block(s.orelse)
        elif isinstance(s, ast.With):
            for i in s.items:
                o.append('with ' + self.text(i.context_expr))
                if i.optional_vars is not None:
                    self.kill([i.optional_vars])
            gone = self.block(s.body)
            o.append('end')
            return gone
        elif isinstance(s, ast.Try):
            self.kill([s])
            o.append('try')
            gone = self.block(s.body)
            hs = []
            for h in s.handlers:
                o.append('except')
                hs.append(self.block(h.body))
            o.append('else')
            gone = self.block(s.orelse) or gone
            o.append('finally')
            if self.block(s.finalbody):
                return True
            o.append('end')
            return gone and all(hs)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = self.rule.prog.func_of_node.get(s)
            sub = Residual(self.rule, g or self.f, self.cls,
                           {k: v for k, v in self.env.items()
                            if k not in [a.arg for a in s.args.args]},
                           self.depth)
            sub.me = self.me
            sub.f = g or self.f
            sub.block(s.body)
            self.calls += sub.calls
            o.append('def %s(%s)' % (s.name, ' '.join(sub.out)))
            self.env.pop(s.name, None)
        elif isinstance(s, ast.Delete):
            o.append('del ' + ','.join(self.text(t) for t in s.targets))
            self.kill(s.targets)
        elif isinstance(s, ast.Assert):
            o.append('assert')
        return False

    def if_(self, s):
        o = self.out
        t = self.value(s.test)
        if t is not UNKNOWN and t is not GIVEN:
            if not t:
                self.chain(s)
            return self.block(s.body if t else s.orelse)
        test = self.text(s.test)
        env = dict(self.env)
        mark = len(o)
        o.append('if ' + test)
        gone1 = self.block(s.body)
        env1, self.env = self.env, dict(env)
        o.append('else')
        gone2 = self.block(s.orelse)
        env2 = self.env
        o.append('end')
        if o[mark + 1:] == ['else', 'end']:
            del o[mark:]
        self.env = env1 if gone2 else env2 if gone1 else \
            self.merge(env1, env2)
        return gone1 and gone2

    def chain(self, s):
        """an if/elif chain on one option in which no case matches"""
        arms, name = [], None
        n = s
        while True:
            who = self.option(n.test)
            if who is None or (name is not None and who != name):
                return
            name = who
            arms.append(n)
            if self.value(n.test) is not False:
                return
            if not n.orelse:
                break
            if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
                n = n.orelse[0]
                continue
            return
        need = self.assigned(arms[0].body)
        for a in arms[1:]:
            need &= self.assigned(a.body)
        need -= set(self.bound)
        need &= {n.id for n in walk_own(self.f.node)
                 if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)
                 and n.lineno > s.end_lineno}
        if len(arms) >= 2 and need:
            self.gaps.append((arms[0], name, self.env.get(name)))

    @staticmethod
    def assigned(body):
        return {n.id for s in body for n in ast.walk(s)
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def option(self, test):
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.left, ast.Name) and \
                isinstance(test.ops[0], (ast.Eq, ast.In)) and \
                isinstance(self.env.get(test.left.id), str):
            return test.left.id
        return None


def rule_exc(s):
    e = s.exc
    if isinstance(e, ast.Call):
        e = e.func
    return (dotted(e) or '?') if e is not None else ''


class C12:
    def __init__(self, rep):
        self.rep, self.prog, self.nim = rep, rep.prog, rep.nim
        self.flow = Flow(rep.prog)
        self.type_names = [c.name for c in self.nim.backends]
        self._memo = {}
        self._busy = set()
        self._axis = {}
        self._byaxis = {}
        self.data = [f for f in self.prog.funcs
                     if f.module.name.startswith('nimble.core.data')]
        self.shared = [f for f in self.data
                       if f.module.name.split('.')[-1] in (
                           'base', 'axis', 'points', 'features', 'views',
                           'stretch', '_dataHelpers')]
        self.stretched = [c for c in self.nim.stretch.all_subs()
                          if not c.abstract_names()]
        self.concrete = list(self.nim.concrete) + \
            list(self.nim.axis_concrete) + self.stretched
        self.reached = {}

    # ---- facts about classes
    def axis_name(self, cls):
        if cls.issub(self.nim.points):
            return 'point'
        if cls.issub(self.nim.features):
            return 'feature'
        return UNKNOWN

    def is_available(self, var):
        return var.name == 'available' and \
            var.module.name.startswith('nimble.core.data')

    def kind(self, cls):
        for r in (self.nim.base, self.nim.axis, self.nim.stretch):
            if cls.issub(r):
                return r
        return None

    def by_axis(self, g, cls):
        """does a method depend on points/features"""
        if cls is None or self.axis_name(cls) is UNKNOWN:
            return False
        got = self._byaxis.get((g, cls))
        if got is None:
            self._byaxis[g, cls] = False
            got = False
            for n in walk_own(g.node):
                if isinstance(n, ast.Attribute) and n.attr in (
                        '_axis', '_isPoint') or (
                        isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Name) and n.func.id == 'isinstance'
                        and n.args and isinstance(n.args[0], ast.Name) and
                        n.args[0].id == g.method_self):
                    got = True
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and isinstance(
                            n.func.value, ast.Name) and \
                        n.func.value.id == g.method_self:
                    t = cls.lookup(n.func.attr)
                    if t is not None and self.by_axis(t, cls):
                        got = True
            self._byaxis[g, cls] = got
        return got

    # ---- calls
    def exact(self, f, cls, call, res=None):
        """[(function, class of its object, bound)] for an object of cls"""
        fn = call.func
        me = f.method_self
        p = f
        while me is None and p.parent is not None:
            p = p.parent
            me = p.method_self
        if isinstance(fn, ast.Attribute) and cls is not None:
            if isinstance(fn.value, ast.Name) and fn.value.id == me:
                g = cls.lookup(fn.attr)
                return [(g, cls, not g.is_static)] if g is not None else []
            if isinstance(fn.value, ast.Call) and isinstance(
                    fn.value.func, ast.Name) and \
                    fn.value.func.id == 'super' and p.cls is not None:
                g = cls.super_lookup(p.cls, fn.attr)
                return [(g, cls, True)] if g is not None else []
            if isinstance(fn.value, ast.Attribute) and isinstance(
                    fn.value.value, ast.Name) and fn.value.value.id == me:
                a = fn.value.attr
                cs = []
                if a in ('points', 'features'):
                    x = self.nim.axis_of.get((cls, a))
                    cs = [x] if x is not None else []
                elif a == '_base' and cls in self.nim.data_of:
                    cs = self.nim.data_of[cls]
                out = []
                for c in cs:
                    g = c.lookup(fn.attr)
                    if g is not None and (g, c, True) not in out:
                        out.append((g, c, not g.is_static))
                if cs:
                    return out
        out = []
        for t in self.flow.targets(f, call):
            if t.exact and not (t.func.cls and t.bound and t.ctor is None
                                and isinstance(fn, ast.Attribute)):
                # Class.method(self): keeps the class
                c = None
                if t.func.cls is not None and not t.bound and call.args and \
                        isinstance(call.args[0], ast.Name) and \
                        call.args[0].id == me:
                    c = cls
                out.append((t.func, c, t.bound))
        return out

    def bind(self, g, call, bound, res):
        """{parameter: constant} for the option values passed on"""
        out = {}
        params = list(g.params)
        if bound and params:
            params = params[1:]
        if any(isinstance(a, ast.Starred) for a in call.args):
            return out
        for p, a in zip(params, call.args):
            v = res.value(a)
            if isinstance(v, (str, bool)) or v is None or v is GIVEN:
                out[p] = v
        names = set(g.params) | set(g.kwonly)
        for k in call.keywords:
            if k.arg in names:
                v = res.value(k.value)
                if isinstance(v, (str, bool)) or v is None or v is GIVEN:
                    out[k.arg] = v
        for p, d in self.defaults(g).items():
            if p not in out and not self.given(g, call, bound, p):
                out[p] = d
        return out

    def given(self, g, call, bound, p):
        params = list(g.params)[1:] if bound else list(g.params)
        if p in params[:len(call.args)]:
            return True
        return any(k.arg in (None, p) for k in call.keywords)

    def defaults(self, g):
        out = {}
        a = g.node.args
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if isinstance(d, ast.Constant) and (
                    d.value is None or isinstance(d.value, (str, bool))):
                out[x.arg] = d.value
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if isinstance(d, ast.Constant) and (
                    d.value is None or isinstance(d.value, (str, bool))):
                out[x.arg] = d.value
        return out

    def key(self, g, cls, env):
        return (g, cls, tuple(sorted((k, repr(v)) for k, v in env.items())))

    def residual(self, g, cls, env, depth=0):
        key = self.key(g, cls, env)
        got = self._memo.get(key)
        if got is not None:
            return got[0]
        if key in self._busy or depth > 8:
            return g.qual
        self._busy.add(key)
        r = Residual(self, g, cls, env, depth).run()
        self._busy.discard(key)
        import hashlib
        h = hashlib.sha1(' ; '.join(r.out).encode()).hexdigest()[:16]
        self._memo[key] = (h, r)
        return h

    def analysed(self, g, cls, env):
        self.residual(g, cls, env)
        return self._memo[self.key(g, cls, env)][1]

    # ------------------------------------------------------------- run
    def run(self):
        self.steps()
        self.calls()
        self.overrides()
        self.parameters()
        self.refusals()
        self.options()
        self.axes()
        self.kinds()

    # ---- every step implemented
    def roots(self):
        return [('data', self.nim.base, self.nim.concrete),
                ('axis', self.nim.axis, self.nim.axis_concrete),
                ('stretch', self.nim.stretch, self.stretched)]

    def steps(self):
        n = 0
        for c in self.concrete:
            for a in sorted(c.abstract_names()):
                self.rep.add('missing', '%s.%s' % (c.name, a),
                             '%s has no implementation of %s'
                             % (c.name, a), c.module.rel if hasattr(
                                 c.module, 'rel') else c.name)
            n += 1
            for k in c.mro():
                for nm, f in k.methods.items():
                    if f.is_abstract:
                        g = c.lookup(nm)
                        if g is None or g.is_abstract:
                            self.rep.add(
                                'missing', '%s.%s' % (c.name, nm),
                                '%s has no implementation of %s'
                                % (c.name, nm), f.loc())
                        else:
                            self.rep.count('implementations_found')
        self.rep.count('concrete_classes', n)

    # ---- every call accepted by every implementation
    def polymorphic(self):
        """name -> (root kind, classes) of methods offered to shared code"""
        out = {}
        for kind, root, classes in self.roots():
            for c in [root] + root.all_subs():
                for nm in c.methods:
                    if nm.startswith('__'):
                        continue
                    out.setdefault(nm, {}).setdefault(kind, set()).add(c)
        return out

    def calls(self):
        poly = self.polymorphic()
        kinds = {k: (r, cs) for k, r, cs in self.roots()}
        for f in self.data:
            me = f.method_self
            par = None
            for n in walk_own(f.node):
                if not isinstance(n, ast.Call) or not isinstance(
                        n.func, ast.Attribute):
                    continue
                nm = n.func.attr
                if nm not in poly:
                    continue
                v = n.func.value
                if isinstance(v, ast.Name) and v.id == me and \
                        f.cls is not None:
                    classes = [c for c in self.concrete if c.issub(f.cls)
                               and f in self.effective(c)]
                    need = True
                elif isinstance(v, ast.Attribute) and v.attr in (
                        'points', 'features'):
                    want = self.nim.points if v.attr == 'points' else \
                        self.nim.features
                    classes = [c for c in self.nim.axis_concrete
                               if c.issub(want)]
                    need = True
                elif nm.endswith('_implementation') and isinstance(
                        v, (ast.Name, ast.Attribute)) and \
                        len(poly[nm]) == 1 and f in self.shared:
                    k = next(iter(poly[nm]))
                    classes = list(kinds[k][1])
                    need = False
                else:
                    continue
                if isinstance(v, ast.Attribute):
                    if par is None:
                        par = parents(f.node)
                    if self.type_tested(f, n, par):
                        continue
                self.rep.count('calls_of_steps')
                seen = set()
                for c in classes:
                    g = c.lookup(nm)
                    if g is None:
                        if need and not self.assigned(c, nm):
                            self.rep.add(
                                'missing', '%s.%s' % (c.name, nm),
                                '%s is called on an object that can be a '
                                '%s, which does not have it' % (nm, c.name),
                                f.loc(n))
                        continue
                    if g in seen:
                        continue
                    seen.add(g)
                    self.rep.count('implementations_called')
                    bad = self.refuses(g, n)
                    if bad:
                        self.rep.add('signature', '%s<-%s' % (
                            g.qual, f.qual), '%s does not accept the call '
                            'made here: %s' % (g.short, bad), f.loc(n),
                            [g.loc()])

    def effective(self, c):
        got = self._axis.get(('eff', c))
        if got is None:
            got = set()
            for k in c.mro():
                for nm, f in k.methods.items():
                    if c.lookup(nm) is f:
                        got.add(f)
            # reached by super
            work = list(got)
            while work:
                f = work.pop()
                for n in walk_own(f.node):
                    if isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Attribute):
                        g = None
                        if isinstance(n.func.value, ast.Call) and isinstance(
                                n.func.value.func, ast.Name) and \
                                n.func.value.func.id == 'super':
                            g = c.super_lookup(f.cls, n.func.attr)
                        else:
                            e = self.flow.entity(f, n.func)
                            if isinstance(e, Func) and e.cls is not None \
                                    and c.issub(e.cls):
                                g = e
                        if g is not None and g not in got:
                            got.add(g)
                            work.append(g)
            self._axis['eff', c] = got
        return got

    def assigned(self, c, nm):
        for k in c.mro():
            if nm in getattr(k, 'attrs', {}):
                return True
            for f in k.methods.values():
                for n in walk_own(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == nm and \
                            isinstance(n.ctx, ast.Store):
                        return True
        return False

    def type_tested(self, f, n, par):
        for t, _ in guards(par, n, f.node):
            for x in ast.walk(t):
                if isinstance(x, ast.Call) and (
                        (isinstance(x.func, ast.Name) and
                         x.func.id == 'isinstance') or
                        (isinstance(x.func, ast.Attribute) and
                         x.func.attr == 'getTypeString')):
                    return True
        return False

    def refuses(self, g, call, bound=True):
        if g.is_property:
            return None
        a = g.node.args
        if any(d for d in g.deconames
               if d.split('.')[-1] not in ('staticmethod', 'classmethod',
                                           'abstractmethod')):
            extra = {'useLog'}
        else:
            extra = set()
        pos = [x.arg for x in a.posonlyargs + a.args]
        if not g.is_static and pos:
            pos = pos[1:]
        kwonly = [x.arg for x in a.kwonlyargs]
        star = any(isinstance(x, ast.Starred) for x in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
        if npos > len(pos) and a.vararg is None:
            return '%d positional arguments for %d parameters' % (
                npos, len(pos))
        names = set(pos) | set(kwonly) | extra
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg not in names and a.kwarg is None:
                return 'no parameter %s' % k.arg
            if k.arg in pos[:npos]:
                return 'parameter %s given twice' % k.arg
        if not star and not dstar:
            have = set(pos[:npos]) | {k.arg for k in call.keywords}
            ndef = len(a.defaults)
            required = pos[:len(pos) - ndef] if ndef else pos
            required = list(required) + [
                x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults)
                if d is None]
            for r in required:
                if r not in have:
                    return 'parameter %s is not given' % r
        return None

    # ---- overriding public methods
    def overrides(self):
        for c in self.concrete:
            for nm in sorted({m for k in c.mro() for m in k.methods}):
                if nm.startswith('_'):
                    continue
                g = c.lookup(nm)
                root = self.kind(c)
                top = None
                for k in reversed(list(c.mro())):
                    if nm in k.methods:
                        top = k.methods[nm]
                        break
                if top is None or g is top or g.is_property:
                    continue
                self.rep.count('public_overrides')
                want = [p for p in list(top.params)[1:] + list(top.kwonly)]
                have = set(g.params) | set(g.kwonly)
                if g.node.args.kwarg is not None:
                    continue
                for p in want:
                    if p not in have and not (
                            p == 'useLog' and g.deconames):
                        self.rep.add('override', '%s.%s' % (g.qual, p),
                                     '%s does not accept %s, which %s does'
                                     % (g.short, p, top.qual), g.loc())
                hpos = [p for p in list(g.params)[1:]]
                wpos = [p for p in list(top.params)[1:]]
                if hpos[:len(wpos)] != wpos and set(wpos) <= have and \
                        [p for p in hpos if p in wpos] != wpos:
                    self.rep.add('override', '%s.order' % g.qual,
                                 '%s takes its parameters in another order '
                                 'than %s' % (g.short, top.qual), g.loc())

    # ---- parameters of implementations
    def implementations(self):
        out = {}
        for c in self.concrete:
            for k in c.mro():
                for nm, f in k.methods.items():
                    if 'mplementation' in nm and not f.is_abstract:
                        out[f] = nm
        return out

    def parameters(self):
        for f, nm in sorted(self.implementations().items(),
                            key=lambda x: x[0].qual):
            used = {x.id for x in ast.walk(f.node)
                    if isinstance(x, ast.Name) and
                    isinstance(x.ctx, ast.Load)}
            only_raises = all(isinstance(s, (ast.Raise, ast.Expr, ast.Pass))
                              for s in f.node.body)
            for p in list(f.params)[1:] + list(f.kwonly):
                self.rep.count('parameters_of_implementations')
                if (p not in used or self.replaced(f, p)) and \
                        (nm, p) not in UNUSED and not only_raises:
                    self.rep.add('unused', '%s.%s' % (f.qual, p),
                                 '%s does not use %s: the option has no '
                                 'effect for this storage type'
                                 % (f.short, p), f.loc())

    @staticmethod
    def replaced(f, p):
        """the parameter is assigned before anything reads it"""
        for s in f.node.body:
            if any(isinstance(x, ast.Name) and x.id == p and
                   isinstance(x.ctx, ast.Load) for x in ast.walk(s)):
                return False
            if isinstance(s, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == p
                    for t in s.targets):
                return True
        return False

    # ---- refusals of single storage types
    def refusals(self):
        steps = {}
        for f, nm in self.implementations().items():
            own = self.own_raises(f, set())
            steps.setdefault(nm, []).append((f, own))
        for nm, fs in steps.items():
            fs = [x for x in fs if x[0].cls not in (
                self.nim.base, self.nim.axis, self.nim.points,
                self.nim.features)]
            self.rep.count('steps_compared')
            if any(not own for _, own in fs):
                for f, own in fs:
                    for node, g, name in own:
                        self.rep.add(
                            'refused', '%s|%s' % (f.qual, name),
                            'the %s implementation of %s refuses with %s '
                            'what other storage types accept' % (
                                f.cls.name, nm, name), g.loc(node))

    def own_raises(self, f, seen):
        if f in seen or f.short.split('.')[-1] in INTERNAL:
            return []
        seen.add(f)
        out = []
        for n in walk_own(f.node):
            if isinstance(n, ast.Raise) and n.exc is not None:
                name = rule_exc(n).split('.')[-1]
                if name in OWN:
                    out.append((n, f, name))
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and isinstance(
                        n.func.value, ast.Name) and \
                    n.func.value.id == f.method_self and f.cls is not None \
                    and n.func.attr in f.cls.methods:
                out += self.own_raises(f.cls.methods[n.func.attr], seen)
        return out

    # ---- options
    def public_options(self):
        """[(classes, function, {parameter: [values]})]"""
        out = []
        for kind, root, classes in self.roots()[:2]:
            names = {}
            for c in [root] + [x for x in root.all_subs()
                               if x in (self.nim.points, self.nim.features)]:
                for nm, f in c.methods.items():
                    if not nm.startswith('_'):
                        names.setdefault(f, nm)
            for f, nm in names.items():
                opts = self.listed(f)
                for (k, m), t in OPTIONS.items():
                    if m == nm and (k == 'base') == (kind == 'data'):
                        for p, vs in t.items():
                            if p not in f.params:
                                continue
                            opts[p] = sorted(set(opts.get(p, [])) | set(vs), key=repr)
                if opts:
                    out.append((nm, f, opts, [
                        c for c in classes if c.lookup(nm) is f]))
        return out

    def listed(self, f):
        """parameters restricted to a list of strings by f itself"""
        out = {}
        assigned = self.flow.assigns(f)
        for n in walk_own(f.node):
            if not isinstance(n, ast.If) or not any(
                    isinstance(x, ast.Raise) for x in n.body):
                continue
            for t in ast.walk(n.test):
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and \
                        isinstance(t.ops[0], ast.NotIn) and isinstance(
                            t.left, ast.Name) and t.left.id in f.params:
                    r = t.comparators[0]
                    if isinstance(r, ast.Name):
                        got = assigned.get(r.id, [])
                        r = got[0] if len(got) == 1 else None
                    if isinstance(r, (ast.List, ast.Tuple, ast.Set)) and \
                            r.elts and all(
                                isinstance(e, ast.Constant) and isinstance(
                                    e.value, str) for e in r.elts):
                        out.setdefault(t.left.id, [])
                        out[t.left.id] += [e.value for e in r.elts]
        # values accepted before normalisation
        for n in walk_own(f.node):
            if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and \
                    isinstance(n.test.ops[0], ast.NotIn) and isinstance(
                        n.test.left, ast.Name) and n.test.left.id in out:
                r = n.test.comparators[0]
                vals = None
                if isinstance(r, (ast.List, ast.Tuple)):
                    vals = [e.value for e in r.elts
                            if isinstance(e, ast.Constant)]
                elif isinstance(self.flow.entity(f, r), Var) and \
                        self.is_available(self.flow.entity(f, r)):
                    vals = self.type_names
                if vals and not any(isinstance(x, ast.Raise)
                                    for x in n.body):
                    out[n.test.left.id] += vals
        return {p: sorted(set(v)) for p, v in out.items() if len(set(v)) > 1}

    def options(self):
        import itertools
        for nm, f, opts, classes in self.public_options():
            names = sorted(opts)
            for p in names:
                self.rep.count('public_options')
                self.rep.count('option_values', len(opts[p]))
            self.rep.sample('options', '%s: %s' % (f.short, opts))
            for c in classes:
                table = {}
                for vals in itertools.product(*(opts[p] for p in names)):
                    env = {n: GIVEN if v == 'given*' else v
                           for n, v in zip(names, vals)}
                    self.rep.count('option_walks')
                    self.spread(f, c, env, vals, table, set())
                self.distinct(f, names, c, table)

        for nm, opts in sorted(STEPS.items()):
            names = sorted(opts)
            for c in self.concrete:
                g = c.lookup(nm)
                if g is None or g.is_abstract:
                    continue
                if not set(names) <= set(g.params):
                    raise AnalysisError('%s has no %s' % (g.qual, names))
                table = {}
                for vals in itertools.product(*(opts[p] for p in names)):
                    env = {n: GIVEN if v == 'given*' else v
                           for n, v in zip(names, vals)}
                    self.rep.count('option_walks')
                    self.spread(g, c, env, vals, table, set())
                self.distinct(g, names, c, table)

    def spread(self, f, c, env, vals, table, seen):
        key = self.key(f, c, env)
        if key in seen:
            return
        seen.add(key)
        r = self.analysed(f, c, env)
        for node, name, v in r.gaps:
            self.rep.add('gap', '%s|%s|%s' % (f.qual, name, v),
                         'no case of the tests on %s applies for %r and what '
                         'the others assign is missing' % (name, v),
                         f.loc(node))
        table.setdefault((f, c), {}).setdefault(vals, set()).add(
            (self.key(f, c, env)[2], self.residual(f, c, env)))
        for call, g, gc, given in r.calls:
            if any(isinstance(v, str) for v in given.values()):
                self.spread(g, gc, given, vals, table, seen)

    def distinct(self, f, names, c, table):
        for (g, gc), got in table.items():
            if 'mplementation' not in g.short and g is not f:
                continue
            if gc is None:
                continue
            self.rep.count('implementations_with_options')
            for a in got:
                for b in got:
                    if repr(a) >= repr(b) or len(got[a]) != 1 or len(got[b]) != 1:
                        continue
                    diff = [i for i in range(len(a)) if a[i] != b[i]]
                    if len(diff) != 1 or 'given*' in (
                            a[diff[0]], b[diff[0]]):
                        continue
                    (ka, ra), (kb, rb) = *got[a], *got[b]
                    if ka != kb and ra == rb and not any(
                            {a[diff[0]], b[diff[0]]} <= s for s in SAME):
                        n = names[diff[0]]
                        pair = '%s/%s' % (a[diff[0]], b[diff[0]])
                        self.rep.add(
                            'same', '%s|%s|%s|%s' % (g.qual, gc.name, n,
                                                     pair),
                            '%s of %s treats %s=%r and %r alike (%s)' % (
                                g.short.split('.')[-1], gc.name, n,
                                a[diff[0]], b[diff[0]],
                                dict(zip(names, a))), g.loc())

    # ---- points and features
    def axes(self):
        pairs = []
        for c in self.nim.backends:
            pairs.append((self.nim.axis_of[c, 'points'],
                          self.nim.axis_of[c, 'features']))
        for p, q in pairs:
            for nm in sorted({m for k in p.mro() for m in k.methods}):
                g = p.lookup(nm)
                if 'mplementation' not in nm or q.lookup(nm) is not g:
                    continue
                self.rep.count('steps_shared_by_axes')
                if self.residual(g, p, {}) == self.residual(g, q, {}):
                    self.rep.add('axis', '%s|%s' % (g.qual, p.name),
                                 '%s does the same for points and features '
                                 'of %s' % (nm, p.name), g.loc())

        # each choice between the two
        for f in self.data:
            for n in walk_own(f.node):
                if isinstance(n, (ast.If, ast.IfExp)) and self.is_axis_test(
                        n.test):
                    self.rep.count('choices_of_axis')
                    a, b = (n.body, n.orelse) if isinstance(n, ast.If) else \
                        ([n.body], [n.orelse])
                    if [ast.dump(x) for x in a] == [ast.dump(x) for x in b]:
                        self.rep.add('axis', '%s|%s' % (
                            f.qual, ast.unparse(n.test)),
                            'the same is done for points and features here',
                            f.loc(n))

    def is_axis_test(self, t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t = t.operand
        if isinstance(t, ast.Attribute):
            return t.attr == '_isPoint'
        return isinstance(t, ast.Compare) and any(
            isinstance(x, ast.Constant) and x.value in ('point', 'feature')
            for x in t.comparators)

    # ---- what copy returns
    def kinds(self):
        for c in self.nim.concrete:
            g = c.lookup('_copy_implementation')
            for v, want in KIND.items():
                self.copy_kind(g, c, v, want, set())

    def copy_kind(self, g, c, v, want, seen):
        if (g, c) in seen:
            return
        seen.add((g, c))
        r = self.analysed(g, c, {list(g.params)[1]: v})
        self.rep.count('copy_returns_checked', len(r.returns))
        for node, env in r.returns:
            k = self.result(g, c, node.value, env, r, set())
            if k is None or k == want:
                continue
            self.rep.add('kind', '%s|%s|%s' % (g.qual, v, c.name),
                         'copy to %r returns %s here' % (v, k), g.loc(node))

    def result(self, g, c, e, env, r, seen):
        if isinstance(e, (ast.ListComp, ast.List)):
            return 'list'
        if isinstance(e, ast.Name) and e.id not in seen:
            seen.add(e.id)
            ks = {self.result(g, c, x, env, r, seen)
                  for x in self.flow.assigns(g).get(e.id, [None])
                  if x is not None}
            return ks.pop() if len(ks) == 1 else None
        if isinstance(e, ast.Call):
            d = dotted(e.func) or ''
            last = d.split('.')[-1] if d else (
                e.func.attr if isinstance(e.func, ast.Attribute) else '')
            table = {'coo_matrix': 'coo', 'csr_matrix': 'csr',
                     'csc_matrix': 'csc', 'tocsr': 'csr', 'tocsc': 'csc',
                     'tocoo': 'coo', 'tolist': 'list', 'DataFrame': 'frame',
                     'matrix': 'matrix', 'createDataNoValidation': 'nimble',
                     'list': 'list', 'reshape': 'array', 'ravel': 'array',
                     'coo_array': 'coo', 'csr_array': 'csr',
                     'csc_array': 'csc', 'asmatrix': 'matrix',
                     'todense': 'matrix', 'toarray': 'array',
                     'sparseMatrixToArray': 'array', 'todok': 'dok'}
            if last in table:
                return table[last]
            if last in ('copy', 'astype') and isinstance(
                    e.func, ast.Attribute):
                return self.result(g, c, e.func.value, env, r, seen)
        if isinstance(e, ast.Attribute) and e.attr == '_data':
            b = self.nim.backend_of(c)
            return {'Matrix': 'array', 'DataFrame': 'frame',
                    'Sparse': 'coo', 'List': 'list'}[b.name]
        return None


def run(rep):
    rule = C12(rep)
    rule.run()
    rep.floor('concrete_classes', 25)
    rep.floor('implementations_found', 100)
    rep.floor('calls_of_steps', 300)
    rep.floor('parameters_of_implementations', 300)
    rep.floor('public_options', 5)
    rep.floor('option_walks', 100)
    rep.floor('implementations_with_options', 30)
    rep.floor('steps_shared_by_axes', 20)
