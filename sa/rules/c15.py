"""C15 data of more than two dimensions is never treated as flat"""
import ast
from ..flow import Flow
from ..model import Func, Cls, walk_own, dotted
from ..paths import Walk, TooManyPaths, calls_in

EXPLANATION = """
Every public method of data objects, points and features that is not in the
table of operations defined for more dimensions (DEFINED) is walked under the
assumption that the object has three, and again four, dimensions: through its
decorators, its body and the functions it calls on the same object, with the
assumption deciding every test on the number of dimensions.  Every path has to
end in an exception, and none may have changed the object before.  Methods in
the table that are only defined for some arguments (CONDITIONAL) are walked
with those arguments.  Operations on two objects are walked under the
assumption that the dimensions of the two differ although the numbers of
points and flattened features agree.  A method in neither table is accepted
only if it touches nothing but what is defined for more dimensions."""

ASSUMPTIONS = [
    'the tables DEFINED and CONDITIONAL state what the operations mean for '
    'more than two dimensions, taken from the documentation and messages',
]

OPS = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow']
DEFINED = {
    'base': set('''__abs__ __bool__ __copy__ __deepcopy__ __eq__ __ne__
        __getattr__ __init__ __repr__ __str__ __neg__ __pos__ __hash__
        __init_subclass__ __getattribute__ __setattr__ __dir__ __class__
        absolutePath path relativePath name points features shape dimensions
        checkInvariants containsZero copy flatten getTypeString
        isApproximatelyEqual isIdentical max mean median
        medianAbsoluteDeviation min mode quartiles sum uniqueCount variance
        proportionMissing proportionZero pointView report save show toString
        trainAndTestSets view'''.split()) | {
            '__%s%s__' % (p, o) for o in OPS for p in ('', 'r', 'i')},
    'points': set('''__bool__ __init__ __len__ __repr__ __str__ __getitem__
        __iter__ append copy delete extract getIndex getIndices getName
        getNames hasName insert permute repeat replace retain setNames sort
        unique names namesInverse'''.split()),
    'features': set('''__bool__ __init__ __len__ __repr__ __str__ getIndex
        getIndices getName getNames hasName setNames names
        namesInverse'''.split()),
}

FN, OTHER = ('fn',), ('other',)


def const(v):
    return ('c', v)


# (kind, method, arguments): refused for these arguments
CONDITIONAL = [
    ('base', 'copy', {'to': const('list of dict')}),
    ('base', 'copy', {'to': const('dict of list')}),
    ('base', 'copy', {'to': const('scipy csr')}),
    ('base', 'copy', {'to': const('scipy csc')}),
    ('base', 'copy', {'to': const('python list'),
                      'rowsArePoints': const(False)}),
    ('base', 'copy', {'to': const('numpy array'),
                      'outputAs1D': const(True)}),
    ('base', 'flatten', {'order': const('feature')}),
    ('base', 'save', {'outPath': const('a.csv')}),
    ('base', 'save', {'outPath': const('a.mtx')}),
    ('base', 'view', {'featureStart': const(1)}),
    ('base', 'trainAndTestSets', {'labels': const(0)}),
    ('points', 'sort', {'by': const(0)}),
    ('points', 'copy', {'toCopy': FN}),
    ('points', 'extract', {'toExtract': FN}),
    ('points', 'delete', {'toDelete': FN}),
    ('points', 'retain', {'toRetain': FN}),
    ('points', 'copy', {'toCopy': const('ft=1')}),
    ('points', 'extract', {'toExtract': const('ft=1')}),
    ('points', 'delete', {'toDelete': const('ft=1')}),
    ('points', 'retain', {'toRetain': const('ft=1')}),
    ('points', 'append', {'toAppend': OTHER}),
    ('points', 'insert', {'toInsert': OTHER, 'insertBefore': const(0)}),
] + [('base', '__%s%s__' % (p, o), {'other': OTHER})
     for o in OPS for p in ('', 'r', 'i')]

KEEP = ('points', 'features', '_base', '_source', '_axisObj')


class Refuse(Walk):
    """One function under the assumption.  State: (env, flags) with env the
    known local values: ('c', constant), ('o', kind) the object or one of its
    axes, ('other',) another object of other dimensions, ('fn',) a function,
    ('dims', of), ('shape', of)."""

    def __init__(self, rule, f, kind, rank, layers=(), given=None, depth=0):
        self.rule, self.f, self.kind, self.rank = rule, f, kind, rank
        self.layers, self.given, self.depth = layers, given or {}, depth
        self.flow = rule.flow
        self.memo, self.results = {}, {}

    # -------------------------------------------------------- values
    def ev(self, e, state):
        env = dict(state[0])
        return self.value(e, env, state[1])

    def rank_of(self, who, flags):
        if who == 'other':
            return self.rank
        return 2 if 'flat' in flags else self.rank

    def value(self, e, env, flags):
        if isinstance(e, ast.Constant):
            return const(e.value) if not isinstance(e.value, (
                bytes, complex)) and e.value is not Ellipsis else None
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return None
        if isinstance(e, ast.Attribute):
            v = self.value(e.value, env, flags)
            if v is None:
                return None
            if v[0] in ('o', 'other'):
                if e.attr in ('_dims', 'dimensions'):
                    return ('dims', v[0])
                if e.attr in ('shape',):
                    return ('shape', v[0])
                if e.attr in ('points', '_points') and v[0] == 'o':
                    return ('o', 'points') + v[2:]
                if e.attr in ('features', '_features') and v[0] == 'o':
                    return ('o', 'features') + v[2:]
                if e.attr in ('_base', '_source') and v[0] == 'o':
                    return ('o', 'base') + v[2:]
                if e.attr == '_fStart' and v[:2] == ('o', 'base'):
                    return const(0)      # views of such data are whole
                if e.attr == '_isPoint' and v[0] == 'o' and \
                        v[1] in ('points', 'features'):
                    return const(v[1] == 'points')
                if e.attr == '_axis' and v[0] == 'o' and \
                        v[1] in ('points', 'features'):
                    return const(v[1][:-1])
            return None
        if isinstance(e, ast.Subscript):
            v = self.value(e.value, env, flags)
            if v is None:
                return None
            if v[0] in ('dims', 'shape'):
                if isinstance(e.slice, ast.Slice):
                    lo = self.value(e.slice.lower, env, flags) if \
                        e.slice.lower else const(0)
                    if e.slice.upper is None and lo == const(1):
                        return ('tail', v[0], v[1])
                return None
            if v[0] == 'c' and isinstance(v[1], (str, tuple)) and \
                    isinstance(e.slice, ast.Slice):
                ends = [const(None) if x is None else
                        self.value(x, env, flags) for x in (
                            e.slice.lower, e.slice.upper, e.slice.step)]
                if all(x is not None and x[0] == 'c' for x in ends):
                    try:
                        return const(v[1][slice(*[x[1] for x in ends])])
                    except (TypeError, ValueError):
                        return None
                return None
            if v[0] == 'c' and isinstance(v[1], (str, tuple)):
                i = self.value(e.slice, env, flags)
                if i and i[0] == 'c' and isinstance(i[1], int) and \
                        -len(v[1]) <= i[1] < len(v[1]):
                    return const(v[1][i[1]])
            return None
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            vs = [self.value(x, env, flags) for x in e.elts]
            if all(v is not None and v[0] == 'c' for v in vs):
                return const(tuple(v[1] for v in vs))
            return None
        if isinstance(e, ast.UnaryOp):
            v = self.value(e.operand, env, flags)
            if v is None:
                return None
            if isinstance(e.op, ast.Not):
                t = self.truthy(v)
                return None if t is None else const(not t)
            if isinstance(e.op, ast.USub) and v[0] == 'c' and isinstance(
                    v[1], int):
                return const(-v[1])
            return None
        if isinstance(e, ast.BoolOp):
            last = None
            unknown = False
            for x in e.values:
                v = self.value(x, env, flags)
                t = None if v is None else self.truthy(v)
                if t is None:
                    unknown = True
                elif t == isinstance(e.op, ast.Or):
                    return const(t) if unknown else v
                last = v
            return None if unknown else last
        if isinstance(e, ast.IfExp):
            t = self.value(e.test, env, flags)
            t = None if t is None else self.truthy(t)
            if t is None:
                a = self.value(e.body, env, flags)
                b = self.value(e.orelse, env, flags)
                return a if a == b else None
            return self.value(e.body if t else e.orelse, env, flags)
        if isinstance(e, ast.Compare):
            vals = [self.value(x, env, flags)
                    for x in [e.left] + e.comparators]
            out = True
            for a, op, b in zip(vals, e.ops, vals[1:]):
                r = self.compare(a, op, b, flags)
                if r is False:
                    return const(False)
                if r is None:
                    out = None
            return None if out is None else const(True)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add,
                                                          ast.Sub)):
            a = self.value(e.left, env, flags)
            b = self.value(e.right, env, flags)
            if a and b and a[0] == b[0] == 'c':
                try:
                    return const(a[1] + b[1] if isinstance(
                        e.op, ast.Add) else a[1] - b[1])
                except TypeError:
                    return None
            return None
        if isinstance(e, ast.Call):
            v = self.call_value(e, env, flags)
            if v is None:
                state = (frozenset(env.items()), frozenset(flags))
                key = (e, state)
                if key not in self.results:
                    self.results[key] = None
                    self.results[key] = self.call(e, state)[2]
                v = self.results[key]
            return v
        return None

    def truthy(self, v):
        if v[0] == 'c':
            return bool(v[1])
        if v[0] in ('fn', 'dims', 'shape'):
            return True
        return None

    def compare(self, a, op, b, flags):
        if a is None or b is None:
            return None
        ka, kb = a[0], b[0]
        sized = ('dims', 'shape', 'tail')
        if ka in sized and kb in sized:
            same = None
            fa = a[1:] if ka == 'tail' else a
            fb = b[1:] if kb == 'tail' else b
            if ka == 'tail' and kb == 'tail' or ka != 'tail' and \
                    kb != 'tail':
                if fa[1] != fb[1]:
                    # of two objects: the flattened numbers agree
                    same = False if 'dims' in (fa[0], fb[0]) else None
                elif fa[0] != fb[0]:
                    same = self.rank_of(fa[1], flags) == 2
                else:
                    same = True
            if same is None:
                return None
            if isinstance(op, ast.Eq):
                return same
            if isinstance(op, ast.NotEq):
                return not same
            return None
        if isinstance(op, (ast.Is, ast.IsNot)) and const(None) in (a, b):
            r = a == b
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.Is, ast.IsNot)) and {ka, kb} == {'o', 'other'}:
            return isinstance(op, ast.IsNot)
        if ka == kb == 'c':
            x, y = a[1], b[1]
            try:
                return {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y,
                        ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
                        ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y,
                        ast.In: lambda: x in y, ast.NotIn: lambda: x not in y,
                        ast.Is: lambda: x is y,
                        ast.IsNot: lambda: x is not y}[type(op)]()
            except TypeError:
                return None
        if isinstance(op, (ast.Eq, ast.Is, ast.In)) and 'c' in (ka, kb) and \
                ka != kb and {ka, kb} & {'fn', 'other', 'o'}:
            return False
        if isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn)) and \
                'c' in (ka, kb) and ka != kb and \
                {ka, kb} & {'fn', 'other', 'o'}:
            return True
        return None

    TYPES = {'str': str, 'int': int, 'float': float, 'bool': bool,
             'list': list, 'tuple': tuple, 'dict': dict, 'slice': slice}

    def call_value(self, e, env, flags):
        fn = e.func
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(
            fn, ast.Attribute) else ''
        args = [self.value(a, env, flags) for a in e.args]
        of = fn.value if isinstance(fn, ast.Attribute) and \
            fn.attr == '__class__' else fn.args[0] if isinstance(
                fn, ast.Call) and isinstance(fn.func, ast.Name) and \
            fn.func.id == 'type' and len(fn.args) == 1 else None
        if of is not None and self.value(of, env, flags) is not None and \
                self.value(of, env, flags)[:2] == ('o', 'base'):
            for k in e.keywords:
                if k.arg == 'shape' and self.value(
                        k.value, env, flags) == ('dims', 'o'):
                    # another object of the same dimensions
                    return ('o', 'base', 'new')
        if isinstance(fn, ast.Name):
            if name == 'len' and args and args[0] is not None:
                v = args[0]
                if v[0] == 'dims':
                    return const(self.rank_of(v[1], flags))
                if v[0] == 'shape':
                    return const(2)
                if v[0] == 'tail':
                    return const((self.rank_of(v[2], flags)
                                  if v[1] == 'dims' else 2) - 1)
                if v[0] == 'c' and isinstance(v[1], (str, tuple)):
                    return const(len(v[1]))
                return None
            if name in ('tuple', 'list') and len(args) == 1 and args[0] and \
                    args[0][0] in ('dims', 'shape', 'tail'):
                return args[0]
            if name == 'callable' and args and args[0] is not None:
                return const(args[0][0] == 'fn') if args[0][0] in (
                    'fn', 'c') else None
            if name == 'hasattr' and len(args) == 2 and args[0] is not None \
                    and args[1] is not None:
                what, attr = args[0], args[1][1]
                if attr == '__call__' and what[0] in ('fn', 'c', 'other',
                                                      'o'):
                    return const(what[0] == 'fn')
                if attr == '_base' and what[0] == 'o':
                    return const(what[1] != 'base')
                if attr in ('_dims', 'shape') and what[0] == 'o':
                    return const(what[1] == 'base')
                return None
            if name == 'getattr' and len(args) in (2, 3) and \
                    args[0] and args[0][0] == 'o' and args[1] and \
                    isinstance(args[1][1], str):
                if args[1][1] in ('_base', '_source') and \
                        args[0][1] == 'base':
                    return args[2] if len(args) == 3 and \
                        args[1][1] == '_base' else None
                return self.value(ast.Attribute(
                    e.args[0], args[1][1], ast.Load()), env, flags)
            if name == 'isinstance' and len(e.args) == 2 and \
                    args[0] is not None:
                return self.is_instance(args[0], e.args[1])
            if name == '_isBase' and args and args[0] is not None:
                return const(args[0][0] in ('other', 'o'))
            if name == 'str' and args and args[0] and args[0][0] == 'c':
                return const(str(args[0][1]))
            return None
        if isinstance(fn, ast.Attribute):
            v = self.value(fn.value, env, flags)
            if name == 'copy' and v is not None and not e.args and \
                    v[0] in ('dims', 'shape', 'tail'):
                return v
            if name in ('copy', 'deepcopy') and isinstance(
                    fn.value, ast.Name) and fn.value.id == 'copy' and \
                    v is None and len(args) == 1 and args[0] is not None:
                if args[0][:2] == ('o', 'base'):
                    return ('o', 'base', 'new')
                if args[0][0] in ('dims', 'shape', 'tail'):
                    return args[0]
            if v is not None and v[0] == 'c' and isinstance(v[1], str) and \
                    all(a is not None and a[0] == 'c' for a in args) and \
                    not e.keywords and name in (
                        'lower', 'upper', 'strip', 'replace', 'split',
                        'rsplit', 'endswith', 'startswith', 'partition',
                        'rpartition', 'casefold', 'join'):
                try:
                    r = getattr(v[1], name)(*[a[1] for a in args])
                except (TypeError, ValueError):
                    return None
                return const(tuple(r) if isinstance(r, list) else r)
            if v is not None and v[0] == 'o':
                if name in ('_hasName', 'hasName'):
                    return const(False)
                if name == 'copy' and v[1] in ('base', 'points'):
                    return ('o', 'base', 'new')
                if name in ('getIndex', '_getIndex') and args and args[0] \
                        and args[0][0] == 'c' and isinstance(
                            args[0][1], int):
                    return args[0]
                if name == '_getAxis' and args and args[0] and \
                        args[0][0] == 'c':
                    return ('o', 'points' if args[0][1] == 'point'
                            else 'features')
            if name == 'splitext' and args and args[0] and args[0][0] == 'c' \
                    and isinstance(args[0][1], str):
                i = args[0][1].rfind('.')
                return const((args[0][1][:i], args[0][1][i:]))
            if name == 'basename' and args:
                return args[0]
            if name == 'callable' and args and args[0] is not None:
                return const(args[0][0] == 'fn')
        return None

    def is_instance(self, v, t):
        kinds = t.elts if isinstance(t, ast.Tuple) else [t]
        got = []
        for k in kinds:
            d = (dotted(k) or '').split('.')[-1]
            if v[0] == 'c':
                if d in self.TYPES:
                    got.append(isinstance(v[1], self.TYPES[d]))
                elif d in ('Base', 'BaseView', 'Integral', 'Number',
                           'integer'):
                    got.append(isinstance(v[1], int) if d in (
                        'Integral', 'Number') else False)
                else:
                    got.append(None if not isinstance(v[1], str) else False)
            elif v[0] in ('other', 'o'):
                if d == 'Base':
                    got.append(v[0] == 'other' or v[1] == 'base')
                elif any(k.name == d for k in self.rule.p.classes) and \
                        not any(k.name == d for ks in
                                self.rule.kinds.values() for x in ks
                                for k in x.mro()):
                    got.append(False)
                elif d in self.TYPES:
                    got.append(False)
                else:
                    got.append(None)
            elif v[0] == 'fn':
                got.append(False if d in self.TYPES or d in (
                    'Base', 'itemgetter', 'attrgetter', 'ndarray') else None)
            else:
                got.append(None)
        if any(g is True for g in got):
            return const(True)
        if all(g is False for g in got):
            return const(False)
        return None

    # ------------------------------------------------------- effects
    def raises(self, node):
        return True

    def during(self, node, state):
        return self.effect(node, state)[1]

    def effect(self, node, state):
        got = self.memo.get((node, state))
        if got is None:
            got = self.memo[(node, state)] = self._effect(node, state)
        return got

    def _effect(self, node, state):
        states, exc = {state}, set()
        results = {}
        scope = node
        if isinstance(node, ast.BoolOp):
            scope = node.values[0]
        elif isinstance(node, ast.IfExp):
            scope = node.test
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            return states, exc
        for c in calls_in(scope) + ([scope] if isinstance(
                scope, ast.Call) and scope not in calls_in(scope) else []):
            new = set()
            for st in states:
                n, x, r = self.call(c, st)
                new |= n
                exc |= x
                if r is not None:
                    results[c] = r
            states = new
        # property access on the object
        for a in ast.walk(scope) if isinstance(scope, ast.AST) else ():
            if isinstance(a, ast.Attribute) and isinstance(
                    a.ctx, ast.Load):
                new = set()
                for st in states:
                    v = self.ev(a.value, st)
                    if v is not None and v[0] == 'o':
                        ps = [g for g in self.rule.methods(v[1], a.attr)
                              if g.is_property and self.rule.matters(g)]
                        if ps and a.attr not in KEEP:
                            n, x, r = self.enter_all(ps, v[1], {}, st)
                            new |= n
                            exc |= x
                            continue
                    new.add(st)
                states = new
        out = set()
        for st in states:
            out |= self.assigned(node, st, results)
        return out, exc

    def simple(self, node, state):
        return self.effect(node, state)[0]

    def assigned(self, node, state, results):
        env, flags = dict(state[0]), set(state[1])
        pairs = []
        if isinstance(node, ast.Assign):
            for t in node.targets:
                pairs.append((t, node.value))
        elif isinstance(node, ast.AugAssign):
            pairs.append((node.target, None))
        elif isinstance(node, ast.AnnAssign):
            pairs.append((node.target, node.value))
        elif isinstance(node, (ast.Name, ast.Tuple, ast.List)) and isinstance(
                getattr(node, 'ctx', None), ast.Store):
            pairs.append((node, None))
        elif isinstance(node, ast.Delete):
            pairs += [(t, None) for t in node.targets]
        if not pairs:
            return {state}
        for t, v in pairs:
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(
                    v, (ast.Tuple, ast.List)) and len(v.elts) == len(
                        t.elts):
                vals = [self.value(x, env, flags) for x in v.elts]
                for x, val in zip(t.elts, vals):
                    self.bind(x, val, env, flags)
            elif isinstance(t, (ast.Tuple, ast.List)):
                val = self.value(v, env, flags) if v is not None else None
                for i, x in enumerate(t.elts):
                    one = None
                    if val is not None and val[0] == 'c' and isinstance(
                            val[1], tuple) and i < len(val[1]) and not any(
                                isinstance(y, ast.Starred)
                                for y in t.elts):
                        one = const(val[1][i])
                    self.bind(x, one, env, flags)
            else:
                val = None
                if v is not None:
                    val = self.value(v, env, flags)
                    if val is None and v in results:
                        val = results[v]
                self.bind(t, val, env, flags)
        return {(frozenset(env.items()), frozenset(flags))}

    def bind(self, t, val, env, flags):
        if isinstance(t, ast.Starred):
            t = t.value
        if isinstance(t, ast.Name):
            env.pop(t.id, None)
            if val is not None:
                env[t.id] = val
            return
        base = t
        while isinstance(base, ast.Subscript):
            base = base.value
        if isinstance(base, ast.Attribute):
            v = self.value(base.value, env, flags)
            if v is not None and v[0] == 'o' and 'flat' not in flags and \
                    not v[2:]:
                flags.add('dirty')

    def enter(self, node, state):
        for i in node.items:
            c = i.context_expr
            if isinstance(c, ast.Call) and isinstance(
                    c.func, ast.Attribute) and c.func.attr == '_treatAs2D':
                v = self.ev(c.func.value, state)
                if v is not None and v[0] == 'o':
                    return [(state[0], state[1] | {'flat'})]
        return [state]

    def leave(self, node, state):
        for i in node.items:
            c = i.context_expr
            if isinstance(c, ast.Call) and isinstance(
                    c.func, ast.Attribute) and c.func.attr == '_treatAs2D':
                return [(state[0], state[1] - {'flat'})]
        return [state]

    def branch(self, test, state):
        v = self.ev(test, state)
        t = None if v is None else self.truthy(v)
        if t is True:
            return [state], []
        if t is False:
            return [], [state]
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            a, b = self.branch(test.operand, state)
            return b, a
        return [state], [state]

    # --------------------------------------------------------- calls
    def call(self, c, state):
        """(normal states, states of exceptions, value)"""
        fn = c.func
        # the function wrapped by a decorator
        if isinstance(fn, ast.Name) and self.layers:
            g = self.flow.scope_of(self.f, fn.id)
            if g is not None and g is not self.f and fn.id in g.params and \
                    g is self.layers[0][1]:
                return self.next_layer(state)
        env, flags = dict(state[0]), state[1]
        targets, kind, bound = [], None, True
        if isinstance(fn, ast.Attribute):
            v = self.value(fn.value, env, flags)
            if isinstance(fn.value, ast.Call) and isinstance(
                    fn.value.func, ast.Name) and \
                    fn.value.func.id == 'super':
                targets = [t.func for t in self.flow.targets(self.f, c)]
                kind = self.kind
            elif v is not None and v[0] == 'o':
                kind = v[1]
                targets = self.rule.methods(kind, fn.attr)
                if v[2:] and 'dirty' not in flags:
                    # what happens to a new object is nobody's business
                    n, x, r = self.reach(c, targets, kind, True, state)
                    clean = lambda ss: {(e, fl - {'dirty'}) for e, fl in ss}
                    return clean(n), clean(x), r
                if not targets and self.rule.mutates(kind, fn.attr):
                    return {self.dirty(state)}, set(), None
            else:
                e = self.flow.entity(self.f, fn)
                if isinstance(e, Func):
                    targets, bound = [e], False
        elif isinstance(fn, ast.Name):
            e = self.flow.entity(self.f, fn)
            if isinstance(e, Func):
                targets, bound = [e], False
            else:
                g = self.flow.scope_of(self.f, fn.id)
                if g is not None:
                    for h in self.rule.p.funcs:
                        if h.parent is g and h.name == fn.id:
                            targets, bound = [h], False
        return self.reach(c, targets, kind, bound, state)

    def reach(self, c, targets, kind, bound, state):
        fn, flags = c.func, state[1]
        targets = [g for g in targets if not g.is_property]
        interesting = [g for g in targets if self.rule.matters(g)]
        if not interesting or self.depth > 7:
            if kind is not None and isinstance(fn, ast.Attribute) and \
                    self.rule.mutates(kind, fn.attr) and \
                    'flat' not in flags:
                return {self.dirty(state)}, set(), None
            return {state}, set(), None
        if len(interesting) < len(targets):
            # some of the possible targets do not look at all
            n, x, r = self.enter_all(interesting, kind, None, state, c,
                                     bound)
            return n | {state}, x, None
        return self.enter_all(interesting, kind, None, state, c, bound)

    def dirty(self, state):
        if 'flat' in state[1]:
            return state
        return (state[0], state[1] | {'dirty'})

    def enter_all(self, gs, kind, given, state, c=None, bound=True):
        normal, exc, vals = set(), set(), []
        for g in gs:
            args = {}
            if given is None:
                env, flags = dict(state[0]), state[1]
                pos = list(g.pos)
                if g.cls is not None and g.parent is None and \
                        not g.is_static and bound and pos:
                    pos = pos[1:]
                for i, a in enumerate(c.args):
                    if isinstance(a, ast.Starred):
                        break
                    if i < len(pos):
                        args[pos[i]] = self.value(a, env, flags)
                star = any(k.arg is None for k in c.keywords) or any(
                    isinstance(a, ast.Starred) for a in c.args)
                for k in c.keywords:
                    if k.arg:
                        args[k.arg] = self.value(k.value, env, flags)
                if not star:
                    for p, d in g.defaults.items():
                        if p not in args and isinstance(d, ast.Constant):
                            args[p] = const(d.value)
            else:
                args = dict(given)
            ends, bad, val = self.rule.outcome(
                g, kind or self.kind, self.rank, args, state[1],
                self.depth + 1)
            normal |= {(state[0], fl) for fl in ends}
            exc |= {(state[0], fl) for fl in bad}
            vals.append(val)
        v = vals[0] if vals and all(x == vals[0] for x in vals) else None
        return normal, exc, v

    def next_layer(self, state):
        ends, bad, val = self.rule.run_layers(
            self.layers[1:], self.kind, self.rank, self.given, state[1],
            self.depth)
        return ({(state[0], fl) for fl in ends},
                {(state[0], fl) for fl in bad}, val)


class C15:
    def __init__(self, rep):
        self.rep, self.p, self.nim = rep, rep.prog, rep.nim
        self.flow = Flow(rep.prog)
        self.memo = {}
        self.busy = set()
        self._methods = {}
        self.kinds = {
            'base': [c for c in self.p.classes if self.nim.is_data(c)],
            'points': [c for c in self.p.classes if self.nim.is_axis(c) and
                       self.named(c, 'Points')],
            'features': [c for c in self.p.classes if self.nim.is_axis(c)
                         and self.named(c, 'Features')],
        }

    def named(self, c, name):
        return any(m.name == name for m in c.mro())

    def methods(self, kind, name):
        key = (kind, name)
        if key not in self._methods:
            out = []
            for c in self.kinds[kind]:
                g = c.lookup(name)
                if isinstance(g, Func) and g not in out and \
                        not self.is_abstract(g):
                    out.append(g)
            self._methods[key] = out
        return self._methods[key]

    def is_abstract(self, g):
        return g.is_abstract

    def mutates(self, kind, name):
        cls = self.kinds[kind][0]
        return self.nim.mutating(cls, name) or any(
            self.nim.mutating(c, name) for c in self.kinds[kind][:1])

    # functions in which the number of dimensions can make a difference
    def matters(self, g):
        if not hasattr(self, '_matters'):
            direct = set()
            calls = {}
            for f in self.p.funcs:
                if not f.module.name.startswith('nimble.core'):
                    continue
                names = set()
                hit = False
                if isinstance(f.node.body, list) and isinstance(
                        f.node.body[-1], ast.Raise):
                    hit = True
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute):
                        names.add(n.attr)
                        if n.attr in ('_dims', 'dimensions'):
                            hit = True
                    elif isinstance(n, ast.Name):
                        names.add(n.id)
                calls[f] = names
                if hit:
                    direct.add(f)
            byname = {}
            for f in calls:
                byname.setdefault(f.name, []).append(f)
            names = {f.name for f in direct} - {'_dims', 'dimensions',
                                                'shape'}
            changed = True
            while changed:
                changed = False
                for f, used in calls.items():
                    if f not in direct and used & names:
                        direct.add(f)
                        if f.name not in names:
                            names.add(f.name)
                            changed = True
            self._matters = direct
        return g in self._matters or bool(self.layers_of(g))

    # ------------------------------------------------------ decorators
    def layers_of(self, f):
        """[(wrapper, decorator)] outermost first"""
        if not hasattr(self, '_layers'):
            self._layers = {}
        if f not in self._layers:
            out = []
            for d in f.node.decorator_list:
                e = d.func if isinstance(d, ast.Call) else d
                g = self.p.resolve_expr(f.module, e)
                if not isinstance(g, Func):
                    continue
                if isinstance(d, ast.Call):
                    # factory: the nested function it returns decorates
                    inner = self.returned(g)
                    g = inner if inner is not None else g
                w = self.returned(g)
                if w is not None:
                    out.append((w, g))
            self._layers[f] = out
        return self._layers[f]

    def returned(self, g):
        names = {n.value.id for n in walk_own(g.node)
                 if isinstance(n, ast.Return) and isinstance(
                     n.value, ast.Name)}
        for h in self.p.funcs:
            if h.parent is g and h.name in names:
                return h
        return None

    # ---------------------------------------------------------- walking
    def outcome(self, f, kind, rank, args, flags, depth=0):
        """(flags at normal ends, flags at exceptions, value)"""
        args = {k: v for k, v in args.items() if v is not None}
        key = (f, kind, rank, frozenset(args.items()), flags)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return set(), set(), None    # the other paths decide
        if depth > 9:
            return {flags}, set(), None
        self.busy.add(key)
        layers = [(w, d) for w, d in self.layers_of(f)] + [(f, None)]
        got = self.run_layers(layers, kind, rank, args, flags, depth)
        self.busy.discard(key)
        self.memo[key] = got
        return got

    def run_layers(self, layers, kind, rank, args, flags, depth):
        f = layers[0][0]
        env = {}
        own = layers[0][1] is None
        first = f.pos[0] if f.pos else None
        if own and f.cls is not None and f.parent is None and first and \
                not f.is_static:
            env[first] = ('o', kind)
        elif not own and first:
            env[first] = ('o', kind)
        for p, v in args.items():
            if p in f.params or p in f.kwonly:
                env[p] = v
        w = Refuse(self, f, kind, rank, layers, args, depth)
        try:
            o = w.run(f.node.body, {(frozenset(env.items()), flags)})
        except TooManyPaths:
            self.rep.count('functions_too_large')
            return {flags}, set(), None
        ends = {s[1] for s in o.normal} | {s[1] for s, _ in o.ret}
        vals = {w.ev(n.value, s) if n.value is not None else const(None)
                for s, n in o.ret}
        if o.normal:
            vals.add(const(None))
        bad = {s[1] for s in o.exc}
        return ends, bad, vals.pop() if len(vals) == 1 else None

    # ----------------------------------------------------------- judge
    def public(self, name):
        return not name.startswith('_') or (
            name.startswith('__') and name.endswith('__'))

    def run(self):
        rep = self.rep
        seen = set()
        for kind, classes in self.kinds.items():
            for c in classes:
                for name, f in sorted(c.methods.items()):
                    if not self.public(name) or (kind, f) in seen or \
                            self.is_abstract(f):
                        continue
                    seen.add((kind, f))
                    if name in DEFINED[kind]:
                        continue
                    self.must_refuse(kind, name, f, {})
            # those inherited from the class common to both axes
            names = {n for c in classes for k in c.mro()
                     for n in k.methods if self.public(n)}
            for name in sorted(names - DEFINED[kind]):
                for f in self.methods(kind, name):
                    if (kind, f) not in seen:
                        seen.add((kind, f))
                        self.must_refuse(kind, name, f, {})
        for kind, name, given in CONDITIONAL:
            for f in self.methods(kind, name):
                if self.readonly(f):
                    continue
                rep.count('conditional_refusals')
                self.must_refuse(kind, name, f, given)
        rep.floor('operations_refused', 60)
        rep.floor('conditional_refusals', 20)

    def readonly(self, f):
        return any(m.name in ('BaseView', 'AxisView') for m in
                   ([f.cls] if f.cls else []))

    def must_refuse(self, kind, name, f, given):
        rep = self.rep
        if f.is_abstract:
            return
        rep.count('operations_refused')
        text = ''
        if given:
            text = '(%s)' % ', '.join('%s=%s' % (
                k, repr(v[1]) if v[0] == 'c' else
                'function' if v == FN else 'of other dimensions')
                for k, v in sorted(given.items()))
        for rank in (3, 4):
            rep.count('walks')
            args = {}
            if given:
                for p, d in f.defaults.items():
                    if isinstance(d, ast.Constant):
                        args[p] = const(d.value)
            args.update(given)
            ends, bad, _ = self.outcome(f, kind, rank, args, frozenset())
            if ends:
                if not given and self.harmless(kind, f):
                    rep.count('operations_indifferent')
                    return
                rep.add('accepted', '%s.%s%s' % (kind, name, text),
                        '%s%s works on an object with %d dimensions as if '
                        'it were flat' % (f.short, text, rank),
                        f.loc(f.node))
                return
            if self.mutates(kind, name) and any('dirty' in fl for fl in bad):
                rep.add('late', '%s.%s%s' % (kind, name, text),
                        '%s%s refuses an object with %d dimensions only '
                        'after changing it' % (f.short, text, rank),
                        f.loc(f.node))
                return
            if not bad:
                return

    def harmless(self, kind, f):
        """a method that uses nothing that is not defined for more
        dimensions"""
        me = f.pos[0] if f.pos else None
        if f.is_static or f.is_classmethod:
            return True
        state = {'_dims', '_name', '_absPath', '_relPath', '_base', '_axis',
                 '_isPoint', '_offAxis'}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                b = n
                while isinstance(b, ast.Attribute):
                    if isinstance(b.value, ast.Name) and b.value.id == me:
                        ok = DEFINED[kind] | state
                        if kind != 'base':
                            ok = ok | {'_base'}
                        ok = ok - {'features', 'shape'}
                        if b.attr not in ok:
                            return False
                    elif isinstance(b.value, ast.Attribute) and \
                            b.value.attr == '_base' and b.attr not in (
                                DEFINED['base'] | state) - {
                                    'features', 'shape'}:
                        return False
                    b = b.value
            elif isinstance(n, ast.Call) and not (
                    isinstance(n.func, ast.Name) and n.func.id in (
                        'isinstance', 'type', 'id', 'hasattr') or
                    isinstance(n.func, ast.Name) and n.func.id == 'len' and
                    kind == 'points') and any(
                    isinstance(a, ast.Name) and a.id == me for a in n.args):
                return False
        return True


def run(rep):
    C15(rep).run()
