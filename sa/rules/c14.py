"""C14 operators apply their own operation in their own direction"""
import ast
from ..flow import Flow
from ..model import Func, Cls, Ext

EXPLANATION = """
Abstract interpretation of every operator method over a domain of operator
terms.  The content of the object is the term L, the content of the other
operand R; copies, conversions and containers keep the term, an application of
an operation (operator syntax, a special method called by its name, a numpy or
operator function, a scipy method, an element function) builds a new one.  The
name of the operation is propagated as a constant through the shared code into
the implementation of the storage type, so every test on it and on the kind of
the operand is decided; tests that are not decided are taken both ways.  This
is repeated for each storage type and view as the object, and for a scalar,
each storage type and view, and stretched objects as the operand.  Each term
returned (for in-place forms: held by the object afterwards) is normalised
and compared with the operation the method is named for, with the object on
the side the form demands.  Values computed on the stored entries of a Sparse
object only are accepted when zeros stay zero under that operation and both
operands are taken at the same positions.  Terms with a part that could not be
determined are counted, not judged."""

ASSUMPTIONS = [
    'numpy, pandas and scipy operators apply the operation they are named '
    'for; division and modulo are only reached when the divisor holds no '
    'zeros (which the shared code validates)',
]

BIN = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'truediv': 'truediv',
       'floordiv': 'floordiv', 'mod': 'mod', 'pow': 'pow', 'and': 'and',
       'or': 'or', 'xor': 'xor', 'matmul': 'matmul', 'lt': 'lt', 'le': 'le',
       'gt': 'gt', 'ge': 'ge', 'eq': 'eq', 'ne': 'ne'}
ARITH = ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow')
COMMUTE = {'add', 'mul', 'and', 'or', 'xor'}
SYNTAX = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul',
          ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
          ast.Pow: 'pow', ast.BitAnd: 'and', ast.BitOr: 'or',
          ast.BitXor: 'xor', ast.MatMult: 'matmul'}
UFUNC = {'add': 'add', 'subtract': 'sub', 'multiply': 'mul',
         'true_divide': 'truediv', 'divide': 'truediv',
         'floor_divide': 'floordiv', 'mod': 'mod', 'remainder': 'mod',
         'power': 'pow', 'float_power': 'pow', 'matmul': 'matmul',
         'dot': 'matmul', 'logical_and': 'and', 'logical_or': 'or',
         'logical_xor': 'xor', 'bitwise_and': 'and', 'bitwise_or': 'or',
         'bitwise_xor': 'xor'}
UNARY = {'floor': 'floor', 'absolute': 'abs', 'abs': 'abs',
         'negative': 'neg', 'fabs': 'abs', 'logical_not': 'not',
         'ceil': 'ceil', 'trunc': 'trunc', 'rint': 'rint',
         'sign': 'sign', 'sqrt': 'sqrt', 'square': 'square'}
OPERATOR = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'truediv': 'truediv',
            'floordiv': 'floordiv', 'mod': 'mod', 'pow': 'pow',
            'matmul': 'matmul', 'and_': 'and', 'or_': 'or', 'xor': 'xor'}
KEEPS = {'tocoo', 'tocsr', 'tocsc', 'todense', 'toarray', 'copy', 'astype',
         'ravel', 'flatten', 'asformat', 'tolist', 'to_numpy', 'reshape',
         'squeeze'}
# methods of objects that leave the content and are not entered
QUIET = {'_convertToNumericTypes', '_numericValidation', '_sortInternal',
         'setNames', '_diagnoseFailureAndRaiseException', '_setDtypes',
         'checkInvariants', '_validateEqualNames', '_validateDivMod',
         '_getNamesNoGeneration', '_treatAs2D', 'getTypeString',
         '_genericBinary_axisNames', '_genericBinary_sizeValidation'}
NI = ('c', NotImplemented)
CAP = 300


class Undecided(Exception):
    pass


# ------------------------------------------------------------------ terms
def has_unknown(t):
    return t is None or isinstance(t, tuple) and any(
        has_unknown(x) for x in t[1:] if isinstance(x, tuple) or x is None)


def app(op, a, b=0):
    if a is None or b is None:
        return None
    if b == 0 and not isinstance(b, tuple):
        return ('app', op, a)
    return ('app', op, a, b)


def norm(t, facts):
    if not isinstance(t, tuple):
        return t
    for f in facts:
        if f[0] == 'eq' and t == f[1]:
            return ('k', f[2])
    if t[0] == 'app':
        op = t[1]
        xs = [norm(x, facts) for x in t[2:]]
        if len(xs) == 2:
            a, b = xs
            if op == 'mul' and ('k', -1) in (a, b):
                return norm(('app', 'neg', a if b == ('k', -1) else b),
                            facts)
            if op == 'mul' and ('k', 1) in (a, b):
                return a if b == ('k', 1) else b
            if op in ('truediv', 'pow') and b == ('k', 1):
                return a
            if op == 'floordiv' and b == ('k', 1):
                return norm(('app', 'floor', a), facts)
            if op == 'add':
                for x, y in ((a, b), (b, a)):
                    if x[:2] == ('app', 'neg'):
                        return ('app', 'sub', y, x[2])
            if op == 'sub' and b[:2] == ('app', 'neg'):
                return norm(('app', 'add', a, b[2]), facts)
            if op in COMMUTE:
                a, b = sorted((a, b), key=repr)
            return ('app', op, a, b)
        a = xs[0]
        if op == 'floor' and a[:2] == ('app', 'truediv'):
            return ('app', 'floordiv') + a[2:]
        if op == 'neg' and a[:2] == ('app', 'neg'):
            return a[2]
        return ('app', op, a)
    if t[0] == 'at':
        owner, x = norm(t[1], facts), norm(t[2], facts)
        if zero_at(x, owner, facts):
            return x
        return ('at', owner, x)
    return t


def zero_at(t, owner, facts):
    """is t zero wherever owner is"""
    if t == owner or t == ('k', 0):
        return True
    if t[0] != 'app':
        return False
    if owner[0] == 'app' and owner[1] == 'truediv' and \
            t == ('app', 'floordiv') + owner[2:]:
        return True
    op, xs = t[1], t[2:]
    z = [zero_at(x, owner, facts) for x in xs]
    if op == 'mul' or op == 'and':
        return any(z)
    if op in ('add', 'sub', 'or', 'xor'):
        return all(z)
    if op in ('truediv', 'floordiv', 'mod'):
        return any(z)       # a divisor has no zeros at all
    if op == 'pow':
        return z[0] and (('gt0', xs[1]) in facts or xs[1][0] == 'k' and
                         xs[1][1] > 0)
    return op in ('neg', 'floor', 'abs', 'ceil', 'trunc', 'rint', 'sign',
                  'sqrt', 'square') and z[0]


def show(t):
    if t is None:
        return '?'
    if t[0] == 'k':
        return repr(t[1])
    if t[0] == 'app' and len(t) == 4:
        return '%s(%s, %s)' % (t[1], show(t[2]), show(t[3]))
    if t[0] == 'app':
        return '%s(%s)' % (t[1], show(t[2]))
    if t[0] == 'at':
        return '%s of the non-zero entries of %s only' % (
            show(t[2]), show(t[1]))
    if t[0] == 'mis':
        return 'entries paired by position (%s)' % show(t[1])
    return {'L': 'self', 'R': 'other'}.get(t[0], t[0])


class St:
    __slots__ = ('env', 'heap', 'facts')

    def __init__(self, env, heap, facts):
        self.env, self.heap, self.facts = env, heap, facts

    def bind(self, name, val):
        e = dict(self.env)
        if val is None:
            e.pop(name, None)
        else:
            e[name] = val
        return St(e, self.heap, self.facts)

    def put(self, oid, kind, term):
        h = dict(self.heap)
        h[oid] = (kind, term)
        return St(self.env, h, self.facts)

    def new(self, kind, term):
        oid = len(self.heap)
        return ('o', oid), self.put(oid, kind, term)

    def fact(self, f):
        return St(self.env, self.heap, self.facts | {f})

    def within(self, env):
        return St(env, self.heap, self.facts)

    def key(self):
        return (frozenset((k, v) for k, v in self.env.items()
                          if hashable(v)),
                frozenset(self.heap.items()), self.facts)


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


class Frame:
    def __init__(self, f, outer=None, env=None):
        self.f, self.outer, self.env = f, outer, env


class Ops:
    def __init__(self, rep):
        self.rep, self.p, self.nim = rep, rep.prog, rep.nim
        self.flow = Flow(rep.prog)
        self.kinds = {}
        for c in list(self.nim.concrete) + list(self.nim.views):
            if self.nim.is_data(c):
                self.kinds[c.name] = c
        self.stack = []
        self.steps = 0
        self.where = {}

    # ------------------------------------------------------------ kinds
    def raw_kind(self, kind):
        for n, k in (('Sparse', 'sparse'), ('Matrix', 'dense'),
                     ('DataFrame', 'frame'), ('List', 'list')):
            if kind and kind.startswith(n):
                return k
        return None

    def plain(self, kind):
        c = self.kinds.get(kind)
        if c is not None and c in self.nim.views:
            for k in c.mro():
                if k in self.nim.concrete:
                    return k.name
        return kind

    def term_of(self, v, st):
        """the term a value stands for, None unknown"""
        if v is None:
            return None
        if v[0] == 'o':
            return st.heap[v[1]][1]
        if v[0] == 'stretch':
            return st.heap[v[1]][1]
        if v[0] == 'raw':
            return v[1]
        if v[0] == 'stored':
            return ('stored',)
        if v[0] == 'c' and isinstance(v[1], (int, float)):
            return ('k', v[1])
        return None

    # ------------------------------------------------------ application
    def apply2(self, op, a, b, st, syntax=False):
        """value of the elementwise (or matrix) operation on two values"""
        if a is None or b is None:
            return None
        if op in ('mul', 'pow') and not syntax == 'ufunc':
            for x, y in ((a, b), (b, a)):
                if x[0] == 'raw' and x[2] == 'sparse' and not (
                        y[0] == 'c' or y[0] == 'raw' and y[2] == 'scalar'):
                    op = {'mul': 'matmul', 'pow': 'matpow'}[op]
                    break
        if a[0] == b[0] == 'raw' and a[2] == b[2] == 'list' and \
                not syntax == 'ufunc':
            op = 'list' + op
        sa, sb = a[0] == 'stored', b[0] == 'stored'
        if sa or sb:
            ta = a[2] if sa else self.term_of(a, st)
            tb = b[2] if sb else self.term_of(b, st)
            owner = a[1] if sa else b[1]
            if sa and sb and norm(a[1], st.facts) != norm(
                    b[1], st.facts):
                if a[1] is None or b[1] is None:
                    return None
                return ('stored', owner, ('mis', app(op, ta, tb) or ('?',)))
            return ('stored', owner, app(op, ta, tb))
        ta, tb = self.term_of(a, st), self.term_of(b, st)
        kind = 'dense'
        for x in (a, b):
            if x[0] == 'raw' and x[2] == 'sparse':
                kind = 'sparse'
        return ('raw', app(op, ta, tb), kind)

    def apply1(self, op, a, st):
        if a is None:
            return None
        if a[0] == 'stored':
            return ('stored', a[1], app(op, a[2]))
        if a[0] == 'raw':
            return ('raw', app(op, a[1]), a[2])
        if a[0] == 'c' and op == 'neg' and isinstance(a[1], (int, float)):
            return ('c', -a[1])
        return None

    def dunder(self, name):
        """(operation, form) of a special method name"""
        if not (name.startswith('__') and name.endswith('__')):
            return None
        core = name[2:-2]
        if core in BIN:
            return BIN[core], ''
        if core and core[0] in 'ri' and core[1:] in BIN:
            return BIN[core[1:]], core[0]
        return None

    # ----------------------------------------------------- expressions
    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > 400000:
            raise Undecided()
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            return [(None, st)]
        return m(e, st, fr)

    def evs(self, es, st, fr):
        out = [([], st)]
        for e in es:
            nxt = []
            for vals, s in out:
                for v, s2 in self.ev(e, s, fr):
                    nxt.append((vals + [v], s2))
            out = nxt
            if len(out) > CAP:
                raise Undecided()
        return out

    def ev_Constant(self, e, st, fr):
        return [(('c', e.value), st)]

    def ev_Name(self, e, st, fr):
        if e.id in st.env:
            return [(st.env[e.id], st)]
        x = fr
        while x.outer is not None:
            if x.env is not None and e.id in x.env:
                return [(x.env[e.id], st)]
            x = x.outer
        if e.id in self.flow.local_names(fr.f):
            return [(None, st)]
        return [(self.static(e, fr), st)]

    def static(self, e, fr):
        ent = self.flow.entity(fr.f, e)
        if isinstance(ent, Func):
            return ('f', ent)
        if isinstance(ent, Cls):
            return ('cls', ent)
        if isinstance(ent, Ext):
            return ('ext', ent.name)
        if isinstance(e, ast.Name):
            if e.id == 'NotImplemented':
                return NI
            if e.id in ('abs', 'pow', 'getattr', 'isinstance', 'len', 'any',
                        'all', 'type', 'max', 'min', 'tuple', 'str', 'int',
                        'float', 'bool', 'list', 'object', 'super',
                        'hasattr', 'callable', 'divmod', 'round'):
                return ('ext', 'builtins.' + e.id)
        return None

    def ev_Attribute(self, e, st, fr):
        ent = self.flow.entity(fr.f, e)
        if isinstance(ent, (Func, Cls, Ext)):
            return [(self.static(e, fr), st)]
        out = []
        for v, s in self.ev(e.value, st, fr):
            out += self.attr(v, e.attr, s)
        return out

    def attr(self, v, name, st):
        """[(value, st)]; [] when the access raises"""
        if v is None:
            return [(None, st)]
        if v[0] == 'o':
            kind, term = st.heap[v[1]]
            if name == '_data':
                rk = self.raw_kind(kind)
                return [(('raw', term, rk, v[1]) if rk else None, st)]
            if name in ('points', 'features'):
                return [(('axis', v[1], name), st)]
            if name == 'stretch':
                return [(('stretch', v[1]), st)]
            if name == '__class__':
                c = self.kinds.get(kind)
                return [(('cls', c) if c else None, st)]
            return [(('bm', v, name), st)]
        if v[0] == 'stretch':
            if name == '_source':
                return [(('o', v[1]), st)]
            return [(('bm', v, name), st)]
        if v[0] == 'axis':
            return [(('bm', v, name), st)]
        if v[0] == 'raw':
            if v[2] == 'scalar' and not self.dunder(name):
                return []
            if v[2] == 'sparse' and name == 'data':
                return [(('stored', v[1], v[1]) + v[3:], st)]
            if v[2] == 'sparse' and name in ('row', 'col', 'indices'):
                return [(('idx', v[1]), st)]
            if name in ('values', 'A'):
                return [(('raw', v[1], 'dense'), st)]
            if name == 'T':
                return [(('raw', app('T', v[1]), v[2]), st)]
            return [(('rm', v, name), st)]
        if v[0] == 'stored':
            return [(('rm', v, name), st)]
        if v[0] in ('c', 'ext', 'cls', 'f'):
            if v[0] == 'ext':
                return [(('ext', v[1] + '.' + name), st)]
            return [(('rm', v, name), st)]
        return [(None, st)]

    def ev_Tuple(self, e, st, fr):
        out = []
        for vals, s in self.evs(e.elts, st, fr):
            if all(v is not None and v[0] == 'c' for v in vals):
                out.append((('c', tuple(v[1] for v in vals)), s))
            else:
                out.append((('tup', tuple(vals)), s))
        return out
    ev_List = ev_Tuple
    ev_Set = ev_Tuple

    def ev_Lambda(self, e, st, fr):
        return [(('fn', e, fr, st.env), st)]

    def ev_UnaryOp(self, e, st, fr):
        out = []
        for v, s in self.ev(e.operand, st, fr):
            if isinstance(e.op, ast.Not):
                if v is not None and v[0] in ('raw',):
                    out.append((('raw', app('not', v[1]), 'elem'), s))
                else:
                    t = self.truth(v)
                    out.append((None if t is None else ('c', not t), s))
            elif isinstance(e.op, ast.USub):
                if v is not None and v[0] == 'o':
                    o, s2 = s.new(self.plain(s.heap[v[1]][0]),
                                  app('neg', s.heap[v[1]][1]))
                    out.append((o, s2))
                else:
                    out.append((self.apply1('neg', v, s), s))
            elif isinstance(e.op, ast.Invert) and v is not None and \
                    v[0] == 'raw':
                out.append((self.apply1('not', v, s), s))
            else:
                out.append((None, s))
        return out

    def truth(self, v):
        if v is None:
            return None
        if v[0] == 'c':
            if v[1] is NotImplemented:
                return True
            return bool(v[1])
        if v[0] in ('o', 'fn', 'stretch', 'f', 'cls', 'bm'):
            return True if v[0] != 'o' else None
        return None

    def ev_BoolOp(self, e, st, fr):
        return self.boolop(e.values, isinstance(e.op, ast.Or), st, fr)

    def boolop(self, values, is_or, st, fr):
        out = []
        for v, s in self.ev(values[0], st, fr):
            if len(values) == 1:
                out.append((v, s))
                continue
            t = self.truth(v)
            if t is is_or:
                out.append((v, s))
            elif t is (not is_or):
                out += self.boolop(values[1:], is_or, s, fr)
            else:
                a, b = self.fork(values[0], s, fr)
                stop, go = (a, b) if is_or else (b, a)
                for x in stop:
                    out.append((('c', is_or), x))
                for x in go:
                    out += self.boolop(values[1:], is_or, x, fr)
        return out

    def text(self, v):
        return v is not None and v[0] == 'c' and isinstance(v[1], str)

    def fork(self, test, st, fr):
        """an undecided test taken both ways, with what it tells"""
        names = [n for n in ast.walk(test) if isinstance(n, ast.Name)]
        if isinstance(test, ast.Compare) and isinstance(
                test.ops[0], (ast.Is, ast.IsNot)):
            names = [n for n in (test.left, test.comparators[0])
                     if isinstance(n, ast.Name) and n.id not in st.env]
        for n in names:
            if '!' + n.id in st.env or self.text(st.env.get(n.id)):
                # decided by the name of the operation or by a value that
                # was not followed: what comes after is not judged
                st = st.fact(('unsure',))
                break
        yes, no = st, st
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            a = self.ev(test.left, st, fr)[0][0]
            b = self.ev(test.comparators[0], st, fr)[0][0]
            op = type(test.ops[0])
            for x, y, o in ((a, b, op), (b, a, {
                    ast.Gt: ast.Lt, ast.Lt: ast.Gt}.get(op, op))):
                if x is not None and x[0] == 'raw' and x[1] is not None \
                        and y is not None and y[0] == 'c' and isinstance(
                            y[1], (int, float)):
                    if o is ast.Eq:
                        yes = st.fact(('eq', x[1], y[1]))
                    elif o is ast.NotEq:
                        no = st.fact(('eq', x[1], y[1]))
                    elif o is ast.Gt and y[1] >= 0:
                        yes = st.fact(('gt0', x[1]))
                    elif o is ast.LtE and y[1] >= 0:
                        no = st.fact(('gt0', x[1]))
                    elif o is ast.GtE and y[1] > 0:
                        yes = st.fact(('gt0', x[1]))
        if isinstance(test, ast.Name):
            tag = st.env.get('?' + test.id)
            if tag is not None:
                return self.fork(tag, st, fr)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            a, b = self.fork(test.operand, st, fr)
            return b, a
        return [yes], [no]

    def ev_IfExp(self, e, st, fr):
        out = []
        for t, s in self.decide(e.test, st, fr):
            out += self.ev(e.body if t else e.orelse, s, fr)
        return out

    def decide(self, test, st, fr):
        out = []
        if isinstance(test, ast.BoolOp):
            is_or = isinstance(test.op, ast.Or)
            live = [st]
            for v in test.values:
                nxt = []
                for s in live:
                    for t, s2 in self.decide(v, s, fr):
                        if t is is_or:
                            out.append((t, s2))
                        else:
                            nxt.append(s2)
                live = nxt
            return out + [(not is_or, s) for s in live]
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(not t, s) for t, s in self.decide(
                test.operand, st, fr)]
        for v, s in self.ev(test, st, fr):
            t = self.truth(v)
            if t is None:
                a, b = self.fork(test, s, fr)
                out += [(True, x) for x in a] + [(False, x) for x in b]
            else:
                out.append((t, s))
        return out

    def ev_Compare(self, e, st, fr):
        out = []
        for vals, s in self.evs([e.left] + e.comparators, st, fr):
            res = True
            for a, op, b in zip(vals, e.ops, vals[1:]):
                r = self.compare(a, op, b)
                if r is False:
                    res = False
                    break
                if r is None:
                    res = None
            out.append((None if res is None else ('c', res), s))
        return out

    def compare(self, a, op, b):
        if a is None or b is None:
            return None
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = None
            if a[0] == 'c' and b[0] == 'c':
                r = a[1] is b[1]
            elif {a[0], b[0]} & {'o', 'stretch', 'stored', 'fn'} and \
                    'c' in (a[0], b[0]):
                r = False
            elif a[0] == b[0] == 'o':
                r = a == b
            elif {a[0], b[0]} & {'o', 'stretch'} and a[0] != b[0]:
                r = False
            elif 'raw' in (a[0], b[0]) and ('c', None) in (a, b):
                r = False
            if r is None:
                return None
            return r if isinstance(op, ast.Is) else not r
        if a[0] == b[0] == 'c':
            x, y = a[1], b[1]
            try:
                return {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y,
                        ast.In: lambda: x in y, ast.NotIn: lambda: x not in
                        y, ast.Lt: lambda: x < y, ast.Gt: lambda: x > y,
                        ast.LtE: lambda: x <= y, ast.GtE: lambda: x >= y,
                        }[type(op)]()
            except (TypeError, KeyError):
                return None
        if a[0] == b[0] == 'cls' and isinstance(op, (ast.Eq, ast.NotEq)):
            return (a[1] is b[1]) == isinstance(op, ast.Eq)
        return None

    def ev_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                if v.format_spec is not None or v.conversion != -1:
                    return [(None, st)]
                parts.append(v.value)
            else:
                parts.append(v)
        out = []
        for vals, s in self.evs(parts, st, fr):
            if all(v is not None and v[0] == 'c' for v in vals):
                out.append((('c', ''.join(str(v[1]) for v in vals)), s))
            else:
                out.append((None, s))
        return out

    def ev_Subscript(self, e, st, fr):
        out = []
        sl = e.slice
        for v, s in self.ev(e.value, st, fr):
            if v is None:
                out.append((None, s))
            elif v[0] == 'o':
                out.append((('raw', s.heap[v[1]][1], 'elem'), s))
            elif v[0] == 'c' and isinstance(v[1], (str, tuple)) or \
                    v[0] == 'tup':
                if isinstance(sl, ast.Slice):
                    parts = [x if x is not None else ast.Constant(None)
                             for x in (sl.lower, sl.upper, sl.step)]
                else:
                    parts = [sl]
                for vals, s2 in self.evs(parts, s, fr):
                    if any(x is None or x[0] != 'c' for x in vals):
                        out.append((None, s2))
                        continue
                    vals = [x[1] for x in vals]
                    try:
                        got = v[1][slice(*vals) if isinstance(
                            sl, ast.Slice) else vals[0]]
                    except (TypeError, IndexError):
                        out.append((None, s2))
                        continue
                    out.append((('c', got) if v[0] == 'c' else
                                ('tup', got) if isinstance(sl, ast.Slice)
                                else got, s2))
            elif v[0] == 'c' and isinstance(v[1], dict):
                for k, s2 in self.ev(sl, s, fr):
                    out.append((('c', v[1][k[1]]) if k and k[0] == 'c' and
                                k[1] in v[1] else None, s2))
            elif v[0] == 'raw':
                for k, s2 in self.ev(sl, s, fr):
                    parts = k[1] if k is not None and k[0] == 'tup' else ()
                    if len(parts) == 2 and all(
                            x is not None and x[0] == 'idx'
                            for x in parts) and parts[0] == parts[1]:
                        out.append((('stored', parts[0][1], v[1]), s2))
                    elif v[2] == 'elem':
                        out.append((v, s2))
                    else:
                        out.append((None, s2))
            else:
                out.append((None, s))
        return out

    def ev_Dict(self, e, st, fr):
        out = []
        if any(k is None for k in e.keys):
            return [(None, st)]
        n = len(e.keys)
        for vals, s in self.evs(list(e.keys) + list(e.values), st, fr):
            if all(v is not None and v[0] == 'c' and hashable(v[1])
                   for v in vals):
                out.append((('c', {k[1]: v[1] for k, v in zip(
                    vals[:n], vals[n:])}), s))
            else:
                out.append((None, s))
        return out

    def ev_BinOp(self, e, st, fr):
        out = []
        for (a, b), s in self.evs([e.left, e.right], st, fr):
            out.append(self.binop(e.op, a, b, s))
        return out

    def binop(self, op, a, b, s):
        if a is None or b is None:
            return None, s
        if a[0] == b[0] == 'c':
            try:
                if isinstance(op, ast.Add):
                    return ('c', a[1] + b[1]), s
                if isinstance(op, ast.Sub):
                    return ('c', a[1] - b[1]), s
                if isinstance(op, ast.Mod) and isinstance(a[1], str):
                    return ('c', a[1] % b[1]), s
            except (TypeError, ValueError):
                pass
            return None, s
        name = SYNTAX.get(type(op))
        if name is None:
            return None, s
        return self.operate(name, a, b, s)

    def operate(self, name, a, b, s, ufunc=False):
        if 'o' in (a[0], b[0]) or 'stretch' in (a[0], b[0]):
            lead = a if a[0] in ('o', 'stretch') else b
            return s.new(self.plain(s.heap[lead[1]][0]),
                         app(name, self.term_of(a, s),
                             self.term_of(b, s)))[::1]
        if a[0] in ('raw', 'stored') or b[0] in ('raw', 'stored'):
            return self.apply2(name, a, b, s,
                               'ufunc' if ufunc else False), s
        return None, s

    # ------------------------------------------------------------- calls
    def ev_Call(self, e, st, fr):
        fn = e.func
        out = []
        if isinstance(fn, ast.Name) and fn.id == 'isinstance' and \
                len(e.args) == 2:
            for v, s in self.ev(e.args[0], st, fr):
                out.append((self.is_instance(v, e.args[1], s, fr), s))
            return out
        if isinstance(fn, ast.Name) and fn.id in ('any', 'all') and \
                len(e.args) == 1 and isinstance(
                    e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.quantified(e.args[0], fn.id == 'any', st, fr)
        if isinstance(fn, ast.Attribute) and isinstance(
                fn.value, ast.Call) and isinstance(
                    fn.value.func, ast.Name) and \
                fn.value.func.id == 'super':
            me = st.env.get(fr.f.pos[0]) if fr.f.pos else None
            g = None
            if me is not None and me[0] == 'o' and fr.f.cls is not None:
                c = self.kinds.get(st.heap[me[1]][0])
                g = c.super_lookup(fr.f.cls, fn.attr) if c else None
            elif me is not None and me[0] == 'stretch' and fr.f.cls:
                g = self.stretch_class(me, st).super_lookup(
                    fr.f.cls, fn.attr)
            if isinstance(g, Func):
                return self.with_args(e, st, fr, lambda a, k, s:
                                      self.enter(g, me, a, k, s))
            return [(None, st)]
        for v, s in self.ev(fn, st, fr):
            out += self.with_args(
                e, s, fr, lambda a, k, s2, v=v: self.invoke(
                    v, a, k, s2, fr))
        if len(out) > CAP:
            raise Undecided()
        return out

    def with_args(self, e, st, fr, then):
        if any(isinstance(a, ast.Starred) for a in e.args):
            return [(None, st)]
        names = [k.arg for k in e.keywords]
        out = []
        for vals, s in self.evs(list(e.args) + [
                k.value for k in e.keywords], st, fr):
            n = len(e.args)
            kw = {}
            for a, v in zip(names, vals[n:]):
                if a is None:
                    if v is not None and v[0] == 'c' and isinstance(
                            v[1], dict):
                        kw.update({x: ('c', y) for x, y in v[1].items()})
                else:
                    kw[a] = v
            out += then(vals[:n], kw, s)
        return out

    def quantified(self, g, is_any, st, fr):
        if len(g.generators) != 1 or not isinstance(
                g.generators[0].target, ast.Name):
            return [(None, st)]
        gen = g.generators[0]
        out = []
        for it, s in self.ev(gen.iter, st, fr):
            if it is None or it[0] != 'c' or not isinstance(
                    it[1], (tuple, str)):
                out.append((None, s))
                continue
            res = not is_any
            for x in it[1]:
                s2 = s.bind(gen.target.id, ('c', x))
                keep = True
                for c in gen.ifs:
                    t = self.truth(self.ev(c, s2, fr)[0][0])
                    keep = None if t is None else keep and t
                if keep is False:
                    continue
                t = self.truth(self.ev(g.elt, s2, fr)[0][0])
                if keep is None:
                    t = None
                if t is None:
                    res = None
                elif t is is_any:
                    res = is_any
                    break
            out.append((None if res is None else ('c', res), s))
        return out

    def is_instance(self, v, t, st, fr):
        if v is None:
            return None
        kinds = t.elts if isinstance(t, ast.Tuple) else [t]
        got = []
        for k in kinds:
            ent = self.flow.entity(fr.f, k)
            if isinstance(ent, Cls):
                if v[0] == 'o':
                    c = self.kinds.get(st.heap[v[1]][0])
                    got.append(None if c is None else c.issub(ent))
                elif v[0] == 'stretch':
                    got.append(self.stretch_class(v, st).issub(ent))
                else:
                    got.append(False)
            elif v[0] in ('o', 'stretch'):
                got.append(False)
            elif v[0] == 'c' and isinstance(k, ast.Name) and k.id in (
                    'str', 'int', 'float', 'tuple', 'list', 'dict'):
                got.append(isinstance(v[1], {
                    'str': str, 'int': int, 'float': float, 'tuple': tuple,
                    'list': tuple, 'dict': dict}[k.id]))
            else:
                got.append(None)
        if any(g is True for g in got):
            return ('c', True)
        if all(g is False for g in got):
            return ('c', False)
        return None

    def stretch_class(self, v, st):
        """class of the stretched form of an object"""
        c = self.kinds.get(st.heap[v[1]][0])
        g = c.lookup('stretch') if c is not None else None
        if isinstance(g, Func):
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call):
                    k = self.flow.entity(g, n.func)
                    if isinstance(k, Cls):
                        return k
        return self.nim.stretch if isinstance(self.nim.stretch, Cls) else \
            self.p.cls('nimble.core.data.stretch.Stretch')

    # ---------------------------------------------------------- invoke
    def invoke(self, v, args, kw, st, fr):
        if v is None:
            return [(None, st)]
        k = v[0]
        if k == 'f':
            return self.call_func(v[1], args, kw, st)
        if k == 'fn':
            return self.call_closure(v, args, kw, st)
        if k == 'cls':
            return self.construct(v[1], args, kw, st)
        if k == 'ext':
            return self.external(v[1], args, kw, st)
        if k == 'bm':
            if v[1][0] == 'axis':
                return self.axis_call(v[1], v[2], args, kw, st)
            return self.obj_call(v[1], v[2], args, kw, st)
        if k == 'rm':
            return self.raw_call(v[1], v[2], args, kw, st)
        return [(None, st)]

    def axis_call(self, ax, name, args, kw, st):
        kind, term = st.heap[ax[1]]
        if name in ('repeat', 'copy'):
            return [st.new(self.plain(kind), term if name == 'repeat'
                           else None)]
        return [(None, st)]

    def to_kind(self, to, kind, args, kw):
        pass

    def obj_call(self, o, name, args, kw, st):
        kind, term = st.heap[o[1]]
        if o[0] == 'stretch':
            g = self.stretch_class(o, st).lookup(name)
            if isinstance(g, Func):
                return self.enter(g, o, args, kw, st)
            return [(None, st)]
        if name == 'copy':
            to = args[0] if args else kw.get('to', ('c', None))
            if set(kw) - {'to'} or len(args) > 1 or to is None or \
                    to[0] != 'c':
                return [(None, st)]
            to = to[1]
            if to is None:
                return [st.new(self.plain(kind), term)]
            if to in self.kinds:
                return [st.new(to, term)]
            low = str(to).lower().replace(' ', '').replace('_', '')
            if low in ('numpyarray', 'numpymatrix'):
                return [(('raw', term, 'dense'), st)]
            if low.startswith('scipy'):
                return [(('raw', term, 'sparse'), st)]
            return [(None, st)]
        if name == '_getSparseData':
            return [(('raw', term, 'sparse'), st)]
        if name == '_asNumpyArray':
            return [(('raw', term, 'dense'), st)]
        if name == 'getTypeString':
            return [(('c', self.plain(kind)), st)]
        if name == '_referenceFrom':
            other = args[0] if args else kw.get('other')
            t = st.heap[other[1]][1] if other and other[0] == 'o' else None
            return [(None, st.put(o[1], kind, t))]
        if name == '_logicalValidationAndConversion':
            return [st.new(self.plain(kind), term)]
        if name in ('calculateOnElements', 'matchingElements'):
            return self.on_elements(o, args, kw, st)
        if name == 'isIdentical':
            other = args[0] if args else None
            return [(('raw', app('identical', term, self.term_of(
                other, st)), 'elem'), st)]
        if name in QUIET or name.startswith('_validate'):
            return [(None, st)]
        c = self.kinds.get(kind)
        g = c.lookup(name) if c is not None else None
        if isinstance(g, Func) and not g.is_property:
            return self.enter(g, o, args, kw, st)
        return [(None, st)]

    def on_elements(self, o, args, kw, st):
        kind, term = st.heap[o[1]]
        fn = args[0] if args else kw.get('toCalculate',
                                         kw.get('toMatch'))
        if fn is None or set(kw) - {'useLog', 'toCalculate', 'toMatch'} or \
                len(args) > 1:
            return [st.new(self.plain(kind), None)]
        elem = ('raw', term, 'elem')
        if fn == ('ext', 'builtins.bool'):
            return [st.new(self.plain(kind), term)]
        out = []
        if fn[0] == 'fn':
            a = fn[1].args
            n = len(a.args)
            for v, s in self.call_closure(fn, [elem] + [
                    None] * (n - 1), {}, st):
                out.append(s.new(self.plain(kind), self.term_of(v, s)))
        else:
            for v, s in self.invoke(fn, [elem], {}, st, None):
                out.append(s.new(self.plain(kind), self.term_of(v, s)))
        return out

    def raw_call(self, v, name, args, kw, st):
        if v[0] == 'c' and isinstance(v[1], str):
            if all(a is not None and a[0] == 'c' for a in args) and not kw \
                    and name in ('startswith', 'endswith', 'split',
                                 'replace', 'lower', 'strip', 'lstrip',
                                 'rstrip', 'partition', 'rpartition',
                                 'removeprefix', 'join', 'index', 'find',
                                 'format', 'rsplit'):
                try:
                    r = getattr(v[1], name)(*[a[1] for a in args])
                except (TypeError, ValueError):
                    return [(None, st)]
                return [(('c', tuple(r) if isinstance(r, list) else r), st)]
            return [(None, st)]
        if v[0] == 'c' and isinstance(v[1], dict) and name == 'get' and \
                args and args[0] is not None and args[0][0] == 'c':
            return [(('c', v[1].get(args[0][1], args[1][1] if len(args) > 1
                                    and args[1] else None)), st)]
        if v[0] not in ('raw', 'stored'):
            return [(None, st)]
        d = self.dunder(name)
        if d is not None and len(args) == 1:
            op, form = d
            a, b = (args[0], v) if form == 'r' else (v, args[0])
            if b is None or a is None:
                return [(None, st)]
            for x in (a, b):
                if x[0] in ('o', 'stretch'):
                    return [(None, st)]
            if args[0][0] == 'raw' and args[0][2] == 'sparse' and not (
                    v[0] == 'raw' and v[2] == 'sparse') and op in (
                        'mul', 'pow'):
                # a dense receiver leaves this to the sparse operand or
                # treats it as a value, depending on the library
                return [(None, st)]
            return [(self.apply2(op, a, b, st), st)]
        if name == '__neg__':
            return [(self.apply1('neg', v, st), st)]
        if name == '__abs__':
            return [(self.apply1('abs', v, st), st)]
        if name in ('multiply', 'power', 'dot') and len(args) == 1 and \
                args[0] is not None:
            op = UFUNC[name]
            return [(self.apply2(op, v, args[0], st, 'ufunc'), st)]
        if name in ('add', 'sub', 'mul', 'truediv', 'div', 'floordiv',
                    'mod', 'pow', 'radd', 'rsub', 'rmul', 'rtruediv',
                    'rfloordiv', 'rmod', 'rpow') and v[0] == 'raw' and \
                v[2] == 'frame' and args:
            return self.raw_call(v, '__%s__' % name, args[:1], {}, st)
        if name in KEEPS:
            if v[0] == 'stored':
                return [(v, st)]
            kind = v[2]
            if name in ('todense', 'toarray', 'to_numpy'):
                kind = 'dense'
            return [(('raw', v[1], kind), st)]
        return [(None, st)]

    def construct(self, c, args, kw, st):
        if c.name in self.kinds:
            data = args[0] if args else kw.get('data')
            return [st.new(c.name, self.content(data, st))]
        if any(m.name == 'Stretch' for m in c.mro()):
            src = args[0] if args else kw.get('source')
            if src is not None and src[0] == 'o':
                return [(('stretch', src[1]), st)]
        return [(None, st)]

    def content(self, data, st):
        if data is None:
            return None
        if data[0] in ('raw', 'o'):
            return self.term_of(data, st)
        return None

    def external(self, name, args, kw, st):
        short = name.split('.')[-1]
        if name == 'builtins.getattr' and len(args) in (2, 3):
            if args[1] is None or args[1][0] != 'c':
                return [(None, st)]
            return self.attr(args[0], args[1][1], st)
        if name == 'builtins.len' and args and args[0] is not None and \
                args[0][0] == 'c':
            try:
                return [(('c', len(args[0][1])), st)]
            except TypeError:
                return [(None, st)]
        if name in ('builtins.tuple', 'builtins.list') and len(args) == 1 \
                and args[0] is not None and args[0][0] in ('c', 'tup'):
            return [(args[0], st)]
        if name == 'builtins.str' and args and args[0] and \
                args[0][0] == 'c':
            return [(('c', str(args[0][1])), st)]
        if name == 'builtins.type' and args and args[0] is not None and \
                args[0][0] == 'o':
            c = self.kinds.get(st.heap[args[0][1]][0])
            return [(('cls', c) if c else None, st)]
        if name in ('copy.copy', 'copy.deepcopy') and args:
            # a new holder with the same content
            if args[0] is not None and args[0][0] == 'raw':
                return [(args[0][:3], st)]
            return [(None, st)]
        if name == 'builtins.pow' and len(args) == 2 and all(args):
            return [self.operate('pow', args[0], args[1], st)]
        if name == 'builtins.abs' and args:
            return [(self.apply1('abs', args[0], st), st)]
        top = name.split('.')[0]
        if top == 'operator':
            if short in OPERATOR and len(args) == 2 and all(args):
                return [self.operate(OPERATOR[short], args[0], args[1], st)]
            if short in ('neg', 'abs') and args:
                return [(self.apply1(short, args[0], st), st)]
            if short == 'methodcaller':
                return [(None, st)]
        if top in ('numpy', 'np'):
            if short in UFUNC and len(args) == 2 and all(args):
                return [self.operate(UFUNC[short], args[0], args[1], st,
                                     True)]
            if short in UNARY and args:
                v = self.apply1(UNARY[short], args[0], st)
                out = kw.get('out')
                if out is not None and v is not None:
                    st = self.store_into(out, v, st)
                return [(v, st)]
            if short in ('array', 'asarray', 'asanyarray', 'ravel',
                         'asmatrix', 'atleast_2d', 'ascontiguousarray') and \
                    args and args[0] is not None:
                if args[0][0] == 'stored':
                    return [(args[0], st)]
                if args[0][0] == 'raw':
                    return [(('raw', args[0][1], 'dense'), st)]
        if short in ('coo_matrix', 'csr_matrix', 'csc_matrix', 'coo_array') \
                and args and args[0] is not None:
            a = args[0]
            if a[0] == 'raw':
                return [(('raw', a[1], 'sparse'), st)]
            if a[0] == 'tup' and len(a[1]) == 2 and a[1][0] is not None and \
                    a[1][0][0] == 'stored' and a[1][1] is not None and \
                    a[1][1][0] == 'tup':
                return [(('raw', self.rebuilt(a[1][0], a[1][1][1], st),
                          'sparse'), st)]
        return [(None, st)]

    def rebuilt(self, stored, idx, st):
        """content of a sparse matrix from entries and their positions"""
        if any(i is None or i[0] != 'idx' for i in idx) or not idx:
            return None
        if stored[1] is None or stored[2] is None or any(
                i[1] is None for i in idx):
            return None
        owner = norm(stored[1], st.facts)
        if any(norm(i[1], st.facts) != owner for i in idx):
            return ('mis', stored[2])
        return ('at', owner, norm(stored[2], st.facts))

    def store_into(self, target, val, st):
        """write through a value that refers to the data of an object"""
        if target[0] == 'stored' and len(target) > 3:
            oid = target[3]
            if val[0] != 'stored':
                return st.put(oid, st.heap[oid][0], None)
            cur = st.heap[oid][1]
            return st.put(oid, st.heap[oid][0],
                          self.rebuilt(val, (('idx', cur),), st))
        if target[0] == 'raw' and len(target) > 3:
            oid = target[3]
            return st.put(oid, st.heap[oid][0], self.content(val, st))
        return st

    # ------------------------------------------------------- functions
    def call_func(self, g, args, kw, st):
        if g.name in ('createDataNoValidation', 'data') and \
                g.module.name.startswith('nimble'):
            if g.name == 'data':
                src = args[0] if args else kw.get('source')
                kind = kw.get('returnType')
            else:
                kind = args[0] if args else kw.get('returnType')
                src = args[1] if len(args) > 1 else kw.get('data')
            k = kind[1] if kind is not None and kind[0] == 'c' else None
            return [st.new(k, self.content(src, st))]
        if g.name == 'sparseMatrixToArray' and args:
            t = self.content(args[0], st)
            return [(('raw', t, 'dense') if t is not None else None, st)]
        if not any(a is not None and a[0] in (
                'o', 'raw', 'stored', 'stretch') for a in
                list(args) + list(kw.values())):
            return [(None, st)]
        return self.enter(g, None, args, kw, st)

    def enter(self, g, me, args, kw, st):
        if g in self.stack and self.stack.count(g) > 2 or \
                len(self.stack) > 14 or g.is_generator:
            return [(None, st)]
        if not isinstance(g.node.body, list):
            return [(None, st)]
        if any(d not in ('limitedTo2D', 'staticmethod', 'prepLog',
                         'abstractmethod') and d for d in g.deconames):
            return [(None, st)]
        env = {}
        pos = list(g.pos)
        if g.cls is not None and not g.is_static and pos:
            if me is not None:
                env[pos[0]] = me
                pos = pos[1:]
        elif me is not None and not g.is_static:
            return [(None, st)]
        if len(args) > len(pos) and not g.vararg:
            return [(None, st)]
        for p, a in zip(pos, args):
            if a is not None:
                env[p] = a
        for k, a in kw.items():
            if k in g.params and a is not None:
                env[k] = a
        given = set(pos[:len(args)]) | set(kw)
        for p, d in g.defaults.items():
            if p not in given and isinstance(d, ast.Constant):
                env[p] = ('c', d.value)
        self.stack.append(g)
        try:
            outs = self.block(g.node.body, st.within(env), Frame(g))
        finally:
            self.stack.pop()
        return self.results(outs, st)

    def results(self, outs, st):
        out, seen = [], set()
        for o in outs:
            if o[0] == 'x':
                continue
            v = ('c', None) if o[0] == 'n' else o[1]
            s = o[-1].within(st.env)
            key = (v if hashable(v) else id(v), frozenset(s.heap.items()),
                   s.facts)
            if key not in seen:
                seen.add(key)
                out.append((v, s))
        if len(out) > CAP:
            raise Undecided()
        return out

    def call_closure(self, v, args, kw, st):
        node, fr, env = v[1], v[2], v[3]
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        inner = {}
        for n, x in zip(names, args):
            if x is not None:
                inner[n] = x
        for n, x in kw.items():
            if x is not None:
                inner[n] = x
        if len(self.stack) > 14:
            return [(None, st)]
        f2 = Frame(fr.f, fr, None)
        merged = dict(env)
        for n in names:
            merged.pop(n, None)
        merged.update(inner)
        self.stack.append(None)
        try:
            if isinstance(node, ast.Lambda):
                return [(x, s.within(st.env)) for x, s in self.ev(
                    node.body, st.within(merged), f2)]
            outs = self.block(node.body, st.within(merged), f2)
        finally:
            self.stack.pop()
        return self.results(outs, st)

    # ------------------------------------------------------ statements
    def block(self, body, st, fr):
        """outcomes ('n', st) ('r', value, st) ('x', st)"""
        live, out = [st], []
        for s in body:
            nxt, seen = [], set()
            for cur in live:
                for o in self.stmt(s, cur, fr):
                    if o[0] == 'n':
                        k = o[1].key()
                        if k not in seen:
                            seen.add(k)
                            nxt.append(o[1])
                    else:
                        out.append(o)
            live = nxt
            if len(live) + len(out) > CAP:
                raise Undecided()
        return out + [('n', s) for s in live]

    def stmt(self, s, st, fr):
        if isinstance(s, ast.Return):
            if s.value is None:
                return [('r', ('c', None), st)]
            return [('r', v, x) for v, x in self.ev(s.value, st, fr)]
        if isinstance(s, ast.Raise):
            return [('x', st)]
        if isinstance(s, ast.Assign):
            out = []
            for v, x in self.ev(s.value, st, fr):
                for t in s.targets:
                    x = self.assign(t, v, x, fr)
                    if isinstance(t, ast.Name) and v is None and isinstance(
                            s.value, (ast.Compare, ast.UnaryOp)):
                        e = dict(x.env)
                        e['?' + t.id] = s.value
                        x = x.within(e)
                    elif isinstance(t, ast.Name) and v is None and any(
                            isinstance(n, ast.Name) and
                            self.text(x.env.get(n.id))
                            for n in ast.walk(s.value)):
                        e = dict(x.env)
                        e['!' + t.id] = ('c', True)
                        x = x.within(e)
                out.append(('n', x))
            return out
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return [('n', st)]
            return [('n', self.assign(s.target, v, x, fr))
                    for v, x in self.ev(s.value, st, fr)]
        if isinstance(s, ast.AugAssign):
            return self.aug(s, st, fr)
        if isinstance(s, ast.Expr):
            return [('n', x) for _, x in self.ev(s.value, st, fr)]
        if isinstance(s, ast.If):
            out = []
            for t, x in self.decide(s.test, st, fr):
                out += self.block(s.body if t else s.orelse, x, fr)
            return out
        if isinstance(s, ast.With):
            cur = [st]
            for i in s.items:
                nxt = []
                for x in cur:
                    for v, y in self.ev(i.context_expr, x, fr):
                        if i.optional_vars is not None:
                            y = self.assign(i.optional_vars, None, y, fr)
                        nxt.append(y)
                cur = nxt
            out = []
            for x in cur:
                out += self.block(s.body, x, fr)
            return out
        if isinstance(s, ast.Try):
            return self.try_(s, st, fr)
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, st, fr)
        if isinstance(s, ast.FunctionDef):
            return [('n', st.bind(s.name, ('fn', s, fr, st.env)))]
        if isinstance(s, ast.Break):
            return [('break', st)]
        if isinstance(s, ast.Continue):
            return [('continue', st)]
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st = st.bind(t.id, None)
            return [('n', st)]
        return [('n', st)]

    def try_(self, s, st, fr):
        outs = self.block(s.body, st, fr)
        res = []
        for o in outs:
            if o[0] == 'n':
                res += self.block(s.orelse, o[1], fr)
            elif o[0] == 'x' and s.handlers:
                pass            # the handlers below
            else:
                res.append(o)
        for h in s.handlers:
            x = st
            if h.name:
                x = x.bind(h.name, None)
            res += self.block(h.body, x, fr)
        if s.finalbody:
            fin = []
            for o in res:
                for p in self.block(s.finalbody, o[-1], fr):
                    if p[0] == 'n':
                        fin.append(o[:-1] + (p[1],))
                    else:
                        fin.append(p)
            res = fin
        return res

    def unroll(self, s, st, fr):
        """a loop over known constants, one pass after the other"""
        out = []
        for it, x in self.ev(s.iter, st, fr):
            if it is None or it[0] not in ('c', 'tup') or not isinstance(
                    it[1], (tuple, str)) or len(it[1]) > 30:
                return None
            live = [x]
            for item in it[1]:
                nxt = []
                for y in live:
                    val = ('c', item) if it[0] == 'c' else item
                    z = self.assign(s.target, val, y, fr)
                    for o in self.block(s.body, z, fr):
                        if o[0] in ('n', 'continue'):
                            nxt.append(o[1])
                        elif o[0] == 'break':
                            out.append(('n', o[1]))
                        else:
                            out.append(o)
                live = nxt
                if len(live) > CAP:
                    raise Undecided()
            for y in live:
                out += self.block(s.orelse, y, fr)
        return out

    def loop(self, s, st, fr):
        if isinstance(s, ast.For):
            done = self.unroll(s, st, fr)
            if done is not None:
                return done
        names = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(
                    n.ctx, ast.Store):
                b = n.value
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if isinstance(b, ast.Name):
                    v = st.env.get(b.id)
                    if v is not None and v[0] == 'o':
                        st = st.put(v[1], st.heap[v[1]][0], None)
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and isinstance(
                        n.func.value, ast.Name):
                if n.func.attr in ('append', 'extend', 'insert', 'update'):
                    names.add(n.func.value.id)
        e = {k: v for k, v in st.env.items() if k not in names}
        e.update(('!' + k, ('c', True)) for k in names)
        out = [('n', st.within(e))]
        for n in ast.walk(s):
            if isinstance(n, ast.Return):
                out.append(('r', None, st.within(e)))
                break
        return out

    def aug(self, s, st, fr):
        t = s.target
        out = []
        for v, x in self.ev(s.value, st, fr):
            load = ast.copy_location(
                ast.Name(t.id, ast.Load()) if isinstance(t, ast.Name) else
                ast.Attribute(t.value, t.attr, ast.Load()) if isinstance(
                    t, ast.Attribute) else ast.Constant(None), t)
            if isinstance(t, ast.Subscript):
                out.append(('n', x))
                continue
            for cur, y in self.ev(load, x, fr):
                if cur is not None and cur[0] == 'o':
                    name = SYNTAX.get(type(s.op))
                    term = app(name, self.term_of(cur, y),
                               self.term_of(v, y)) if name else None
                    out.append(('n', y.put(cur[1], y.heap[cur[1]][0],
                                           term)))
                else:
                    r, z = self.binop(s.op, cur, v, y)
                    out.append(('n', self.assign(t, r, z, fr)))
        return out

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st = st.bind(t.id, v)
            if '?' + t.id in st.env or '!' + t.id in st.env:
                e = dict(st.env)
                e.pop('?' + t.id, None)
                e.pop('!' + t.id, None)
                st = st.within(e)
            return st
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = [None] * len(t.elts)
            if v is not None and v[0] == 'tup' and len(v[1]) == len(t.elts):
                vals = list(v[1])
            elif v is not None and v[0] == 'c' and isinstance(
                    v[1], tuple) and len(v[1]) == len(t.elts):
                vals = [('c', x) for x in v[1]]
            for x, y in zip(t.elts, vals):
                st = self.assign(x, y, st, fr)
            return st
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            if len(base) != 1:
                return st
            b, st = base[0]
            if b is None:
                return st
            if b[0] == 'o' and t.attr == '_data':
                return st.put(b[1], st.heap[b[1]][0], self.content(v, st))
            if b[0] == 'raw' and t.attr == 'data' and len(b) > 3:
                got = self.attr(b, 'data', st)
                if got and got[0][0] is not None:
                    return self.store_into(
                        got[0][0], v if v is not None else ('?',), st)
            return st
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            if len(base) == 1 and base[0][0] is not None:
                b, st = base[0]
                if b[0] in ('raw', 'stored') and len(b) > 3:
                    oid = b[3]
                    return st.put(oid, st.heap[oid][0], None)
            return st
        return st

    # ------------------------------------------------------------ judge
    UN = {'__neg__': 'neg', '__abs__': 'abs', '__invert__': 'not',
          '__pos__': None}

    def operators(self, cls):
        out = {}
        for c in cls.mro():
            for n in c.methods:
                if (self.dunder(n) or n in self.UN) and n not in out:
                    f = cls.lookup(n)
                    if isinstance(f, Func):
                        out[n] = f
        return out

    def run(self):
        rep = self.rep
        for kname in sorted(self.kinds):
            cls = self.kinds[kname]
            for name, f in sorted(self.operators(cls).items()):
                if name in self.UN:
                    self.judge(cls, name, f, None)
                    continue
                op, form = self.dunder(name)
                others = sorted(self.kinds) if op not in (
                    'eq', 'ne') else [kname]
                if op in ARITH:
                    others = ['scalar'] + others
                for other in others:
                    self.judge(cls, name, f, other)
        # stretched objects
        for kname in sorted(self.kinds):
            cls = self.kinds[kname]
            st = St({}, {0: (kname, ('L',))}, frozenset())
            sc = self.stretch_class(('stretch', 0), st)
            for name, f in sorted(self.operators(sc).items()):
                for other in sorted(self.kinds):
                    self.judge(cls, name, f, other, stretched=True)
                    if not other.endswith('View'):
                        self.judge(cls, name, f, other, stretched=True,
                                   both=True)
        rep.floor('operator_methods', 30)
        rep.floor('applications_decided', 1500)
        rep.floor('terms_compared', 1500)

    def judge(self, cls, name, f, other, stretched=False, both=False):
        rep = self.rep
        rep.count('contexts')
        if f not in self.where:
            self.where[f] = set()
            rep.count('operator_methods')
        heap = {0: (cls.name, ('L',))}
        me = ('stretch', 0) if stretched else ('o', 0)
        args = []
        if other == 'scalar':
            args = [('raw', ('R',), 'scalar')]
        elif other is not None:
            heap[1] = (other, ('R',))
            args = [('stretch', 1) if both else ('o', 1)]
        st = St({}, heap, frozenset())
        self.steps = 0
        self.stack = []
        try:
            outs = self.enter(f, me, args, {}, st)
        except (Undecided, RecursionError):
            rep.count('contexts_undecided')
            return
        L, R = ('L',), ('R',)
        if name in self.UN:
            op, form = self.UN[name], ''
            want = L if op is None else ('app', op, L)
        else:
            op, form = self.dunder(name)
            want = ('app', op, R, L) if form == 'r' else ('app', op, L, R)
        if op in ('eq', 'ne'):
            want = ('app', 'identical', L, R)
            if op == 'ne':
                want = ('app', 'not', want)
        decided = False
        for v, s in outs:
            if v == NI and ('unsure',) in s.facts:
                continue
            if v == NI:
                if not (other == 'scalar' and op == 'matmul') and not (
                        both or stretched):
                    self.bad(f, name, cls, other, stretched,
                             'refuses an operand it should work on', 'none')
                continue
            facts = s.facts
            if form == 'i' and v is not None and v[0] == 'o':
                if v != ('o', 0):
                    self.bad(f, name, cls, other, stretched,
                             'returns another object instead of changing '
                             'its own', 'inplace')
                    continue
            got = self.term_of(v, s)
            if got is None or has_unknown(got) or ('unsure',) in facts:
                rep.count('terms_undetermined')
                continue
            got = norm(got, facts)
            rep.count('terms_compared')
            decided = True
            if got != norm(want, facts):
                self.bad(f, name, cls, other, stretched,
                         'computes %s instead of %s' % (
                             show(got), show(norm(want, facts))), 'term')
        if decided:
            rep.count('applications_decided')
        elif outs:
            rep.count('contexts_undecided')

    def bad(self, f, name, cls, other, stretched, msg, what):
        key = (name, stretched, what)
        if key in self.where[f]:
            return
        self.where[f].add(key)
        self.rep.add(
            what, '%s%s' % ('stretch.' if stretched else '', name),
            '%s of a %s%s with %s %s' % (
                name, 'stretched ' if stretched else '', cls.name,
                'itself' if other is None else 'a ' + other, msg),
            f.loc(f.node))


def run(rep):
    Ops(rep).run()
