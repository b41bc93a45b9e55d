"""symbolic execution-free evaluator: propagates constants, names, objects and
the terms a domain gives to its own values through the source, path by path"""
import ast
import builtins
from .flow import Flow
from .model import Func, Cls, Ext, Var, dotted

NONE = ('c', None)
TRUE = ('c', True)
FALSE = ('c', False)
MAXPATHS = 96
SETOPS = ('Sub', 'BitAnd', 'BitOr', 'BitXor')


class TooBig(Exception):
    pass


class St:
    __slots__ = ('env', 'heap', 'facts', 'marks', 'stack', 'ctr', 'next')

    def __init__(self):
        self.env, self.heap, self.facts = {}, {}, {}
        self.marks = frozenset()
        self.stack, self.ctr, self.next = [], {}, 0

    def fork(self):
        s = St()
        s.env, s.heap = dict(self.env), dict(self.heap)
        s.facts, s.marks = dict(self.facts), self.marks
        s.stack = [dict(x) for x in self.stack]
        s.ctr, s.next = dict(self.ctr), self.next
        return s

    def new(self, rec):
        oid = self.next
        self.next += 1
        self.heap[oid] = rec
        return ('o', oid)

    def rec(self, v):
        if v and v[0] == 'o':
            return self.heap[v[1]]
        return None

    def fresh(self, key):
        n = self.ctr.get(key, 0)
        self.ctr[key] = n + 1
        return ('u', key, n)

    # canonical form of everything reachable from the environments
    def key(self, extra=None):
        num = {}
        order = []

        def walk(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'o' and isinstance(v[1], int):
                    if v[1] not in num:
                        num[v[1]] = len(num)
                        order.append(v[1])
                    return ('o', num[v[1]])
                return tuple(walk(x) for x in v)
            if isinstance(v, dict):
                return tuple((k, walk(v[k])) for k in sorted(v, key=str))
            return v
        out = [tuple((k, walk(e[k])) for k in sorted(e))
               for e in self.stack + [self.env]]
        for v in extra or ():
            out.append(walk(v) if isinstance(v, tuple) and v
                       and v[0] != 'u' else 'u')
        i = 0
        recs = []
        attrs = [k for k in self.heap if not isinstance(k, int)]
        for k in sorted(attrs, key=str):
            recs.append((k, walk(self.heap[k])))
        while i < len(order):
            recs.append(walk(self.heap[order[i]]))
            i += 1
        return repr((out, recs, sorted(self.marks, key=str)))


def has_unknown(t):
    if isinstance(t, tuple):
        if t and t[0] == 'u':
            return True
        return any(has_unknown(x) for x in t)
    return False


def items(rec):
    return dict(rec[-1])


class Frame:
    __slots__ = ('f', 'cls', 'me')

    def __init__(self, f, me=None):
        self.f, self.me = f, me


class Sim:
    LIMIT = 400000
    DEPTH = 40

    def __init__(self, prog):
        self.p = prog
        self.flow = Flow(prog)
        self.raised = [[]]
        self.steps = 0
        self.depth = 0
        self.cut = 0
        self.rounds = 2
        self.seeds = []
        self.trail, self.roots = [], []
        self.calls = set()
        for m in prog.modules.values():
            for s in m.tree.body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                        isinstance(s.targets[0], ast.Attribute) and \
                        isinstance(s.targets[0].value, ast.Name) and \
                        isinstance(s.value, ast.Constant):
                    g = prog.resolve_name(m, s.targets[0].value.id)
                    if isinstance(g, Func):
                        self.seeds.append((g, s.targets[0].attr,
                                           s.value.value))

    def start(self):
        st = St()
        for g, a, v in self.seeds:
            self.set_fattr(('fn', g), a, ('c', v), st)
        self.steps = self.depth = self.cut = 0
        self.raised, self.trail, self.roots = [[]], [], []
        return st

    # ---------------------------------------------------------- domain
    def inline(self, g):
        """is this function evaluated (else its result is unknown)"""
        return True

    def hook_call(self, g, me, args, kw, st, node, fr):
        """None, or the results of a function the domain knows"""
        return None

    def hook_attr(self, v, name, st, node):
        return None

    def hook_method(self, v, name, args, kw, st, node, fr):
        return None

    def hook_isinstance(self, v, t, st):
        return None

    def hook_len(self, v, st):
        return None

    def hook_ext(self, name, args, kw, st, node, fr):
        return None

    # ------------------------------------------------------- utilities
    def u(self, node, st, what=''):
        return st.fresh((getattr(node, 'lineno', 0),
                         getattr(node, 'col_offset', 0), what))

    def throw(self, exc, st, node=None):
        self.raised[-1].append((exc, st, node))

    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        seen = {}
        res = []
        for o in outs:
            st = o[-1]
            v = o[1] if len(o) == 3 else o[0]
            k = (o[0] if isinstance(o[0], str) else '', st.key((v,) + tuple(self.roots)))
            got = seen.get(k)
            if got is None:
                seen[k] = st
                res.append(o)
            else:
                for t in list(got.facts):
                    if st.facts.get(t) != got.facts[t]:
                        del got.facts[t]
        if len(res) > MAXPATHS:
            self.cut += len(res) - MAXPATHS
            res = res[:MAXPATHS]
        return res

    def scalar(self, v):
        return v is not None and v[0] == 'c'

    # ----------------------------------------------------- expressions
    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > self.LIMIT:
            raise TooBig()
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            return [(self.u(e, st), st)]
        return m(e, st, fr)

    def evs(self, es, st, fr):
        out = [([], st)]
        for e in es:
            nxt = []
            for vals, s in out:
                for v, s2 in self.ev(e, s, fr):
                    nxt.append((vals + [v], s2))
            out = nxt
        return out

    def ev_Constant(self, e, st, fr):
        return [(('c', e.value), st)]

    def ev_JoinedStr(self, e, st, fr):
        return [(self.u(e, st, 'str'), st)]

    def ev_Name(self, e, st, fr):
        return [(self.name(e.id, e, st, fr), st)]

    def name(self, n, e, st, fr):
        if n in st.env:
            return st.env[n]
        ent = self.p.resolve_name(fr.f.module, n)
        if ent is None:
            g = fr.f
            while g is not None:
                loc = self.flow._bound(g)
                if n in loc and loc[n] is not None:
                    return self.value(loc[n], st)
                g = g.parent
            if hasattr(builtins, n):
                return ('ext', 'builtins.' + n)
            return self.u(e, st)
        return self.value(ent, st)

    def value(self, ent, st):
        if isinstance(ent, Func):
            return ('fn', ent)
        if isinstance(ent, Cls):
            return ('cls', ent)
        if isinstance(ent, Ext):
            return ('ext', ent.name)
        if isinstance(ent, Var):
            if isinstance(ent.value, ast.Constant):
                return ('c', ent.value.value)
            return ('u', ('var', ent.module.name, ent.name), 0)
        if ent is None:
            return ('u', 'none', 0)
        return ('mod', ent)

    def ev_Attribute(self, e, st, fr):
        out = []
        for v, s in self.ev(e.value, st, fr):
            out += self.attr(v, e.attr, s, e, fr)
        return out

    def attr(self, v, name, st, node, fr):
        got = self.hook_attr(v, name, st, node)
        if got is not None:
            return got
        k = v[0]
        if k == 'mod':
            return [(self.value(self.p.attr_of(v[1], name), st), st)]
        if k == 'ext':
            return [(('ext', v[1] + '.' + name), st)]
        if k == 'cls':
            return [(self.class_attr(v[1], name, st, node, v), st)]
        if k in ('fn', 'raw'):
            got = st.heap.get(('fa', v[1]))
            if got and name in items(got):
                return [(items(got)[name], st)]
            if name in ('__name__', '__qualname__', '__doc__', '__module__'):
                return [(('c', v[1].name), st)]
            self.throw('AttributeError', st, node)
            return []
        if k == 'super':
            mro = v[1].mro()
            me = v[2]
            start = self.class_of(me, st) or v[1]
            mro = start.mro()
            i = mro.index(v[1]) if v[1] in mro else -1
            for c in mro[i + 1:]:
                g = c.methods.get(name)
                if g is not None:
                    return [(('meth', g, me), st)]
            return [(('bm', v, name), st)]
        if k == 'o':
            rec = st.heap[v[1]]
            if rec[0] == 'inst':
                return self.inst_attr(v, rec, name, st, node, fr)
            if rec[0] == 'clo':
                got = st.heap.get(('fa', v[1]))
                if got and name in items(got):
                    return [(items(got)[name], st)]
                if name in ('__name__', '__doc__'):
                    return [(('c', rec[1].name), st)]
                self.throw('AttributeError', st, node)
                return []
            return [(('bm', v, name), st)]
        if k == 'c':
            if hasattr(v[1], name) and v[1] is not None:
                return [(('bm', v, name), st)]
            self.throw('AttributeError', st, node)
            return []
        if k == 'tup':
            return [(('bm', v, name), st)]
        if k == 'meth':
            if name == '__name__':
                return [(('c', v[1].name), st)]
            return self.attr(('fn', v[1]), name, st, node, fr)
        return [(('bm', v, name), st)]

    def class_of(self, v, st):
        if v[0] == 'o' and st.heap[v[1]][0] == 'inst':
            return st.heap[v[1]][1]
        if v[0] == 'cls':
            return v[1]
        return None

    def class_attr(self, c, name, st, node, me):
        g = c.lookup(name)
        if isinstance(g, Func):
            if g.is_classmethod:
                return ('meth', g, ('cls', c))
            return ('fn', g)
        for k in c.mro():
            if name in k.attrs:
                val = k.attrs[name]
                if isinstance(val, ast.expr):
                    fr = Frame(_Holder(k.module))
                    save, st.env = st.env, {}
                    got = self.ev(val, st, fr)
                    st.env = save
                    if len(got) == 1:
                        return got[0][0]
                break
        if name == '__name__':
            return ('c', c.name)
        return self.u(node, st, name)

    def has_class_attr(self, c, name):
        return c.lookup(name) is not None or any(
            name in k.attrs for k in c.mro())

    def inst_attr(self, v, rec, name, st, node, fr):
        fields = items(rec)
        if name in fields:
            return [(fields[name], st)]
        c = rec[1]
        g = c.lookup(name)
        if isinstance(g, Func):
            if g.is_property:
                return self.call(('meth', g, v), [], {}, st, node, fr)
            if g.is_static:
                return [(('fn', g), st)]
            if g.is_classmethod:
                return [(('meth', g, ('cls', c)), st)]
            return [(('meth', g, v), st)]
        if self.has_class_attr(c, name):
            return [(self.class_attr(c, name, st, node, v), st)]
        if name == '__class__':
            return [(('cls', c), st)]
        if c.lookup('__getattr__') is not None or self.open_class(c):
            return [(self.u(node, st, name), st)]
        self.throw('AttributeError', st, node)
        return []

    def open_class(self, c):
        return any(k.extbases for k in c.mro())

    def ev_Tuple(self, e, st, fr):
        return [(('tup', tuple(vs)), s) for vs, s in self.seq(e.elts, st, fr)]

    def seq(self, elts, st, fr):
        out = [([], st)]
        for x in elts:
            nxt = []
            for vals, s in out:
                if isinstance(x, ast.Starred):
                    for v, s2 in self.ev(x.value, s, fr):
                        known = self.known(v, s2)
                        nxt.append((vals + (known if known is not None
                                            else [self.u(x, s2)]), s2))
                else:
                    for v, s2 in self.ev(x, s, fr):
                        nxt.append((vals + [v], s2))
            out = nxt
        return out

    def ev_List(self, e, st, fr):
        return [(s.new(('list', tuple(vs))), s)
                for vs, s in self.seq(e.elts, st, fr)]

    ev_Set = ev_List

    def ev_Dict(self, e, st, fr):
        out = [({}, st)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for d, s in out:
                if k is None:
                    for vv, s2 in self.ev(v, s, fr):
                        rec = s2.rec(vv)
                        d2 = dict(d)
                        if rec and rec[0] == 'dict':
                            d2.update(items(rec))
                        nxt.append((d2, s2))
                    continue
                for kk, s2 in self.ev(k, s, fr):
                    for vv, s3 in self.ev(v, s2, fr):
                        d2 = dict(d)
                        d2[kk] = vv
                        nxt.append((d2, s3))
            out = nxt
        return [(s.new(('dict', tuple(d.items()))), s) for d, s in out]

    def ev_Lambda(self, e, st, fr):
        g = self.p.func_of_node.get(e)
        if g is None:
            return [(self.u(e, st), st)]
        return [(self.closure(g, st, fr), st)]

    def closure(self, g, st, fr):
        return st.new(('clo', g, tuple(st.env.items())))

    def ev_NamedExpr(self, e, st, fr):
        out = []
        for v, s in self.ev(e.value, st, fr):
            s.env[e.target.id] = v
            out.append((v, s))
        return out

    def ev_UnaryOp(self, e, st, fr):
        out = []
        for v, s in self.ev(e.operand, st, fr):
            if isinstance(e.op, ast.Not):
                for t, s2 in self.fork(v, s):
                    out.append((('c', not t), s2))
            elif v[0] == 'c' and isinstance(v[1], (int, float)) and \
                    isinstance(e.op, ast.USub):
                out.append((('c', -v[1]), s))
            else:
                out.append((('t', type(e.op).__name__, v), s))
        return out

    def ev_BoolOp(self, e, st, fr):
        is_or = isinstance(e.op, ast.Or)
        out = []
        pend = [st]
        for i, x in enumerate(e.values):
            nxt = []
            for s in pend:
                for v, s2 in self.ev(x, s, fr):
                    if i == len(e.values) - 1:
                        out.append((v, s2))
                        continue
                    for t, s3 in self.fork(v, s2):
                        if t is is_or:
                            out.append((v if self.truth(v, s3) is not None
                                        else ('c', t), s3))
                        else:
                            nxt.append(s3)
            pend = nxt
        return out

    def ev_IfExp(self, e, st, fr):
        out = []
        for t, s in self.test(e.test, st, fr):
            out += self.ev(e.body if t else e.orelse, s, fr)
        return out

    def truth(self, v, st):
        k = v[0]
        if k == 'c':
            try:
                return bool(v[1])
            except Exception:
                return None
        if k == 'tup':
            return bool(v[1])
        if k in ('fn', 'raw', 'cls', 'meth', 'mod', 'super'):
            return True
        if k == 'o':
            rec = st.heap[v[1]]
            if rec[0] in ('list', 'dict'):
                return None if rec[1] is None else bool(rec[1])
            if rec[0] == 'clo':
                return True
            if rec[0] == 'inst':
                if rec[1].lookup('__len__') is None and \
                        rec[1].lookup('__bool__') is None:
                    return True
        return st.facts.get(v)

    def fork(self, v, st):
        """[(truth, state)]"""
        t = self.truth(v, st)
        if t is not None:
            return [(t, st)]
        a, b = st, st.fork()
        a.facts[v] = True
        b.facts[v] = False
        return [(True, a), (False, b)]

    def test(self, e, st, fr):
        out = []
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not t, s) for t, s in self.test(e.operand, st, fr)]
        if isinstance(e, ast.BoolOp):
            is_or = isinstance(e.op, ast.Or)
            pend = [st]
            for x in e.values:
                nxt = []
                for s in pend:
                    for t, s2 in self.test(x, s, fr):
                        if t is is_or:
                            out.append((t, s2))
                        else:
                            nxt.append(s2)
                pend = nxt
            return out + [(not is_or, s) for s in pend]
        for v, s in self.ev(e, st, fr):
            out += self.fork(v, s)
        return out

    def ev_Compare(self, e, st, fr):
        if len(e.ops) > 1:
            parts = []
            left = e.left
            for op, c in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(
                    ast.Compare(left, [op], [c]), e))
                left = c
            return [(('c', t), s) for t, s in self.test(ast.copy_location(
                ast.BoolOp(ast.And(), parts), e), st, fr)]
        out = []
        for (a, b), s in self.evs([e.left, e.comparators[0]], st, fr):
            out.append((self.compare(a, e.ops[0], b, s), s))
        return out

    def compare(self, a, op, b, st):
        n = type(op).__name__
        if n in ('Is', 'IsNot', 'Eq', 'NotEq'):
            r = self.same(a, b, st, n in ('Is', 'IsNot'))
            if r is not None:
                return ('c', r if n in ('Is', 'Eq') else not r)
            x, y = sorted((a, b), key=repr)
            t = ('t', 'same', x, y)
            if n in ('Is', 'Eq'):
                return t
            got = st.facts.get(t)
            if got is not None:
                return ('c', not got)
            return ('t', 'differ', x, y)
        if n in ('In', 'NotIn'):
            r = self.contains(b, a, st)
            if r is not None:
                return ('c', r if n == 'In' else not r)
            return ('t', n, a, b)
        if a[0] == b[0] == 'c':
            try:
                x, y = a[1], b[1]
                return ('c', {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y,
                              'GtE': x >= y}[n])
            except Exception:
                pass
        return ('t', n, a, b)

    def identity(self, v):
        return v[0] in ('fn', 'raw', 'cls', 'mod', 'meth', 'tup') or \
            v[0] == 'o'

    def same(self, a, b, st, is_):
        if a[0] == b[0] == 'c':
            if is_ and not (a[1] is None or b[1] is None or isinstance(
                    a[1], bool) or isinstance(b[1], bool)):
                return None if a[1] == b[1] else False
            return type(a[1]) == type(b[1]) and a[1] == b[1] or \
                a[1] == b[1] and not is_
        if a == b:
            return True
        for x, y in ((a, b), (b, a)):
            if x == NONE and (self.identity(y) or self.not_none(y, st)):
                return False
            if x[0] == 'c' and y[0] in ('fn', 'cls', 'mod', 'meth'):
                return False
        if a[0] == b[0] == 'o' and is_:
            return a[1] == b[1]
        return None

    def not_none(self, v, st):
        return v[0] == 't' and v[1] not in ('any',)

    def contains(self, seq, x, st):
        known = self.known(seq, st)
        rec = st.rec(seq)
        if rec and rec[0] == 'dict':
            known = [k for k, _ in rec[1]]
        if seq[0] == 'c' and isinstance(seq[1], str) and x[0] == 'c' and \
                isinstance(x[1], str):
            return x[1] in seq[1]
        if known is None:
            return None
        rs = [self.same(k, x, st, False) for k in known]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None

    def known(self, v, st):
        """elements of a sequence, None unknown"""
        if v[0] == 'tup':
            return list(v[1])
        rec = st.rec(v)
        if rec and rec[0] == 'list' and rec[1] is not None:
            return list(rec[1])
        if rec and rec[0] == 'dict':
            return [k for k, _ in rec[1]]
        if v[0] == 'c' and isinstance(v[1], (str, tuple)):
            return [('c', x) for x in v[1]]
        return None

    def ev_BinOp(self, e, st, fr):
        out = []
        for (a, b), s in self.evs([e.left, e.right], st, fr):
            out.append((self.binop(type(e.op).__name__, a, b, s, e), s))
        return out

    def binop(self, op, a, b, st, node):
        if a[0] == b[0] == 'c':
            try:
                x, y = a[1], b[1]
                f = {'Add': lambda: x + y, 'Sub': lambda: x - y,
                     'Mult': lambda: x * y, 'FloorDiv': lambda: x // y,
                     'Mod': lambda: x % y}.get(op)
                if f:
                    return ('c', f())
            except Exception:
                pass
        if op == 'Add':
            ka, kb = self.known(a, st), self.known(b, st)
            if ka is not None and kb is not None and (
                    a[0] != 'c' and b[0] != 'c'):
                if a[0] == 'tup':
                    return ('tup', tuple(ka + kb))
                return st.new(('list', tuple(ka + kb)))
        if op in SETOPS:
            got = self.set_op(op, a, b, st)
            if got is not None:
                return got
        if has_unknown(a) or has_unknown(b):
            return self.u(node, st)
        return ('t', op, a, b)

    def constants(self, v, st):
        """elements that are all constants, else None"""
        if v[0] == 'c':
            return None
        k = self.elements(v, st, None)
        if k is None or any(x[0] != 'c' for x in k):
            return None
        return k

    def set_op(self, op, a, b, st):
        x, y = self.constants(a, st), self.constants(b, st)
        if x is None or y is None:
            return None
        if op == 'Sub':
            r = [k for k in x if k not in y]
        elif op == 'BitAnd':
            r = [k for k in x if k in y]
        elif op == 'BitOr':
            r = x + [k for k in y if k not in x]
        else:
            r = [k for k in x if k not in y] + [k for k in y if k not in x]
        return st.new(('list', tuple(r)))

    def set_method(self, v, name, args, st):
        """sets and lists of constants"""
        x = self.constants(v, st)
        if x is None or len(args) != 1:
            return None
        ops = {'difference': 'Sub', 'intersection': 'BitAnd',
               'union': 'BitOr', 'symmetric_difference': 'BitXor'}
        if name in ops:
            return self.set_op(ops[name], v, args[0], st)
        if name in ('add', 'remove', 'discard') and args[0][0] == 'c':
            if name == 'add':
                new = x if args[0] in x else x + [args[0]]
            elif args[0] in x:
                new = list(x)
                new.remove(args[0])
            elif name == 'discard':
                new = x
            else:
                return None
            st.heap[v[1]] = ('list', tuple(new))
            return NONE
        if name in ('update', 'difference_update'):
            got = self.set_op('BitOr' if name == 'update' else 'Sub', v,
                              args[0], st)
            if got is not None:
                st.heap[v[1]] = st.heap[got[1]]
                return NONE
        y = self.constants(args[0], st)
        if name in ('issubset', 'issuperset', 'isdisjoint') and \
                y is not None:
            return ('c', {'issubset': all(k in y for k in x),
                          'issuperset': all(k in x for k in y),
                          'isdisjoint': not any(k in y for k in x)}[name])
        return None

    def b_set(self, args, kw, st, node, fr):
        if not args:
            return [(st.new(('list', ())), st)]
        k = self.constants(args[0], st)
        if k is None:
            return None
        return [(st.new(('list', tuple(dict.fromkeys(k)))), st)]

    b_frozenset = b_set

    def b_sorted(self, args, kw, st, node, fr):
        k = self.constants(args[0], st) if args and not kw else None
        try:
            k = sorted(x[1] for x in k)
        except TypeError:
            return None
        return [(st.new(('list', tuple(('c', x) for x in k))), st)]

    def ev_Subscript(self, e, st, fr):
        out = []
        for v, s in self.ev(e.value, st, fr):
            for i, s2 in self.ev(e.slice, s, fr):
                out += self.index(v, i, s2, e, fr)
        return out

    def index(self, v, i, st, node, fr):
        rec = st.rec(v)
        if rec and rec[0] == 'dict':
            d = items(rec)
            if i in d:
                return [(d[i], st)]
            if i[0] == 'c' and all(k[0] == 'c' for k in d):
                self.throw('KeyError', st, node)
                return []
            return [(self.u(node, st), st)]
        known = self.known(v, st)
        if known is not None and v[0] != 'c' and i[0] == 'c' and \
                isinstance(i[1], int):
            if -len(known) <= i[1] < len(known):
                return [(known[i[1]], st)]
            self.throw('IndexError', st, node)
            return []
        if rec and rec[0] == 'inst' and isinstance(
                rec[1].lookup('__getitem__'), Func):
            return self.call(('meth', rec[1].lookup('__getitem__'), v),
                             [i], {}, st, node, fr)
        got = self.hook_method(v, '[]', [i], {}, st, node, fr)
        if got is not None:
            return got
        if has_unknown(v) or has_unknown(i) or i[0] == 'o':
            return [(self.u(node, st), st)]
        return [(('t', '[]', v, i), st)]

    def ev_Slice(self, e, st, fr):
        return [(self.u(e, st), st)]

    def ev_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def ev_ListComp(self, e, st, fr):
        return self.comp(e, st, fr)

    ev_GeneratorExp = ev_ListComp
    ev_SetComp = ev_ListComp

    def ev_DictComp(self, e, st, fr):
        return self.comp(e, st, fr)

    def comp(self, e, st, fr):
        is_dict = isinstance(e, ast.DictComp)
        if len(e.generators) != 1:
            return [(self.u(e, st), st)]
        g = e.generators[0]
        out = []
        for it, s in self.ev(g.iter, st, fr):
            elems = self.elements(it, s, e)
            if elems is None:
                out.append((self.u(e, s), s))
                continue
            save = dict(s.env)
            pend = [([], s)]
            for x in elems:
                nxt = []
                for acc, s1 in pend:
                    for s2 in self.assign(g.target, x, s1, fr):
                        ok = [s2]
                        for cond in g.ifs:
                            ok2 = []
                            for s3 in ok:
                                for t, s4 in self.test(cond, s3, fr):
                                    if t:
                                        ok2.append(s4)
                                    else:
                                        nxt.append((acc, s4))
                            ok = ok2
                        for s3 in ok:
                            if is_dict:
                                for (k, v), s4 in self.evs(
                                        [e.key, e.value], s3, fr):
                                    nxt.append((acc + [(k, v)], s4))
                            else:
                                for v, s4 in self.ev(e.elt, s3, fr):
                                    nxt.append((acc + [v], s4))
                pend = nxt
            for acc, s1 in pend:
                s1.env = dict(save)
                if is_dict:
                    out.append((s1.new(('dict', tuple(dict(acc).items()))),
                                s1))
                else:
                    out.append((s1.new(('list', tuple(acc))), s1))
        return out

    def elements(self, it, st, node):
        """elements an iteration yields, when all are known"""
        if it[0] == 'iter':
            return list(it[1])
        return self.known(it, st)

    # ----------------------------------------------------------- calls
    def ev_Call(self, e, st, fr):
        out = []
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                not e.args:
            g = fr.f
            while g.parent is not None:
                g = g.parent
            return [(('super', g.cls, fr.me), st)]
        for fv, s in self.ev(e.func, st, fr):
            for args, kw, s2 in self.arguments(e, s, fr):
                out += self.call(fv, args, kw, s2, e, fr)
        return out

    def arguments(self, e, st, fr):
        out = []
        for args, s in self.seq(e.args, st, fr):
            pend = [({}, s)]
            for k in e.keywords:
                nxt = []
                for kw, s1 in pend:
                    for v, s2 in self.ev(k.value, s1, fr):
                        kw2 = dict(kw)
                        if k.arg is None:
                            rec = s2.rec(v)
                            if rec and rec[0] == 'dict':
                                for kk, vv in rec[1]:
                                    if kk[0] == 'c':
                                        kw2[kk[1]] = vv
                            else:
                                kw2['**'] = v
                        else:
                            kw2[k.arg] = v
                        nxt.append((kw2, s2))
                pend = nxt
            out += [(args, kw, s1) for kw, s1 in pend]
        return out

    def call(self, fv, args, kw, st, node, fr):
        k = fv[0]
        if k == 'fn':
            return self.call_func(fv[1], None, args, kw, st, node, fr)
        if k == 'raw':
            return self.enter(fv[1], fv[2], args, kw, st, node, fr)
        if k == 'meth':
            return self.call_func(fv[1], fv[2], args, kw, st, node, fr)
        if k == 'cls':
            return self.construct(fv[1], args, kw, st, node, fr)
        if k == 'o':
            rec = st.heap[fv[1]]
            if rec[0] == 'clo':
                return self.enter(rec[1], None, args, kw, st, node, fr,
                                  dict(rec[2]))
            if rec[0] == 'inst' and isinstance(rec[1].lookup('__call__'),
                                               Func):
                return self.call(('meth', rec[1].lookup('__call__'), fv),
                                 args, kw, st, node, fr)
        if k == 'bm':
            return self.method(fv[1], fv[2], args, kw, st, node, fr)
        if k == 'ext':
            return self.external(fv[1], args, kw, st, node, fr)
        if k == 'part':
            return self.call(fv[1], list(fv[2]) + list(args),
                             dict(dict(fv[3]), **kw), st, node, fr)
        if k == 'wraps':
            src = st.heap.get(('fa', self.fkey(fv[1])))
            if src and args:
                st.heap[('fa', self.fkey(args[0]))] = src
            return [(args[0], st)] if args else [(self.u(node, st), st)]
        if k == 'c' and fv[1] is None:
            self.throw('TypeError', st, node)
            return []
        got = self.hook_method(fv, '()', args, kw, st, node, fr)
        if got is not None:
            return got
        self.spoil(args, st)
        return [(self.u(node, st), st)]

    def fkey(self, v):
        return v[1]

    def set_fattr(self, v, name, val, st):
        rec = st.heap.get(('fa', self.fkey(v)))
        d = items(rec) if rec else {}
        d[name] = val
        st.heap[('fa', self.fkey(v))] = ('fattr', tuple(d.items()))

    def spoil(self, args, st):
        """an unknown function may change the lists it is given"""

    def call_func(self, g, me, args, kw, st, node, fr):
        got = self.hook_call(g, me, args, kw, st, node, fr)
        if got is not None:
            return got
        if g.is_abstract or not self.inline(g) or g.is_generator:
            return [(self.u(node, st, g.name), st)]
        val = ('raw', g, me)
        decos = []
        for d in reversed(g.decos):
            x = d.func if isinstance(d, ast.Call) else d
            ent = self.flow.entity(g.parent or g, x) if g.parent else \
                self.p.resolve_expr(g.module, x)
            if isinstance(ent, Func) and not isinstance(d, ast.Call):
                decos.append(ent)
        if not decos:
            return self.enter(g, me, args, kw, st, node, fr)
        # the receiver is passed through the wrappers
        outs = [(('raw', g, None), st)]
        for d in decos:
            nxt = []
            for v, s in outs:
                nxt += self.enter(d, None, [v], {}, s, node, fr)
            outs = nxt
        res = []
        full = ([me] if me is not None and not g.is_static else []) + args
        for v, s in outs:
            if v[0] == 'raw':
                res += self.enter(v[1], None, full, kw, s, node, fr)
            else:
                res += self.call(v, full, kw, s, node, fr)
        return res

    def construct(self, c, args, kw, st, node, fr):
        got = self.hook_call(c, None, args, kw, st, node, fr)
        if got is not None:
            return got
        if c.issub_name('Exception') if hasattr(c, 'issub_name') else \
                self.is_exception(c):
            return [(('exc', c.name), st)]
        init = c.lookup('__init__')
        me = st.new(('inst', c, ()))
        if isinstance(init, Func):
            outs = self.call_func(init, me, args, kw, st, node, fr)
            return [(me, s) for _, s in outs]
        return [(me, st)]

    def is_exception(self, c):
        return any(n.endswith('Exception') or n.endswith('Error')
                   for k in c.mro() for n in [k.name] + [
                       getattr(x, 'name', str(x)) for x in k.extbases])

    def bind(self, g, me, args, kw, st):
        """{param: value} or None when the call does not fit"""
        env = {}
        pos = list(g.pos)
        vals = list(args)
        if me is not None and not g.is_static:
            vals = [me] + vals
        kw = dict(kw)
        extra_kw = kw.pop('**', None)
        if len(vals) > len(pos):
            if not g.vararg:
                return None
            env[g.vararg] = ('tup', tuple(vals[len(pos):]))
            vals = vals[:len(pos)]
        elif g.vararg:
            env[g.vararg] = ('tup', ())
        for p, v in zip(pos, vals):
            env[p] = v
        rest = {}
        for k, v in kw.items():
            if k in env and k in g.params:
                return None
            if k in g.pos or k in g.kwonly:
                env[k] = v
            elif g.kwarg:
                rest[('c', k)] = v
            else:
                return None
        if g.kwarg:
            env[g.kwarg] = extra_kw if extra_kw is not None and not rest \
                else st.new(('dict', tuple(rest.items())))
        for p in g.pos + g.kwonly:
            if p not in env:
                if p in g.defaults:
                    d = g.defaults[p]
                    if isinstance(d, ast.Constant):
                        env[p] = ('c', d.value)
                    else:
                        save, st.env = st.env, {}
                        got = self.ev(d, st, Frame(g))
                        st.env = save
                        env[p] = got[0][0]
                elif extra_kw is not None:
                    env[p] = ('u', ('kw', p), 0)
                else:
                    return None
        return env

    def enter(self, g, me, args, kw, st, node, fr, outer=None):
        if self.depth > self.DEPTH:
            return [(self.u(node, st), st)]
        env = self.bind(g, me, args, kw, st)
        if env is None:
            self.throw('TypeError', st, node)
            return []
        self.calls.add(g.qual)
        full = dict(outer or {})
        full.update(env)
        st.stack.append(st.env)
        st.env = full
        if me is None and g.method_self and g.method_self in env:
            me = env[g.method_self]
        if me is None and fr is not None and g.parent is not None:
            me = full.get(g.parent.method_self) if g.parent.method_self \
                else None
        inner = Frame(g, me)
        self.depth += 1
        here = len(self.roots)
        self.roots += [v for v in [me] + list(args) + list(kw.values())
                       if v is not None]
        self.trail.append((g, fr.f.loc(node) if fr is not None else ''))
        self.raised.append([])
        try:
            if isinstance(g.node.body, list):
                outs = []
                for kind, v, s in self.block(g.node.body, st, inner):
                    if kind == 'ret':
                        outs.append((v, s))
                    elif kind in ('norm', 'brk', 'cont'):
                        outs.append((NONE, s))
            else:
                outs = self.ev(g.node.body, st, inner)
        finally:
            self.depth -= 1
            self.trail.pop()
            mine = self.raised.pop()
        for exc, s, n in mine:
            s.env = s.stack.pop()
            self.raised[-1].append((exc, s, n))
        for _, s in outs:
            s.env = s.stack.pop()
        try:
            return self.dedupe(outs)
        finally:
            del self.roots[here:]

    # ------------------------------------------- builtin and external
    def method(self, v, name, args, kw, st, node, fr):
        got = self.hook_method(v, name, args, kw, st, node, fr)
        if got is not None:
            return got
        if v[0] == 'c':
            try:
                if all(a[0] == 'c' for a in args) and not kw:
                    return [(('c', getattr(v[1], name)(
                        *[a[1] for a in args])), st)]
            except Exception:
                pass
            return [(self.u(node, st), st)]
        rec = st.rec(v)
        if rec and rec[0] == 'list':
            old = rec[1]
            if name == 'append' and args:
                st.heap[v[1]] = ('list', None if old is None
                                 else old + (args[0],))
                return [(NONE, st)]
            if name == 'extend' and args:
                k = self.known(args[0], st)
                st.heap[v[1]] = ('list', None if old is None or k is None
                                 else old + tuple(k))
                return [(NONE, st)]
            if name == 'insert' and len(args) == 2:
                i = args[0]
                ok = old is not None and i[0] == 'c'
                st.heap[v[1]] = ('list', tuple(
                    list(old[:i[1]]) + [args[1]] + list(old[i[1]:]))
                    if ok else None)
                return [(NONE, st)]
            if name == 'copy':
                return [(st.new(rec), st)]
            if name == 'pop':
                if old:
                    i = args[0][1] if args and args[0][0] == 'c' else -1
                    l = list(old)
                    try:
                        x = l.pop(i)
                        st.heap[v[1]] = ('list', tuple(l))
                        return [(x, st)]
                    except Exception:
                        pass
                st.heap[v[1]] = ('list', None)
            got = self.set_method(v, name, args, st)
            if got is not None:
                return [(got, st)]
            if name in ('remove', 'sort', 'reverse', 'clear', 'add',
                        'discard', 'update', 'difference_update'):
                st.heap[v[1]] = ('list', () if name == 'clear' else None)
                return [(NONE, st)]
            return [(self.u(node, st), st)]
        if rec and rec[0] == 'dict':
            d = items(rec)
            if name == 'copy':
                return [(st.new(rec), st)]
            if name == 'items':
                return [(('iter', tuple(('tup', (k, x))
                                        for k, x in d.items())), st)]
            if name == 'keys':
                return [(('iter', tuple(d)), st)]
            if name == 'values':
                return [(('iter', tuple(d.values())), st)]
            if name == 'get' and args:
                if args[0] in d:
                    return [(d[args[0]], st)]
                if args[0][0] == 'c' and all(k[0] == 'c' for k in d):
                    return [(args[1] if len(args) > 1 else NONE, st)]
                return [(self.u(node, st), st)]
            if name == 'update':
                if args:
                    r2 = st.rec(args[0])
                    if r2 and r2[0] == 'dict':
                        d.update(items(r2))
                    else:
                        d[('t', 'more', args[0])] = self.u(node, st)
                for k, x in kw.items():
                    d[('c', k)] = x
                st.heap[v[1]] = ('dict', tuple(d.items()))
                return [(NONE, st)]
            if name == 'pop' and args and args[0] in d:
                x = d.pop(args[0])
                st.heap[v[1]] = ('dict', tuple(d.items()))
                return [(x, st)]
            if name == 'setdefault' and args:
                if args[0] in d:
                    return [(d[args[0]], st)]
                d[args[0]] = args[1] if len(args) > 1 else NONE
                st.heap[v[1]] = ('dict', tuple(d.items()))
                return [(d[args[0]], st)]
            return [(self.u(node, st), st)]
        self.changed(v, args, st, node)
        return [(self.u(node, st), st)]

    def changed(self, v, args, st, node):
        """a method nobody knows: what it is given may be rearranged"""
        for a in args:
            if a[0] in ('u', 't') and not (a[0] == 't' and a[1] in (
                    'npts', 'nfts')):
                self.rebind(a, ('t', 'changed', a, self.u(node, st)), st)

    def rebind(self, old, new, st):
        for env in st.stack + [st.env]:
            for k, v in list(env.items()):
                if v == old:
                    env[k] = new
        for oid, rec in list(st.heap.items()):
            if rec[0] in ('inst', 'clo', 'dict') and any(
                    x == old for _, x in rec[-1] or ()):
                st.heap[oid] = rec[:-1] + (tuple(
                    (k, new if x == old else x) for k, x in rec[-1]),)

    def external(self, name, args, kw, st, node, fr):
        got = self.hook_ext(name, args, kw, st, node, fr)
        if got is not None:
            return got
        n = name.split('.')[-1]
        if name.startswith('builtins.'):
            m = getattr(self, 'b_' + n, None)
            if m is not None:
                got = m(args, kw, st, node, fr)
                if got is not None:
                    return got
            x = getattr(builtins, n, None)
            if isinstance(x, type) and issubclass(x, BaseException):
                return [(('exc', n), st)]
        elif name == 'functools.partial' and args:
            return [(('part', args[0], tuple(args[1:]),
                      tuple(sorted(kw.items()))), st)]
        elif n == 'wraps' and args:
            return [(('wraps', args[0]), st)]
        elif name == 'copy.copy' and args:
            rec = st.rec(args[0])
            if rec:
                return [(st.new(rec), st)]
            return [(args[0], st)]
        elif name in ('operator.gt', 'operator.lt'):
            return [(self.u(node, st), st)]
        return [(self.u(node, st, n), st)]

    def b_len(self, args, kw, st, node, fr):
        v = args[0]
        got = self.hook_len(v, st)
        if got is not None:
            return [(got, st)]
        k = self.known(v, st)
        if k is not None:
            return [(('c', len(k)), st)]
        rec = st.rec(v)
        if rec and rec[0] == 'inst' and isinstance(
                rec[1].lookup('__len__'), Func):
            return self.call(('meth', rec[1].lookup('__len__'), v), [], {},
                             st, node, fr)
        if v[0] == 'c':
            self.throw('TypeError', st, node)
            return []
        return [(('t', 'len', v) if not has_unknown(v)
                 else self.u(node, st), st)]

    def b_isinstance(self, args, kw, st, node, fr):
        if len(args) < 2:
            return None
        ts = self.known(args[1], st) or [args[1]]
        unsure = False
        for t in ts:
            r = self.hook_isinstance(args[0], t, st)
            if r is None:
                r = self.isinst(args[0], t, st)
            if r is True:
                return [(TRUE, st)]
            if r is None:
                unsure = True
        if unsure:
            return [(('t', 'isinstance', args[0], repr(args[1]))
                     if not has_unknown(args[0]) else self.u(node, st), st)]
        return [(FALSE, st)]

    def isinst(self, v, t, st):
        if v[0] == 'u':
            return None
        if t[0] == 'cls':
            c = self.class_of(v, st) if v[0] == 'o' else None
            if c is not None:
                return t[1] in c.mro()
            if v[0] in ('c', 'tup', 'fn', 'raw', 'cls', 'meth', 'iter'):
                return False
            rec = st.rec(v)
            if rec and rec[0] in ('list', 'dict', 'clo'):
                return False
            return None
        if t[0] == 'ext':
            n = t[1].split('.')[-1]
            if v[0] == 'c':
                if v[1] is None:
                    return False
                py = getattr(builtins, n, None)
                if t[1].startswith('builtins.') and isinstance(py, type):
                    return isinstance(v[1], py)
                if t[1] == 'numbers.Integral':
                    return isinstance(v[1], int)
                if t[1] in ('numbers.Number', 'numbers.Real'):
                    return isinstance(v[1], (int, float))
                return False
            if v[0] == 'tup':
                return n == 'tuple'
            rec = st.rec(v)
            if rec:
                if rec[0] in ('list', 'dict'):
                    return n == rec[0]
                if rec[0] in ('clo', 'inst'):
                    return False if n in dir(builtins) or \
                        t[1].startswith('numpy') else None
            if v[0] in ('fn', 'raw', 'cls', 'meth'):
                return False
        return None

    def b_hasattr(self, args, kw, st, node, fr):
        v, n = args[:2]
        rec = st.rec(v)
        if n[0] != 'c':
            return None
        if rec and rec[0] == 'inst':
            if n[1] in items(rec) or self.has_class_attr(rec[1], n[1]):
                return [(TRUE, st)]
            if not self.open_class(rec[1]):
                return [(FALSE, st)]
        if v[0] in ('fn', 'raw') or rec and rec[0] == 'clo':
            got = st.heap.get(('fa', self.fkey(v)))
            return [(('c', bool(got and n[1] in items(got)) or n[1] in (
                '__name__', '__call__')), st)]
        if v[0] == 'c':
            return [(('c', hasattr(v[1], n[1])), st)]
        return None

    def b_getattr(self, args, kw, st, node, fr):
        if len(args) >= 2 and args[1][0] == 'c':
            if len(args) == 2:
                return self.attr(args[0], args[1][1], st, node, fr)
            out = []
            for t, s in self.b_hasattr(args, kw, st, node, fr) or ():
                out += self.attr(args[0], args[1][1], s, node, fr) \
                    if t == TRUE else [(args[2], s)]
            return out or None
        return None

    def b_setattr(self, args, kw, st, node, fr):
        if len(args) == 3 and args[1][0] == 'c':
            self.set_attr(args[0], args[1][1], args[2], st)
        return [(NONE, st)]

    def b_callable(self, args, kw, st, node, fr):
        v = args[0]
        rec = st.rec(v)
        if v[0] in ('fn', 'raw', 'meth', 'cls', 'ext') or \
                rec and rec[0] == 'clo':
            return [(TRUE, st)]
        if v[0] in ('c', 'tup') or rec and rec[0] in ('list', 'dict'):
            return [(FALSE, st)]
        return None

    def b_any(self, args, kw, st, node, fr):
        return self.quant(args, st, node, True)

    def b_all(self, args, kw, st, node, fr):
        return self.quant(args, st, node, False)

    def quant(self, args, st, node, is_any):
        k = self.elements(args[0], st, node)
        if k is None:
            return None
        ts = [self.truth(x, st) for x in k]
        if is_any in ts:
            return [(('c', is_any), st)]
        if all(t is (not is_any) for t in ts):
            return [(('c', not is_any), st)]
        return None

    def b_list(self, args, kw, st, node, fr):
        if not args:
            return [(st.new(('list', ())), st)]
        k = self.elements(args[0], st, node)
        if k is None:
            return [(self.u(node, st), st)]
        return [(st.new(('list', tuple(k))), st)]

    b_set = b_list

    def b_tuple(self, args, kw, st, node, fr):
        k = self.elements(args[0], st, node) if args else []
        return None if k is None else [(('tup', tuple(k)), st)]

    def b_dict(self, args, kw, st, node, fr):
        if not args:
            return [(st.new(('dict', tuple(
                (('c', k), v) for k, v in kw.items() if k != '**'))), st)]
        rec = st.rec(args[0])
        if rec and rec[0] == 'dict':
            return [(st.new(rec), st)]
        k = self.elements(args[0], st, node)
        if k is not None and all(x[0] == 'tup' and len(x[1]) == 2
                                 for x in k):
            return [(st.new(('dict', tuple(dict(
                (x[1][0], x[1][1]) for x in k).items()))), st)]
        return None

    def b_enumerate(self, args, kw, st, node, fr):
        k = self.elements(args[0], st, node)
        if k is None:
            return [(('enum', args[0]), st)]
        return [(('iter', tuple(('tup', (('c', i), x))
                                for i, x in enumerate(k))), st)]

    def b_zip(self, args, kw, st, node, fr):
        ks = [self.elements(a, st, node) for a in args]
        if any(k is None for k in ks):
            return None
        return [(('iter', tuple(('tup', tuple(x)) for x in zip(*ks))), st)]

    def b_range(self, args, kw, st, node, fr):
        if all(a[0] == 'c' and isinstance(a[1], int) for a in args):
            r = list(range(*[a[1] for a in args]))
            if len(r) <= 8:
                return [(('iter', tuple(('c', i) for i in r)), st)]
        return [(('t', 'range') + tuple(args)
                 if not any(has_unknown(a) for a in args)
                 else self.u(node, st), st)]

    def b_next(self, args, kw, st, node, fr):
        return self.advance(args[0], st, node, fr)

    def b_type(self, args, kw, st, node, fr):
        c = self.class_of(args[0], st)
        return [(('cls', c), st)] if c else None

    def b_super(self, args, kw, st, node, fr):
        if len(args) == 2 and args[0][0] == 'cls':
            return [(('super', args[0][1], args[1]), st)]
        return None

    def b_int(self, args, kw, st, node, fr):
        if args and args[0][0] == 'c':
            try:
                return [(('c', int(args[0][1])), st)]
            except Exception:
                return None
        return [(('t', 'int', args[0]) if args and not has_unknown(args[0])
                 else self.u(node, st), st)]

    def b_map(self, args, kw, st, node, fr):
        ks = [self.elements(a, st, node) for a in args[1:]]
        if not ks or any(k is None for k in ks):
            return None
        outs = [((), st)]
        for row in zip(*ks):
            outs = [(vs + (v,), s2) for vs, s in outs
                    for v, s2 in self.call(args[0], list(row), {}, s, node,
                                           fr)]
        return [(('iter', vs), s) for vs, s in outs]

    def b_filter(self, args, kw, st, node, fr):
        k = self.elements(args[1], st, node) if len(args) == 2 else None
        if k is None:
            return None
        outs = [((), st)]
        for x in k:
            nxt = []
            for vs, s in outs:
                got = [(x, s)] if args[0] == NONE else self.call(
                    args[0], [x], {}, s, node, fr)
                for v, s2 in got:
                    nxt += [(vs + ((x,) if t else ()), s3)
                            for t, s3 in self.fork(v, s2)]
            outs = nxt
        return [(('iter', vs), s) for vs, s in outs]

    def b_reversed(self, args, kw, st, node, fr):
        k = self.elements(args[0], st, node) if args else None
        return None if k is None else [(('iter', tuple(k[::-1])), st)]

    def b_iter(self, args, kw, st, node, fr):
        return [(args[0], st)] if args else None

    # ------------------------------------------------------ statements
    def block(self, body, st, fr):
        """[(kind, value, state)]"""
        live = [st]
        done = []
        for s in body:
            nxt = []
            for x in live:
                for o in self.stmt(s, x, fr):
                    if o[0] == 'norm':
                        nxt.append(o)
                    else:
                        done.append(o)
            live = [o[2] for o in self.dedupe(nxt)]
            if not live:
                break
        return done + [('norm', None, s) for s in live]

    def stmt(self, s, st, fr):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            return [('norm', None, st)]
        return m(s, st, fr)

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [('norm', None, st)]
        return [('norm', None, x) for _, x in self.ev(s.value, st, fr)]

    def st_Assign(self, s, st, fr):
        out = []
        for v, x in self.ev(s.value, st, fr):
            pend = [x]
            for t in s.targets:
                pend = [z for y in pend for z in self.assign(t, v, y, fr)]
            out += [('norm', None, y) for y in pend]
        return out

    def st_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [('norm', None, st)]
        out = []
        for v, x in self.ev(s.value, st, fr):
            out += [('norm', None, y)
                    for y in self.assign(s.target, v, x, fr)]
        return out

    def st_AugAssign(self, s, st, fr):
        load = ast.copy_location(_load(s.target), s)
        out = []
        for (a, b), x in self.evs([load, s.value], st, fr):
            rec = x.rec(a)
            if isinstance(s.op, ast.Add) and rec and rec[0] == 'list':
                k = self.known(b, x)
                x.heap[a[1]] = ('list', None if k is None or rec[1] is None
                                else rec[1] + tuple(k))
                v = a
            else:
                v = self.binop(type(s.op).__name__, a, b, x, s)
            out += [('norm', None, y)
                    for y in self.assign(s.target, v, x, fr)]
        return out

    def assign(self, t, v, st, fr):
        """states after the assignment"""
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            k = self.elements(v, st, t)
            pend = [st]
            if k is not None and len(k) != len(t.elts) and not any(
                    isinstance(x, ast.Starred) for x in t.elts):
                self.throw('ValueError', st, t)
                return []
            star = [i for i, x in enumerate(t.elts)
                    if isinstance(x, ast.Starred)]
            if k is not None and star:
                i, rest = star[0], len(k) - len(t.elts) + 1
                if rest < 0:
                    self.throw('ValueError', st, t)
                    return []
                mid = st.new(('list', tuple(k[i:i + rest])))
                k = list(k[:i]) + [mid] + list(k[i + rest:])
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    x = x.value
                    val = k[i] if k is not None else self.u(x, st)
                elif star and k is None and i > star[0]:
                    val = self.u(x, st)
                else:
                    val = k[i] if k is not None and i < len(k) else None
                pend = [z for y in pend for z in self.assign(
                    x, val if val is not None else (
                        ('t', '[]', v, ('c', i)) if v[0] == 't' and
                        not has_unknown(v) else self.u(x, y, str(i))),
                    y, fr)]
            return pend
        if isinstance(t, ast.Attribute):
            out = []
            for b, x in self.ev(t.value, st, fr):
                self.set_attr(b, t.attr, v, x)
                out.append(x)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for (b, i), x in self.evs([t.value, t.slice], st, fr):
                rec = x.rec(b)
                if rec and rec[0] == 'dict':
                    d = items(rec)
                    d[i] = v
                    x.heap[b[1]] = ('dict', tuple(d.items()))
                elif rec and rec[0] == 'list':
                    if rec[1] is not None and i[0] == 'c' and isinstance(
                            i[1], int) and -len(rec[1]) <= i[1] < len(
                                rec[1]):
                        l = list(rec[1])
                        l[i[1]] = v
                        x.heap[b[1]] = ('list', tuple(l))
                    else:
                        x.heap[b[1]] = ('list', None)
                else:
                    self.hook_method(b, '[]=', [i, v], {}, x, t, fr)
                out.append(x)
            return out
        return [st]

    def set_attr(self, b, name, v, st):
        rec = st.rec(b)
        if rec and rec[0] == 'inst':
            c = rec[1]
            d = items(rec)
            d[name] = v
            st.heap[b[1]] = ('inst', c, tuple(sorted(d.items(),
                                                     key=lambda x: x[0])))
        elif b[0] in ('fn', 'raw') or rec and rec[0] == 'clo':
            self.set_fattr(b, name, v, st)

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                for (b, i), x in self.evs([t.value, t.slice], st, fr)[:1]:
                    rec = x.rec(b)
                    if rec and rec[0] == 'dict':
                        d = items(rec)
                        d.pop(i, None)
                        x.heap[b[1]] = ('dict', tuple(d.items()))
                    elif rec and rec[0] == 'list':
                        x.heap[b[1]] = ('list', None)
                    st = x
        return [('norm', None, st)]

    def st_Return(self, s, st, fr):
        if s.value is None:
            return [('ret', NONE, st)]
        return [('ret', v, x) for v, x in self.ev(s.value, st, fr)]

    def st_Raise(self, s, st, fr):
        name = 'Exception'
        if s.exc is None:
            name = '(again)'
            self.throw(name, st, s)
            return []
        for v, x in self.ev(s.exc, st, fr):
            n = name
            if v[0] == 'exc':
                n = v[1]
            elif v[0] == 'cls':
                n = v[1].name
            elif v[0] == 'ext':
                n = v[1].split('.')[-1]
            self.throw(n, x, s)
        return []

    def st_Break(self, s, st, fr):
        return [('brk', None, st)]

    def st_Continue(self, s, st, fr):
        return [('cont', None, st)]

    def st_If(self, s, st, fr):
        out = []
        for t, x in self.test(s.test, st, fr):
            out += self.block(s.body if t else s.orelse, x, fr)
        return self.dedupe(out)

    def st_Assert(self, s, st, fr):
        out = []
        for t, x in self.test(s.test, st, fr):
            if t:
                out.append(('norm', None, x))
            else:
                self.throw('AssertionError', x, s)
        return out

    def st_FunctionDef(self, s, st, fr):
        g = self.p.func_of_node.get(s)
        if g is not None:
            outs = [(self.closure(g, st, fr), st)]
            for d in reversed(s.decorator_list):
                nxt = []
                for v, x in outs:
                    for dv, y in self.ev(d, x, fr):
                        nxt += self.call(dv, [v], {}, y, d, fr)
                outs = nxt
            res = []
            for v, x in outs:
                if v[0] == 'u':
                    v = self.closure(g, x, fr)
                x.env[s.name] = v
                # let the function see itself
                rec = x.rec(v)
                if rec and rec[0] == 'clo':
                    d = dict(rec[2])
                    d[s.name] = v
                    x.heap[v[1]] = ('clo', rec[1], tuple(d.items()))
                res.append(('norm', None, x))
            return res
        return [('norm', None, st)]

    def st_Import(self, s, st, fr):
        return [('norm', None, st)]

    def st_With(self, s, st, fr):
        pend = [st]
        for i in s.items:
            nxt = []
            for x in pend:
                for v, y in self.ev(i.context_expr, x, fr):
                    if i.optional_vars is not None:
                        nxt += self.assign(i.optional_vars, v, y, fr)
                    else:
                        nxt.append(y)
            pend = nxt
        return [o for x in pend for o in self.block(s.body, x, fr)]

    def st_Try(self, s, st, fr):
        self.raised.append([])
        outs = self.block(s.body, st, fr)
        mine = self.raised.pop()
        res = []
        for o in outs:
            if o[0] == 'norm' and s.orelse:
                res += self.block(s.orelse, o[2], fr)
            else:
                res.append(o)
        for exc, x, n in mine:
            for h in s.handlers:
                if self.catches(h, exc):
                    if h.name:
                        x.env[h.name] = ('exc', exc)
                    self.raised.append([])
                    got = self.block(h.body, x, fr)
                    for e2, y, n2 in self.raised.pop():
                        self.raised[-1].append(
                            (exc if e2 == '(again)' else e2, y, n2))
                    res += got
                    break
            else:
                if s.finalbody:
                    for o in self.block(s.finalbody, x, fr):
                        self.raised[-1].append((exc, o[2], n))
                else:
                    self.raised[-1].append((exc, x, n))
        if s.finalbody:
            fin = []
            for o in res:
                for p in self.block(s.finalbody, o[2], fr):
                    fin.append((o[0], o[1], p[2]) if p[0] == 'norm' else p)
            res = fin
        return self.dedupe(res)

    def catches(self, h, exc):
        if h.type is None:
            return True
        es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for e in es:
            n = (dotted(e) or '').split('.')[-1]
            if n in ('Exception', 'BaseException') or n == exc:
                return True
            x, y = getattr(builtins, exc, None), getattr(builtins, n, None)
            if isinstance(x, type) and isinstance(y, type) and issubclass(
                    x, y):
                return True
            c = self.p.try_cls(exc) if hasattr(self.p, 'try_cls') else None
        return False

    def st_For(self, s, st, fr):
        out = []
        for it, x in self.ev(s.iter, st, fr):
            out += self.loop(s, it, x, fr)
        return self.dedupe(out)

    def loop(self, s, it, st, fr):
        done, ended = [], []
        elems = self.elements(it, st, s)
        if elems is not None:
            live = [st]
            for v in elems:
                nxt = []
                for x in live:
                    for y in self.assign(s.target, v, x, fr):
                        for o in self.block(s.body, y, fr):
                            if o[0] in ('norm', 'cont'):
                                nxt.append(('norm', None, o[2]))
                            elif o[0] == 'brk':
                                ended.append(o[2])
                            else:
                                done.append(o)
                live = [o[2] for o in self.dedupe(nxt)]
            natural = live
        else:
            natural = []
            live = [st]
            if self.is_iterator(it, st):
                live = []
                for v, x in self.iterate(it, st, s, fr):
                    live.append((v, x))
                st_it = live
                live = [x for _, x in st_it]
                it = st_it[0][0] if st_it else it
            for r in range(12):
                if r > self.rounds and natural:
                    break
                nxt = []
                for x in live:
                    self.raised.append([])
                    got = self.advance(it, x.fork(), s, fr)
                    stop = self.raised.pop()
                    iterator = self.is_iterator(it, x)
                    if not iterator:
                        natural.append(x)
                    for exc, y, n in stop:
                        if exc == 'StopIteration':
                            natural.append(y)
                        else:
                            self.raised[-1].append((exc, y, n))
                    if r >= self.rounds and natural:
                        continue
                    for v, y in got:
                        for z in self.assign(s.target, v, y, fr):
                            for o in self.block(s.body, z, fr):
                                if o[0] in ('norm', 'cont'):
                                    nxt.append(('norm', None, o[2]))
                                elif o[0] == 'brk':
                                    ended.append(o[2])
                                else:
                                    done.append(o)
                live = [o[2] for o in self.dedupe(nxt)]
        for x in natural:
            if s.orelse:
                done += self.block(s.orelse, x, fr)
            else:
                done.append(('norm', None, x))
        return done + [('norm', None, x) for x in ended]

    def is_iterator(self, it, st):
        if it[0] == 'enum':
            it = it[1]
        rec = st.rec(it)
        return bool(rec and rec[0] == 'inst' and (
            isinstance(rec[1].lookup('__next__'), Func)
            or isinstance(rec[1].lookup('__iter__'), Func)))

    def iterate(self, it, st, node, fr):
        enum = it[0] == 'enum'
        base = it[1] if enum else it
        rec = st.rec(base)
        g = rec[1].lookup('__iter__')
        if isinstance(g, Func):
            return [(('enum', v) if enum else v, x) for v, x in
                    self.call(('meth', g, base), [], {}, st, node, fr)]
        return [(it, st)]

    def advance(self, it, st, node, fr):
        if it[0] == 'enum':
            return [(('tup', (self.u(node, x, 'i'), v)), x)
                    for v, x in self.advance(it[1], st, node, fr)]
        rec = st.rec(it)
        if rec and rec[0] == 'inst' and isinstance(
                rec[1].lookup('__next__'), Func):
            return self.call(('meth', rec[1].lookup('__next__'), it), [], {},
                             st, node, fr)
        return [(self.u(node, st, 'elem'), st)]

    def st_While(self, s, st, fr):
        live, done = [st], []
        for r in range(20):
            nxt = []
            for x in live:
                got = self.test(s.test, x, fr)
                certain = len({t for t, _ in got}) == 1
                for t, y in got:
                    if not t:
                        if s.orelse:
                            done += self.block(s.orelse, y, fr)
                        else:
                            done.append(('norm', None, y))
                    elif r < self.rounds or certain and r < 19:
                        for o in self.block(s.body, y, fr):
                            if o[0] in ('norm', 'cont'):
                                nxt.append(('norm', None, o[2]))
                            elif o[0] == 'brk':
                                done.append(('norm', None, o[2]))
                            else:
                                done.append(o)
                    elif certain:
                        self.cut += 1
            live = [o[2] for o in self.dedupe(nxt)]
            if not live:
                break
        return self.dedupe(done)


class _Holder:
    """a place to evaluate class attributes in"""
    parent = None
    cls = None
    method_self = None

    def __init__(self, module):
        self.module = module
        self.qual = module.name


def _load(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    return ast.Subscript(t.value, t.slice, ast.Load())
