"""Interprocedural abstract interpreter over the nimble source.

Values are abstracted by
  refs   what caller-visible storage the value may *be* (root + access path)
  inner  what caller-visible storage may be reachable *inside* a fresh value
  types  type tags (python / numpy / nimble class names), empty = unknown
  consts the set of constants the value may be, None = not known
  ents   program entities (functions, classes, modules, closures)
  elts   element values of a short tuple/list display

Functions are analysed per receiver class and per constant argument (so that
`structure == 'copy'` and `opName.startswith('__i')` are decided), summarised,
and the summaries are composed at call sites.  Rules plug in as `Domain`s that
attach gen/kill facts to writes and calls; facts are carried along every path,
including exception paths.
"""
import ast
from . import lib
from .model import (Func, Cls, Module, Ext, Var, AnalysisError, walk_own,
                    dotted)

EMPTY = frozenset()
MAXPATH = 6
MAXCONST = 16


class Closure:
    __slots__ = ('func', 'env', 'frame')

    def __init__(self, func, env, frame):
        self.func, self.env, self.frame = func, env, frame

    def __hash__(self):
        return hash(self.func.node)

    def __eq__(self, o):
        return isinstance(o, Closure) and o.func is self.func


class Bound:
    """bound method: function found on recv"""
    __slots__ = ('name', 'recv')

    def __init__(self, name, recv):
        self.name, self.recv = name, recv

    def __hash__(self):
        return hash((self.name, self.recv))

    def __eq__(self, o):
        return isinstance(o, Bound) and o.name == self.name and \
            o.recv == self.recv


class Super:
    __slots__ = ('owner', 'recv')

    def __init__(self, owner, recv):
        self.owner, self.recv = owner, recv


class Partial:
    __slots__ = ('func', 'args', 'kwargs')

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class Val:
    __slots__ = ('refs', 'inner', 'types', 'consts', 'ents', 'elts', '_h',
                 'alts')

    def __init__(self, refs=EMPTY, inner=EMPTY, types=EMPTY, consts=None,
                 ents=EMPTY, elts=None):
        if types and types <= lib.SCALAR_TYPES:
            refs = inner = EMPTY
        self.refs, self.inner, self.types = refs, inner, types
        self.consts, self.ents, self.elts = consts, ents, elts
        self._h = None
        self.alts = None     # alternatives of a returned tuple, by its flags

    def _k(self):
        return (self.refs, self.inner, self.types, self.consts, self.ents,
                self.elts)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self._k())
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Val) and self._k() == o._k())

    def __repr__(self):
        out = []
        for n in ('refs', 'inner', 'types', 'consts', 'ents', 'elts'):
            v = getattr(self, n)
            if v:
                out.append('%s=%s' % (n, set(v) if isinstance(v, frozenset)
                                      else v))
        return 'Val(%s)' % ', '.join(out)

    def with_(self, **kw):
        d = dict(refs=self.refs, inner=self.inner, types=self.types,
                 consts=self.consts, ents=self.ents, elts=self.elts)
        d.update(kw)
        return Val(**d)

    @property
    def reach(self):
        return self.refs | self.inner


FRESH = Val()


def tval(*types):
    return Val(types=frozenset(types))


def cval(c):
    return Val(types=frozenset([ctype(c)]), consts=frozenset([c]))


def ctype(c):
    if c is None:
        return 'None'
    if c is Ellipsis:
        return 'scalar'
    return type(c).__name__ if type(c).__name__ in (
        'int', 'str', 'bool', 'float', 'bytes') else 'scalar'


def join(a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if a == b:
        return a
    consts = None
    if a.consts is not None and b.consts is not None:
        consts = a.consts | b.consts
        if len(consts) > MAXCONST:
            consts = None
    # an unknown type stays unknown
    ua = not a.types and not a.ents
    ub = not b.types and not b.ents
    types = EMPTY if (ua or ub) else a.types | b.types
    elts = None
    if a.elts is not None and b.elts is not None and \
            len(a.elts) == len(b.elts):
        elts = tuple(join(x, y) for x, y in zip(a.elts, b.elts))
    return Val(a.refs | b.refs, a.inner | b.inner, types, consts,
               a.ents | b.ents, elts)


def flag_expr(e):
    """expression of which the truth may say something about variables"""
    if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
        return isinstance(e.values[-1], (ast.Compare,)) or \
            flag_expr(e.values[-1])
    return isinstance(e, ast.Compare) and len(e.ops) == 1


def flag_const(v):
    if v is not None and v.consts is not None and len(v.consts) == 1:
        (c,) = v.consts
        if isinstance(c, bool):
            return c
    return None


def joinall(vals, default=FRESH):
    out = None
    for v in vals:
        out = v if out is None else join(out, v)
    return default if out is None else out


class State:
    __slots__ = ('env', 'facts', 'parts')

    def __init__(self, env, facts):
        self.env, self.facts = env, facts
        self.parts = None    # disjuncts that differ in a boolean flag

    def copy(self):
        return State(dict(self.env), self.facts)

    def same(self, o):
        return self.facts == o.facts and self.env == o.env


FOLDABLE = {'split', 'rsplit', 'partition', 'rpartition', 'replace', 'strip',
            'lstrip', 'rstrip', 'lower', 'upper', 'title', 'capitalize',
            'removeprefix', 'removesuffix'}


def fold_str(recv, name, args, kwargs):
    """value of a string method of constant strings with constant arguments"""
    if name not in FOLDABLE or kwargs or not recv.consts or \
            len(recv.consts) > MAXCONST or any(
            a is None or a.consts is None or len(a.consts) != 1
            for a in args):
        return None
    try:
        outs = [getattr(c, name)(*[next(iter(a.consts)) for a in args])
                for c in recv.consts]
    except (TypeError, ValueError, AttributeError):
        return None
    if all(isinstance(o, str) for o in outs):
        return Val(types=frozenset(['str']), consts=frozenset(outs))
    if len({len(o) for o in outs}) != 1:
        return None
    return Val(types=frozenset([type(outs[0]).__name__]), elts=tuple(
        Val(types=frozenset(['str']), consts=frozenset(x))
        for x in zip(*outs)))


# keys of facts that hold only when they hold on every path
MUST = ('pred', 'empty', 'item')


def jstate(a, b):
    if a is None:
        return b
    if b is None or a is b:
        return a
    env = {}
    for k in a.env.keys() | b.env.keys():
        x, y = a.env.get(k), b.env.get(k)
        if type(k) is tuple and k[0] in MUST:
            if x is not None and x == y:
                env[k] = x
            continue
        if x is None or y is None:
            env[k] = x if y is None else y
        else:
            env[k] = join(x, y)
    return State(env, a.facts | b.facts)


class Summary:
    def __init__(self):
        self.writes = {}     # (root, path, kind) -> site tuple
        self.captures = {}   # (root, path, srcref) -> site
        self.ret = None      # Val or None (never returns)
        self.retalts = {}    # flags of a returned tuple -> Val
        self.facts = None    # facts at normal exit or None
        self.raises = {}     # exc name -> facts (explicit raise)
        self.anyexc = None   # facts at any exceptional exit
        self.yields = None
        self.ver = 0

    def key(self):
        return (frozenset(self.writes), frozenset(self.captures), self.ret,
                self.facts, frozenset((k, v) for k, v in self.raises.items()),
                self.anyexc, frozenset(self.retalts.items()))


class Site:
    __slots__ = ('func', 'node', 'desc', 'via')

    def __init__(self, func, node, desc, via=()):
        self.func, self.node, self.desc, self.via = func, node, desc, via

    @property
    def loc(self):
        return self.func.loc(self.node)

    @property
    def key(self):
        return (self.func.qual, self.desc)

    def chain(self):
        out = ['%s (%s)' % (f.short, f.loc(n)) for f, n in self.via]
        out.append('%s (%s): %s' % (self.func.short, self.loc, self.desc))
        return out

    def __repr__(self):
        return ' -> '.join(self.chain())


class Domain:
    """plug-in: default does nothing"""
    def entry(self, I, fr):
        return EMPTY

    def on_write(self, I, fr, st, ref, kind, node, val):
        pass

    def on_call(self, I, fr, st, node, name, target, recv, args, kwargs):
        """before a call is applied; target is Func/Cls/Ext/str/None"""

    def after_call(self, I, fr, st, node, name, target, recv, args, kwargs,
                   ret):
        pass

    def on_with_enter(self, I, fr, st, node, val):
        pass

    def on_with_exit(self, I, fr, st, node, val):
        pass

    def on_return(self, I, fr, st, node, val):
        pass

    def on_raise(self, I, fr, st, node, name):
        pass

    def on_assign(self, I, fr, st, target, val, node):
        pass

    def on_store(self, I, fr, st, target, comp, kind, node, held):
        """target.comp = held, whatever target is (fresh or not)"""

    def on_load(self, I, fr, st, v, attr, node):
        """v.attr is read"""

    def map_fact(self, I, fr, b, fact):
        """translate a callee fact for the caller: list of facts"""
        return [fact]

    def exit_facts(self, I, fr, b, pre, callee):
        """caller facts after a call that ended with callee facts"""
        return pre


class Frame:
    __slots__ = ('func', 'ctx', 'summary', 'consts', 'exc', 'anyexc', 'ret',
                 'retfacts', 'depth', 'parent', 'root', 'trys', 'nodeinfo',
                 'retstate', 'retalts')

    def __init__(self, func, ctx):
        self.func, self.ctx = func, ctx
        self.parent = None
        self.retalts = {}


class TooDeep(Exception):
    pass


BUILTIN_EXC = {
    'BaseException': (), 'Exception': ('BaseException',),
    'ValueError': ('Exception',), 'TypeError': ('Exception',),
    'KeyError': ('LookupError',), 'IndexError': ('LookupError',),
    'LookupError': ('Exception',), 'AttributeError': ('Exception',),
    'NotImplementedError': ('RuntimeError',), 'RuntimeError': ('Exception',),
    'ImportError': ('Exception',), 'ModuleNotFoundError': ('ImportError',),
    'StopIteration': ('Exception',), 'OSError': ('Exception',),
    'IOError': ('Exception',), 'AssertionError': ('Exception',),
    'UnicodeDecodeError': ('ValueError',), 'ArithmeticError': ('Exception',),
    'ZeroDivisionError': ('ArithmeticError',),
    'OverflowError': ('ArithmeticError',),
    'KeyboardInterrupt': ('BaseException',), 'NameError': ('Exception',),
    'FileNotFoundError': ('OSError',), 'PermissionError': ('OSError',),
}

PYBUILTINS = set(lib.RESULT_TYPES) | set(BUILTIN_EXC) | {
    'print', 'getattr', 'setattr', 'delattr', 'super', 'object', 'min', 'max',
    'next', 'open', 'vars', 'dir', 'globals', 'locals', 'slice', 'complex',
    'bytes', 'bytearray', 'property', 'staticmethod', 'classmethod',
    'input', 'divmod', 'pow', 'format', 'exec', 'eval', 'compile', 'bin',
    'hex', 'oct', 'memoryview', '__import__', 'Ellipsis', 'NotImplemented',
    '__file__', '__name__', 'isinstance', 'Warning', 'DeprecationWarning',
    'UserWarning', 'RuntimeWarning', 'FutureWarning', 'FileExistsError',
    'UnicodeError', 'EOFError', 'MemoryError', 'GeneratorExit',
    'ImportWarning', 'FloatingPointError', 'RecursionError', 'SystemExit'}


class Interp:
    MAXDEPTH = 60
    MAXCTX = 48

    def __init__(self, prog, nim, domain=None, contracts=True, cha=True):
        self.p, self.nim = prog, nim
        self.dom = domain or Domain()
        self.contracts = contracts
        self.cha = cha
        self.fresh_methods = set()    # results assumed fresh (shown apart)
        self.cache = {}
        self.active = {}
        self.ctxcount = {}
        self.rec_hits = 0
        self.changed = False
        self.round = 0
        self.stats = {'functions': 0, 'calls': 0, 'resolved': 0,
                      'contract': 0, 'library': 0, 'unresolved': 0}
        self.done_round = {}
        self.unresolved = {}
        self.analysed = set()
        self.exc_sub_cache = {}
        self._flags = {}
        self._repeated = {}
        self.copying = False        # inside copy_shares
        self.by_contract = False    # the call being reported is a contract
        self.attr_consts = {}       # attribute name -> assumed constant
        self.keep_consts = ()       # parameters whose constants are kept
        self._preds = {}
        self.frames = []

    # ============================================================ entries
    def analyse(self, func, ctx=None, consts=None, types=None):
        """summary of func for receiver class ctx, as an entry point"""
        ck = self._entry_key(func, ctx, consts, types)
        for _ in range(6):
            self.round += 1
            self.changed = False
            s = self._summary(func, ctx, ck)
            if not self.changed:
                break
        return s

    def _entry_key(self, func, ctx, consts, types):
        out = []
        for p in func.params:
            if p == func.method_self:
                continue
            c = frozenset([consts[p]]) if consts and p in consts else None
            t = EMPTY
            if types and p in types:
                t = frozenset(types[p])
            out.append((p, c, t, EMPTY))
        return tuple(out)

    # ========================================================== summaries
    def _ctx_key(self, func, binding, ctx=None):
        n = self.ctxcount.get((func, ctx), 0)
        out = []
        for p in func.params:
            if p == func.method_self:
                continue
            v = binding.get(p)
            if v is None:
                out.append((p, None, EMPTY, EMPTY))
                continue
            c = v.consts
            if c is not None:
                if len(c) > 4 or not all(
                        isinstance(x, (str, bool, type(None))) or
                        (isinstance(x, int) and -3 < x < 4) for x in c):
                    c = None
            t = v.types
            if c is not None:
                t = EMPTY
            if len(t) > 3:
                t = EMPTY
            e = frozenset(x for x in v.ents if isinstance(x, (Func, Cls, Ext)))
            if len(e) > 2 or len(e) != len(v.ents):
                e = EMPTY
            if n > self.MAXCTX:
                t = EMPTY
                e = EMPTY
            if n > 3 * self.MAXCTX and p not in self.keep_consts:
                c = None
            out.append((p, c, t, e))
        return tuple(out)

    def _summary(self, func, ctx, ckey):
        key = (func, ctx, ckey)
        s = self.cache.get(key)
        if key in self.active:
            self.rec_hits += 1
            self.active[key] = True      # recursion met
            return s
        if s is not None and self.done_round.get(key) == self.round:
            return s
        if s is not None and not getattr(s, 'unstable', True):
            return s
        if s is None:
            s = Summary()
            self.cache[key] = s
            self.ctxcount[func, ctx] = self.ctxcount.get((func, ctx), 0) + 1
            self.stats['functions'] += 1
        self.active[key] = False
        self.analysed.add(func)
        hits0 = self.rec_hits
        old = s.key()
        try:
            self._run(func, ctx, ckey, s)
        finally:
            was_rec = self.active.pop(key)
        new = s.key()
        s.unstable = self.rec_hits != hits0
        if old != new and s.unstable:
            self.changed = True
        self.done_round[key] = self.round
        return s

    def _run(self, func, ctx, ckey, s):
        fr = Frame(func, ctx)
        fr.summary = s
        fr.ret = s.ret
        fr.retalts = dict(s.retalts)
        fr.retfacts = s.facts
        fr.trys = []
        fr.depth = len(self.frames)
        fr.root = fr
        fr.retstate = None
        fr.nodeinfo = {}
        if fr.depth > self.MAXDEPTH:
            s.ret = s.ret or FRESH
            s.facts = s.facts if s.facts is not None else EMPTY
            return
        env = {}
        ms = func.method_self
        for p in func.params:
            if p == ms:
                if func.is_classmethod:
                    env[p] = Val(ents=frozenset([ctx or func.cls]))
                else:
                    env[p] = Val(refs=frozenset([(p, ())]),
                                 types=frozenset(['=' + (ctx or func.cls).name])
                                 )
                continue
        for p, c, t, e in ckey:
            if t and t <= lib.SCALAR_TYPES:
                env[p] = Val(types=t, consts=c)
            elif c is not None:
                env[p] = Val(types=frozenset(ctype(x) for x in c), consts=c)
            else:
                env[p] = Val(refs=frozenset([(p, ())]), types=t, ents=e)
            if p == func.vararg:
                env[p] = Val(refs=frozenset([(p, ())]),
                             types=frozenset(['tuple']))
            elif p == func.kwarg:
                env[p] = Val(refs=frozenset([(p, ())]),
                             types=frozenset(['dict']))
        st = State(env, self.dom.entry(self, fr) or EMPTY)
        self.frames.append(fr)
        try:
            self._exec_function_body(fr, func, st)
        finally:
            self.frames.pop()
        s.ret = fr.ret
        s.retalts = fr.retalts
        s.facts = fr.retfacts

    def _exec_function_body(self, fr, func, st):
        if isinstance(func.node, ast.Lambda):
            v = self.eval(fr, func.node.body, st)
            self._record_return(fr, st, v, func.node)
            return
        out = self.exec_block(fr, func.node.body, st)
        if out is not None:
            self._record_return(fr, out, cval(None), func.node)

    def _record_return(self, fr, st, v, node):
        if fr.func.is_generator:
            v = Val(inner=fr.retstate or EMPTY, types=frozenset(['iter']))
        fr.ret = join(fr.ret, v)
        if v.elts:
            k = tuple(flag_const(x) for x in v.elts)
            if len(fr.retalts) > 8:
                k = None
            fr.retalts[k] = join(fr.retalts.get(k), v)
        else:
            fr.retalts[None] = join(fr.retalts.get(None), v)
        self.dom.on_return(self, fr, st, node, v)
        fr.retfacts = st.facts if fr.retfacts is None else \
            fr.retfacts | st.facts

    # ========================================================= statements
    def exec_block(self, fr, stmts, st):
        for i, s in enumerate(stmts):
            if st is None:
                return None
            if st.parts:
                out = None
                for p in st.parts:
                    out = self.jflags(fr, out, self.exec_block(
                        fr, stmts[i:], p))
                return out
            st = self.exec_stmt(fr, s, st)
        return st

    def flags(self, func):
        """local variables used as boolean flags: set to True/False
        somewhere and tested"""
        got = self._flags.get(func)
        if got is None:
            setc, tested = set(), set()
            for n in walk_own(func.node):
                if isinstance(n, ast.Assign) and (isinstance(
                        n.value, ast.Constant) and isinstance(
                        n.value.value, bool) or flag_expr(n.value)):
                    setc |= {t.id for t in n.targets
                             if isinstance(t, ast.Name)}
                elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
                    tested |= {x.id for x in ast.walk(n.test)
                               if isinstance(x, ast.Name)}
                elif isinstance(n, ast.Return) and isinstance(
                        n.value, ast.Tuple):
                    tested |= {x.id for x in n.value.elts
                               if isinstance(x, ast.Name)}
            got = self._flags[func] = tuple(sorted(setc & tested))
        return got

    def repeated(self, func):
        """tests `x is <constant>` made more than once in a function"""
        got = self._repeated.get(func)
        if got is None:
            seen = {}
            for n in walk_own(func.node):
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                        isinstance(n.ops[0], ast.Is) and \
                        isinstance(n.left, ast.Name) and \
                        isinstance(n.comparators[0], ast.Constant) and \
                        isinstance(n.comparators[0].value, bool):
                    k = (n.left.id, ast.dump(n))
                    seen[k] = seen.get(k, 0) + 1
            got = self._repeated[func] = {k for k, v in seen.items()
                                          if v > 1}
        return got

    def jflags(self, fr, a, b):
        """join that keeps states with different flag values apart"""
        if a is None or b is None:
            return a if b is None else b
        flags = self.flags(fr.func)
        preds = tuple(('pred',) + k for k in sorted(self.repeated(fr.func)))
        if not flags and not preds:
            return jstate(a, b)
        states = (a.parts or [a]) + (b.parts or [b])
        for keys in (flags + preds, flags):
            groups = {}
            for s in states:
                k = tuple(flag_const(s.env.get(f)) for f in keys)
                groups[k] = jstate(groups.get(k), s)
            if len(groups) <= 6:
                break
        out = None
        for s in groups.values():
            out = jstate(out, s)
        if 1 < len(groups) <= 6:
            # jstate may have returned one of the parts itself
            out = State(dict(out.env), out.facts)
            out.parts = list(groups.values())
        return out

    def exec_stmt(self, fr, s, st):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise AnalysisError('unmodelled statement %s at %s' % (
                type(s).__name__, fr.func.loc(s)))
        if fr.trys:
            self.add_any(fr, st)
        return m(fr, s, st)

    def add_any(self, fr, st, facts=None):
        """some exception may leave here"""
        f = st.facts if facts is None else facts
        for t in reversed(fr.trys):
            ns = State(dict(st.env), f)
            t['any'] = self.jflags(fr, t['any'], ns)
            return
        s = fr.summary
        s.anyexc = f if s.anyexc is None else s.anyexc | f

    def add_exp(self, fr, st, name, facts=None):
        f = st.facts if facts is None else facts
        if fr.trys:
            t = fr.trys[-1]
            t['exp'][name] = jstate(t['exp'].get(name),
                                    State(dict(st.env), f))
            return
        s = fr.summary
        s.raises[name] = s.raises.get(name, EMPTY) | f
        s.anyexc = f if s.anyexc is None else s.anyexc | f

    def x_Expr(self, fr, s, st):
        v = self.eval(fr, s.value, st)
        if v is None:
            return None
        return st

    def x_Pass(self, fr, s, st):
        return st

    x_Global = x_Nonlocal = x_Pass

    def x_Import(self, fr, s, st):
        for a in s.names:
            if a.asname:
                nm, full = a.asname, a.name
            else:
                nm = full = a.name.split('.')[0]
            e = self.p.modules.get(full) or Ext(full)
            st.env[nm] = Val(ents=frozenset([e]))
        return st

    def x_ImportFrom(self, fr, s, st):
        base = self.p._abs_from(fr.func.module, s)
        for a in s.names:
            e = self.p.module_attr(base, a.name)
            if e is None and base + '.' + a.name in self.p.modules:
                e = self.p.modules[base + '.' + a.name]
            st.env[a.asname or a.name] = self.ent_val(e)
        return st

    def x_FunctionDef(self, fr, s, st):
        f = self.p.func_of_node.get(s)
        for d in s.decorator_list:
            self.eval(fr, d, st)
        for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
            self.eval(fr, d, st)
        st.env[s.name] = Val(ents=frozenset([Closure(f, st.env, fr)]),
                             types=frozenset(['func']))
        return st

    def x_ClassDef(self, fr, s, st):
        st.env[s.name] = Val(types=frozenset(['type']))
        return st

    def x_Return(self, fr, s, st):
        v = cval(None) if s.value is None else self.eval(fr, s.value, st)
        if v is None:
            return None
        st = self.run_finals(fr, st, 0)
        if st is not None:
            self._record_return(fr, st, v, s)
        return None

    def run_finals(self, fr, st, level):
        """run enclosing finally blocks / with exits from innermost to level"""
        n = len(fr.trys)
        saved = fr.trys
        for i in range(n - 1, level - 1, -1):
            fin = saved[i].get('final')
            if fin is not None:
                fr.trys = saved[:i]
                st = fin(st)
                if st is None:
                    break
        fr.trys = saved
        return st

    def x_Raise(self, fr, s, st):
        name = None
        if s.exc is not None:
            v = self.eval(fr, s.exc, st)
            if v is not None:
                name = self.exc_name(v, s.exc)
        else:
            name = getattr(self, '_handling', [None])[-1] \
                if getattr(self, '_handling', None) else None
        name = name or 'Exception'
        self.dom.on_raise(self, fr, st, s, name)
        self.add_exp(fr, st, name)
        return None

    def exc_name(self, v, node):
        for e in v.ents:
            if isinstance(e, Cls):
                return e.name
            if isinstance(e, Ext):
                return e.name.split('.')[-1]
        for t in v.types:
            if t.startswith('exc:'):
                return t[4:]
            n = t.lstrip('=')
            if n in self.nim.names:
                return n
        return None

    def x_Assert(self, fr, s, st):
        t, a, b = self.cond(fr, s.test, st)
        return a

    def x_Delete(self, fr, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                v = self.eval(fr, t.value, st)
                self.write(fr, st, v, (t.attr,), 'del', s, None)
            elif isinstance(t, ast.Subscript):
                v = self.eval(fr, t.value, st)
                self.eval(fr, t.slice, st)
                self.write(fr, st, v, ('[]',), 'del', s, None)
        return st

    def x_Assign(self, fr, s, st):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                flag_expr(s.value) and \
                s.targets[0].id in self.flags(fr.func):
            # flag = <test>: keep what the test says about other variables
            _, a, b = self.cond(fr, s.value, st.copy())
            if a is not None and b is not None:
                self.assign(fr, s.targets[0], cval(True), a, s)
                v = self.eval(fr, s.value, b)
                if isinstance(s.value, ast.BoolOp):
                    if v is not None and v.types and v.types <= {'bool'}:
                        v = cval(False)
                    elif v is not None and v.consts is not None:
                        v = v.with_(consts=None)
                else:
                    v = cval(False)
                if v is None:
                    return a
                self.assign(fr, s.targets[0], v, b, s)
                return self.jflags(fr, a, b)
        v = self.eval(fr, s.value, st)
        if v is None:
            return None
        if v.alts and len(s.targets) == 1 and isinstance(
                s.targets[0], ast.Tuple) and self.flags(fr.func):
            out = None
            for alt in v.alts:
                ns = st.copy()
                self.assign(fr, s.targets[0], alt, ns, s)
                out = self.jflags(fr, out, ns)
            return out
        for t in s.targets:
            self.assign(fr, t, v, st, s)
        return st

    def x_AnnAssign(self, fr, s, st):
        if s.value is None:
            return st
        v = self.eval(fr, s.value, st)
        if v is None:
            return None
        self.assign(fr, s.target, v, st, s)
        return st

    def x_AugAssign(self, fr, s, st):
        v = self.eval(fr, s.value, st)
        if v is None:
            return None
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval(fr, ast.copy_location(
                ast.Name(t.id, ast.Load()), t), st)
            new = self.aug(fr, cur, v, s, st)
            st.env[t.id] = new
        else:
            cur = self.eval(fr, t, st, )
            if cur is None:
                return None
            # in-place on the object itself, then store back
            self.aug(fr, cur, v, s, st)
            base = self.eval(fr, t.value, st)
            comp = t.attr if isinstance(t, ast.Attribute) else '[]'
            self.write(fr, st, base, (comp,), 'aug', s,
                       Val(types=cur.types))
        return st

    AUGDUNDER = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__',
                 'Div': '__itruediv__', 'FloorDiv': '__ifloordiv__',
                 'Mod': '__imod__', 'Pow': '__ipow__',
                 'MatMult': '__imatmul__', 'BitOr': '__ior__',
                 'BitAnd': '__iand__'}

    def aug(self, fr, cur, v, s, st):
        types = {t.lstrip('=') for t in cur.types}
        if types and types <= lib.SCALAR_TYPES | {'tuple'}:
            r = self.binop_val(cur, v, s.op)
            return r
        if types & (self.nim.data_names):
            op = self.AUGDUNDER.get(type(s.op).__name__)
            self.call_method(fr, st, s, cur, op, [v], {})
            return cur
        if types & {'list', 'nd', 'df', 'coo', 'csr', 'csc', 'dict', 'set'}:
            self.write(fr, st, cur, ('[]',), 'aug', s, v)
            return cur.with_(inner=cur.inner | v.reach
                             if 'list' in types else cur.inner,
                             consts=None, elts=None)
        if not types and cur.refs:
            # unknown: may be rebinding of a number or in-place on a container
            if v.types and v.types <= frozenset(['int', 'str', 'float',
                                                 'bool', 'scalar']):
                return Val(types=EMPTY)
            return cur.with_(consts=None, elts=None)
        return Val(types=cur.types & v.types if cur.types else EMPTY,
                   inner=cur.inner | (v.inner if v else EMPTY))

    def assign(self, fr, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            for k in [k for k in st.env if isinstance(k, tuple)
                      and k[0] in ('attr', 'pred', 'item') and k[1] == t.id]:
                del st.env[k]
            self.dom.on_assign(self, fr, st, t, v, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if v.elts is not None and len(v.elts) == n and \
                    not any(isinstance(e, ast.Starred) for e in t.elts):
                for e, x in zip(t.elts, v.elts):
                    self.assign(fr, e, x, st, node)
            else:
                ev = self.element(v)
                for e in t.elts:
                    if isinstance(e, ast.Starred):
                        self.assign(fr, e.value, Val(
                            inner=ev.reach, types=frozenset(['list'])),
                            st, node)
                    else:
                        self.assign(fr, e, ev, st, node)
        elif isinstance(t, ast.Attribute):
            b = self.eval(fr, t.value, st)
            self.set_attr(fr, st, b, t, v, node)
        elif isinstance(t, ast.Subscript):
            b = self.eval(fr, t.value, st)
            self.eval(fr, t.slice, st)
            if isinstance(t.value, ast.Name) and isinstance(
                    t.slice, ast.Constant) and isinstance(
                    t.slice.value, str):
                st.env['item', t.value.id, t.slice.value] = v
            self.set_item(fr, st, b, t, v, node)
        elif isinstance(t, ast.Starred):
            self.assign(fr, t.value, v, st, node)

    def set_attr(self, fr, st, b, t, v, node):
        # property setter?
        for c in self.classes_of(b):
            f = c.lookup_setter(t.attr)
            if f is not None:
                args = {f.pos[0]: b, f.pos[1]: v}
                self.apply(fr, st, node, f, c, args)
                return
        self.write(fr, st, b, (t.attr,), 'attr', node, v)
        for k in [k for k in st.env if type(k) is tuple and k[0] == 'empty']:
            del st.env[k]
        # field environment (strong update when one target)
        if len(b.refs) == 1:
            (root, path), = b.refs
            st.env['@', root, self.norm(fr, root, path + (t.attr,))] = v
        elif not b.refs and isinstance(t.value, ast.Name):
            st.env['attr', t.value.id, t.attr] = v
            cur = st.env.get(t.value.id)
            if cur is not None and t.attr in ('_data', '_dims', '_source'):
                # a new data object now holds this
                held = v.reach
                if t.attr == '_dims':
                    held = frozenset(r for r in v.refs
                                     if r[1][-1:] == ('_dims',))
                elif cur.inner and t.attr == '_data':
                    cur = cur.with_(inner=frozenset(
                        r for r in cur.inner if '_data' not in r[1]
                        or '_source' in r[1]))
                st.env[t.value.id] = cur.with_(inner=cur.inner | held)

    def set_item(self, fr, st, b, t, v, node):
        dcls = [c for c in self.classes_of(b) if self.nim.is_data(c) or
                c.lookup('__setitem__')]
        if dcls:
            self.call_method(fr, st, node, b, '__setitem__', [FRESH, v], {})
            return
        self.write(fr, st, b, ('[]',), 'item', node, v)
        # the container now reaches v
        self.contain(fr, st, t.value, v)

    def contain(self, fr, st, expr, v):
        """expr (a container) now holds v"""
        if v is None or not (v.refs or v.inner):
            return
        if isinstance(expr, ast.Name) and expr.id in st.env:
            cur = st.env[expr.id]
            st.env[expr.id] = cur.with_(inner=cur.inner | v.reach,
                                        elts=None, consts=None)
        elif isinstance(expr, ast.Subscript):
            self.contain(fr, st, expr.value, v)
        elif isinstance(expr, ast.Attribute):
            b = self.eval(fr, expr, st)

    def x_If(self, fr, s, st):
        t, a, b = self.cond(fr, s.test, st)
        oa = self.exec_block(fr, s.body, a) if a is not None else None
        ob = self.exec_block(fr, s.orelse, b) if b is not None else None
        return self.jflags(fr, oa, ob)

    def x_While(self, fr, s, st):
        return self._loop(fr, s, st, None)

    def x_For(self, fr, s, st):
        it = self.eval(fr, s.iter, st)
        if it is None:
            return None
        return self._loop(fr, s, st, it)

    def _loop(self, fr, s, st, it):
        loop = {'break': None, 'cont': None, 'level': len(fr.trys)}
        if not hasattr(fr.root, 'x'):
            pass
        stack = fr.nodeinfo.setdefault('loops', [])
        cur = st
        exit_state = None
        for i in range(4):
            loop['cont'] = None
            body_in = cur.copy()
            if it is not None:
                exit_state = jstate(exit_state, cur.copy())
                # element constants only when iterating a literal
                self.assign(fr, s.target, self.element(it), body_in, s)
                # `for x in it: it.write()` : element writes hit the source
                a = body_in
            else:
                t, a, b = self.cond(fr, s.test, body_in)
                if b is not None:
                    exit_state = jstate(exit_state, b)
                if a is None:
                    break
            stack.append(loop)
            out = self.exec_block(fr, s.body, a)
            stack.pop()
            out = jstate(out, loop['cont'])
            if out is None:
                break
            nxt = jstate(cur, out)
            if i >= 1:
                nxt = self.widen(cur, nxt)
            if nxt.same(cur):
                break
            cur = nxt
        if it is not None:
            exit_state = jstate(exit_state, cur)
        if s.orelse and exit_state is not None:
            exit_state = self.exec_block(fr, s.orelse, exit_state.copy())
        return jstate(exit_state, loop['break'])

    def widen(self, old, new):
        env = {}
        for k, v in new.env.items():
            o = old.env.get(k)
            if o is not None and o != v and v.consts is not None and \
                    o.consts is not None and v.consts != o.consts:
                v = v.with_(consts=None)
            if o is not None and o != v and v.elts is not None:
                v = v.with_(elts=None)
            env[k] = v
        return State(env, new.facts)

    x_AsyncFor = x_For

    def x_Break(self, fr, s, st):
        lp = fr.nodeinfo['loops'][-1]
        st = self.run_finals(fr, st, lp['level'])
        if st is not None:
            lp['break'] = jstate(lp['break'], st)
        return None

    def x_Continue(self, fr, s, st):
        lp = fr.nodeinfo['loops'][-1]
        st = self.run_finals(fr, st, lp['level'])
        if st is not None:
            lp['cont'] = jstate(lp['cont'], st)
        return None

    # ------------------------------------------------------- try / with
    def exc_mro(self, name):
        got = self.exc_sub_cache.get(name)
        if got is None:
            got = [name]
            c = self.nim.names.get(name)
            if c is not None:
                for k in c.mro():
                    got.append(k.name)
                    for e in k.extbases:
                        got += self.exc_mro(e.split('.')[-1])
            for b in BUILTIN_EXC.get(name, ()):
                got += self.exc_mro(b)
            self.exc_sub_cache[name] = got
        return got

    def handler_names(self, fr, h, st):
        if h.type is None:
            return ['BaseException']
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            d = dotted(t)
            out.append(d.split('.')[-1] if d else '?')
        return out

    def x_Try(self, fr, s, st):
        final = None
        outer = fr.trys
        if s.finalbody:
            def final(state):
                return self.exec_block(fr, s.finalbody, state.copy())
        ctx = {'any': None, 'exp': {}, 'final': final}
        fr.trys = outer + [ctx]
        out = self.exec_block(fr, s.body, st.copy())
        # orelse: exceptions there go past the handlers
        ctx2 = {'any': None, 'exp': {}, 'final': final}
        fr.trys = outer + [ctx2]
        if out is not None and s.orelse:
            out = self.exec_block(fr, s.orelse, out)
        normal = out
        pend_any, pend_exp = ctx['any'], dict(ctx['exp'])
        caught_all = False
        for h in s.handlers:
            names = self.handler_names(fr, h, st)
            all_ = any(n in ('Exception', 'BaseException') for n in names)
            hs = None
            hname = None
            if not caught_all and pend_any is not None:
                hs = self.jflags(fr, hs, pend_any)
            for n in list(pend_exp):
                if any(x in self.exc_mro(n) for x in names):
                    hs = jstate(hs, pend_exp.pop(n))
                    hname = n
                elif any(n in self.exc_mro(x) for x in names):
                    hs = jstate(hs, pend_exp[n])
            if hs is None:
                continue
            hparts = hs.parts
            hs = hs.copy()
            if hparts:
                hs.parts = [x.copy() for x in hparts]
            for x in [hs] + (hs.parts or []):
                if h.name:
                    x.env[h.name] = Val(types=frozenset(
                        ['exc:' + n for n in names]))
            if not hasattr(self, '_handling'):
                self._handling = []
            self._handling.append(hname or names[0])
            ho = self.exec_block(fr, h.body, hs)
            self._handling.pop()
            normal = self.jflags(fr, normal, ho)
            if all_:
                caught_all = True
        fr.trys = outer
        if s.finalbody and normal is not None:
            normal = self.exec_block(fr, s.finalbody, normal)
        rest_any = ctx2['any']
        if not caught_all:
            rest_any = jstate(rest_any, pend_any)
        if rest_any is not None:
            e = final(rest_any) if final else rest_any
            if e is not None:
                self.add_any(fr, e)
        for src in (pend_exp, ctx2['exp']):
            for n, e in src.items():
                if final:
                    e = final(e)
                if e is not None:
                    self.add_exp(fr, e, n)
        return normal

    x_TryStar = x_Try

    def x_With(self, fr, s, st):
        return self._with(fr, s, 0, st)

    def _with(self, fr, s, i, st):
        if i >= len(s.items):
            return self.exec_block(fr, s.body, st)
        item = s.items[i]
        v = self.eval(fr, item.context_expr, st)
        if v is None:
            return None
        self.dom.on_with_enter(self, fr, st, item, v)
        if item.optional_vars is not None:
            self.assign(fr, item.optional_vars, v, st, s)
        outer = fr.trys

        def final(state):
            state = state.copy()
            self.dom.on_with_exit(self, fr, state, item, v)
            return state
        ctx = {'any': None, 'exp': {}, 'final': final}
        fr.trys = outer + [ctx]
        self.add_any(fr, st)
        out = self._with(fr, s, i + 1, st.copy())
        fr.trys = outer
        if out is not None:
            out = final(out)
        if ctx['any'] is not None:
            self.add_any(fr, final(ctx['any']))
        for n, e in ctx['exp'].items():
            self.add_exp(fr, final(e), n)
        swallow = any(isinstance(e, Ext) and e.name == 'contextlib.suppress'
                      for e in v.ents)
        if swallow and ctx['any'] is not None:
            out = jstate(out, final(ctx['any']))
        return out

    # ========================================================= conditions
    def cond(self, fr, test, st):
        """(truth, state if true, state if false); states are copies"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, a, b = self.cond(fr, test.operand, st)
            return (None if t is None else not t), b, a
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            cur = st
            other = None
            truth = True
            for v in test.values:
                t, a, b = self.cond(fr, v, cur)
                if isand:
                    other = jstate(other, b)
                    cur = a
                    if t is None:
                        truth = None
                else:
                    other = jstate(other, a)
                    cur = b
                    if t is None:
                        truth = None
                if cur is None:
                    break
            if isand:
                res = None if cur is not None and other is not None else \
                    (cur is not None)
                return res, cur, other
            res = None if cur is not None and other is not None else \
                (other is not None)
            return res, other, cur
        v = self.eval(fr, test, st)
        if v is None:
            return None, None, None
        t = None
        pk = self.pred_key(fr, test)
        if pk is not None and pk in st.env:
            t = next(iter(st.env[pk].consts))
        if v.consts is not None and v.consts:
            ts = {bool(c) for c in v.consts}
            if len(ts) == 1:
                t = ts.pop()
        if t is None and v.ents and not v.consts and not v.types:
            if all(isinstance(e, (Func, Cls, Module, Ext, Bound, Closure))
                   for e in v.ents):
                t = True
        if t is True:
            return True, st.copy(), None
        if t is False:
            return False, None, st.copy()
        a, b = st.copy(), st.copy()
        self.refine(fr, test, st, a, b)
        if pk is not None:
            a.env[pk], b.env[pk] = cval(True), cval(False)
        elif isinstance(test, ast.Attribute) and test.attr == 'empty':
            w = self.eval(fr, test.value, st.copy())
            if w is not None and w.refs:
                # an empty frame has no storage to share
                a.env['empty', w.refs] = cval(True)
        return None, a, b

    def pred_key(self, fr, test):
        if isinstance(test, ast.Call) and len(test.args) == 1 and \
                not test.keywords and isinstance(test.args[0], ast.Name) \
                and dotted(test.func):
            r = self.p.resolve_expr(fr.func.module, test.func)
            if isinstance(r, Func) and self.func_pred(r):
                return ('pred', test.args[0].id, r.qual)
        if isinstance(test, ast.Compare) and isinstance(
                test.left, ast.Name) and (
                test.left.id, ast.dump(test)) in self.repeated(fr.func):
            return ('pred', test.left.id, ast.dump(test))
        return None

    def refine(self, fr, test, st, a, b):
        if isinstance(test, ast.Name):
            v = a.env.get(test.id)
            if v is not None and v.consts is not None:
                a.env[test.id] = self._filter(v, lambda c: bool(c))
                b.env[test.id] = self._filter(v, lambda c: not c)
        elif isinstance(test, ast.Call) and test.args and \
                isinstance(test.args[0], ast.Name):
            nm = test.args[0].id
            v = a.env.get(nm)
            if v is None:
                return
            if isinstance(test.func, ast.Name) and \
                    test.func.id == 'isinstance' and len(test.args) == 2:
                tags = self.type_tags(fr, test.args[1], st)
                exact = True
            else:
                tags, exact = self.pred_tags(fr, test, st)
            if tags:
                keep = self.subtags(v.types, tags)
                na = v.with_(types=frozenset(keep or tags))
                if tags <= set(self.nim.names):
                    # raw storage never is (or holds) a nimble object
                    na = na.with_(
                        refs=frozenset(r for r in v.refs
                                       if '_data' not in r[1]),
                        inner=frozenset(r for r in v.inner
                                        if '_data' not in r[1]))
                a.env[nm] = na
                if v.types and exact:
                    rest = v.types - frozenset(keep)
                    if rest:
                        b.env[nm] = v.with_(types=rest)
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.left, ast.Name):
            nm = test.left.id
            v = a.env.get(nm)
            if v is None:
                return
            rv = self.eval(fr, test.comparators[0], st.copy())
            op = test.ops[0]
            if rv is None:
                return
            if isinstance(op, (ast.Is, ast.Eq)) or \
                    isinstance(op, (ast.IsNot, ast.NotEq)):
                pos, neg = (a, b) if isinstance(op, (ast.Is, ast.Eq)) \
                    else (b, a)
                if rv.consts is not None and len(rv.consts) == 1:
                    c, = rv.consts
                    if v.consts is not None:
                        pos.env[nm] = self._filter(v, lambda x: x == c)
                        neg.env[nm] = self._filter(v, lambda x: x != c)
                    elif isinstance(op, (ast.Is, ast.IsNot)) or \
                            isinstance(c, str):
                        pos.env[nm] = Val(types=frozenset([ctype(c)]),
                                          consts=frozenset([c]))
                        if c is None and 'None' in v.types and \
                                len(v.types) > 1:
                            neg.env[nm] = v.with_(types=v.types - {'None'})
            elif isinstance(op, (ast.In, ast.NotIn)):
                pos, neg = (a, b) if isinstance(op, ast.In) else (b, a)
                cs = self.elt_consts(rv)
                if cs is not None:
                    if v.consts is not None:
                        pos.env[nm] = self._filter(v, lambda x: x in cs)
                        neg.env[nm] = self._filter(v, lambda x: x not in cs)
                    elif len(cs) <= MAXCONST and \
                            all(isinstance(c, str) for c in cs):
                        pos.env[nm] = Val(types=frozenset(['str']),
                                          consts=frozenset(cs))

    def elt_consts(self, v):
        if v.elts is None:
            return None
        out = set()
        for e in v.elts:
            if e.consts is None:
                return None
            out |= e.consts
        return out

    def _filter(self, v, pred):
        cs = frozenset(c for c in v.consts if pred(c))
        if not cs:
            return v
        return Val(types=frozenset(ctype(c) for c in cs), consts=cs)

    PYTAG = {'list': 'list', 'dict': 'dict', 'str': 'str', 'int': 'int',
             'float': 'float', 'bool': 'bool', 'tuple': 'tuple',
             'set': 'set', 'bytes': 'bytes', 'type': 'type',
             'slice': 'slice', 'range': 'range', 'frozenset': 'frozenset'}
    EXTTAG = {'numpy.ndarray': 'nd', 'numpy.matrix': 'nd',
              'pandas.DataFrame': 'df', 'pandas.Series': 'df',
              'scipy.sparse.coo_matrix': 'coo',
              'scipy.sparse.spmatrix': 'coo', 'pandas.SparseDataFrame': 'df',
              'numpy.integer': 'int',
              'numpy.number': 'scalar', 'numbers.Number': 'scalar'}

    def type_tags(self, fr, node, st):
        """tags of an isinstance() second argument; None if any unknown"""
        v = self.eval(fr, node, st.copy())
        if v is None:
            return None
        vs = v.elts if v.elts is not None else [v]
        out = set()
        for x in vs:
            if not x.ents:
                return None
            for e in x.ents:
                if isinstance(e, Cls):
                    out.add(e.name)
                elif isinstance(e, Ext):
                    n = e.name
                    if n.startswith('builtins.'):
                        t = self.PYTAG.get(n[9:])
                    else:
                        t = self.EXTTAG.get(n)
                    if t is None:
                        return None
                    out.add(t)
                else:
                    return None
        return out

    SPARSE_TAGS = frozenset(['coo', 'csr', 'csc'])
    EXTPRED = {'scipy.sparse.issparse': SPARSE_TAGS,
               'scipy.sparse.isspmatrix': SPARSE_TAGS,
               'scipy.sparse.isspmatrix_coo': frozenset(['coo']),
               'scipy.sparse.isspmatrix_csr': frozenset(['csr']),
               'scipy.sparse.isspmatrix_csc': frozenset(['csc'])}

    def pred_tags(self, fr, call, st):
        """(types the first argument has if the call is true, whether it is
        true for all of them); (None, False) if the call is no type test"""
        v = self.eval(fr, call.func, st.copy())
        if v is None or len(v.ents) != 1:
            return None, False
        (e,) = v.ents
        if isinstance(e, Ext):
            return self.EXTPRED.get(e.name), True
        if isinstance(e, Func):
            t = self.func_pred(e)
            return t, False
        return None, False

    def func_pred(self, f, _seen=()):
        """types of the first parameter of f if f returns something true"""
        got = self._preds.get(f, 0)
        if got != 0:
            return got
        if f in _seen or not f.pos or isinstance(f.node, ast.Lambda) or \
                f.method_self or f.is_generator:
            return None
        p = f.pos[0]
        local = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        local.setdefault(t.id, []).append(n.value)

        def static_tags(e):
            if isinstance(e, (ast.Tuple, ast.List)):
                out = set()
                for x in e.elts:
                    t = static_tags(x)
                    if t is None:
                        return None
                    out |= t
                return out
            if isinstance(e, ast.Name) and e.id in local:
                out = set()
                for x in local[e.id]:
                    t = static_tags(x)
                    if t is None:
                        return None
                    out |= t
                return out
            if not dotted(e):
                return None
            r = self.p.resolve_expr(f.module, e)
            if isinstance(r, Cls):
                return {r.name}
            if isinstance(r, Ext):
                t = self.EXTTAG.get(r.name)
                return {t} if t else None
            t = self.PYTAG.get(dotted(e))
            return {t} if t else None

        def pred(e):
            if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
                for x in e.values:
                    t = pred(x)
                    if t:
                        return t
                return None
            if not (isinstance(e, ast.Call) and e.args and
                    isinstance(e.args[0], ast.Name) and e.args[0].id == p):
                return None
            if dotted(e.func) == 'isinstance' and len(e.args) == 2:
                return static_tags(e.args[1])
            r = self.p.resolve_expr(f.module, e.func) \
                if dotted(e.func) else None
            if isinstance(r, Ext):
                return self.EXTPRED.get(r.name)
            if isinstance(r, Func):
                return self.func_pred(r, _seen + (f,))
            return None
        tags = set()
        ok = [True]

        def walk(stmts, guard):
            for s in stmts:
                if isinstance(s, ast.Return):
                    if s.value is None or (
                            isinstance(s.value, ast.Constant)
                            and not s.value.value):
                        continue
                    t = pred(s.value) or guard
                    if t is None:
                        ok[0] = False
                    else:
                        tags.update(t)
                elif isinstance(s, ast.If):
                    walk(s.body, pred(s.test) or guard)
                    walk(s.orelse, guard)
                elif isinstance(s, (ast.With, ast.For, ast.While, ast.Try)):
                    for fld in ('body', 'orelse', 'finalbody'):
                        walk(getattr(s, fld, None) or [], guard)
                    for h in getattr(s, 'handlers', None) or []:
                        walk(h.body, guard)
        if any(isinstance(n, ast.Name) and n.id == p and isinstance(
                n.ctx, ast.Store) for n in walk_own(f.node)):
            ok[0] = False
        else:
            walk(f.node.body, None)
        got = frozenset(tags) if ok[0] and tags else None
        self._preds[f] = got
        return got

    def subtags(self, types, tags):
        out = set()
        for t in types:
            n = t.lstrip('=')
            if n in tags:
                out.add(t)
            elif n in self.nim.names:
                c = self.nim.names[n]
                if any(g in self.nim.names and c.issub(self.nim.names[g])
                       for g in tags):
                    out.add(t)
        return out

    def isinst(self, v, tags):
        """definite isinstance answer or None"""
        if v.consts is not None and v.consts:
            res = set()
            for c in v.consts:
                t = 'NoneType' if c is None else type(c).__name__
                r = t in tags or (t == 'bool' and 'int' in tags) or \
                    (t in ('int', 'float', 'bool') and 'scalar' in tags)
                res.add(r)
            return res.pop() if len(res) == 1 else None
        if not v.types or tags is None:
            return None
        res = set()
        for t in v.types:
            n = t.lstrip('=')
            c = self.nim.names.get(n)
            if c is not None:
                ok = None
                for g in tags:
                    gc = self.nim.names.get(g)
                    if gc is None:
                        continue
                    if c.issub(gc):
                        ok = True
                    elif gc.issub(c) and not t.startswith('=') and not ok:
                        ok = 'maybe'
                    elif not ok and not t.startswith('=') and any(
                            s.issub(gc) for s in c.all_subs()):
                        ok = 'maybe'
                res.add(ok or False)
            elif n in ('list', 'dict', 'str', 'set', 'None', 'nd', 'df',
                       'coo', 'tuple', 'bool'):
                if n in tags or (n == 'bool' and 'int' in tags):
                    res.add(True)
                elif n in ('str', 'tuple') and 'scalar' not in tags:
                    res.add(False)
                elif all(g in self.nim.names or g in
                         ('list', 'dict', 'str', 'set', 'tuple', 'nd', 'df',
                          'int', 'float', 'bool') for g in tags):
                    res.add(False)
                else:
                    res.add('maybe')
            elif n in ('int', 'float'):
                if n in tags or 'scalar' in tags:
                    res.add(True)
                elif tags & {'int', 'float', 'bool', 'scalar'}:
                    res.add('maybe')
                else:
                    res.add(False)
            else:
                res.add('maybe')
        if res == {True}:
            return True
        if res == {False}:
            return False
        return None

    # ======================================================== expressions
    def eval(self, fr, e, st):
        """Val, or None when evaluation never completes normally"""
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisError('unmodelled expression %s at %s' % (
                type(e).__name__, fr.func.loc(e)))
        return m(fr, e, st)

    def evals(self, fr, es, st):
        out = []
        for e in es:
            v = self.eval(fr, e, st)
            if v is None:
                return None
            out.append(v)
        return out

    def ent_val(self, e):
        if e is None:
            return FRESH
        if isinstance(e, Var):
            return self.var_val(e)
        return Val(ents=frozenset([e]))

    def var_val(self, v):
        key = ('var', v.module.name, v.name)
        got = self.cache.get(key)
        if got is None:
            types, consts, elts = EMPTY, None, None
            n = v.value
            if isinstance(n, ast.Constant):
                types, consts = frozenset([ctype(n.value)]), \
                    frozenset([n.value])
                # a module constant may be rebound at run time: keep the type
                if not v.name.isupper():
                    consts = None
            elif isinstance(n, (ast.List, ast.ListComp)):
                types = frozenset(['list'])
            elif isinstance(n, (ast.Dict, ast.DictComp)):
                types = frozenset(['dict'])
            elif isinstance(n, (ast.Set, ast.SetComp)):
                types = frozenset(['set'])
            elif isinstance(n, ast.Tuple):
                types = frozenset(['tuple'])
            elif isinstance(n, ast.Call):
                c = self.p.resolve_expr(v.module, n.func)
                if isinstance(c, Cls):
                    types = frozenset([c.name])
                elif isinstance(c, Ext) and c.name in lib.RESULT_TYPES:
                    t = lib.RESULT_TYPES[c.name]
                    types = frozenset([t]) if t else EMPTY
            if isinstance(n, (ast.List, ast.Tuple)) and all(
                    isinstance(x, ast.Constant) for x in n.elts) and \
                    len(n.elts) <= 40:
                elts = tuple(cval(x.value) for x in n.elts)
            got = Val(refs=frozenset([('G:' + v.qual, ())]), types=types,
                      consts=consts, elts=elts)
            self.cache[key] = got
        return got

    def e_Constant(self, fr, e, st):
        return cval(e.value)

    def e_Name(self, fr, e, st):
        v = st.env.get(e.id)
        if v is not None:
            return v
        # closure variables of an enclosing frame are already in env
        ent = self.p.resolve_name(fr.func.module, e.id)
        if ent is not None:
            return self.ent_val(ent)
        if e.id in PYBUILTINS:
            if e.id == 'NotImplemented':
                return tval('scalar')
            return Val(ents=frozenset([Ext('builtins.' + e.id)]))
        f = fr.func.parent
        while f is not None:
            if e.id in f.params:
                return FRESH
            f = f.parent
        return FRESH

    def e_JoinedStr(self, fr, e, st):
        parts = [[]]
        ok = True
        acc = {''}
        for v in e.values:
            if isinstance(v, ast.Constant):
                acc = {a + str(v.value) for a in acc}
            else:
                x = self.eval(fr, v.value, st)
                if x is None:
                    return None
                if x.consts is not None and v.conversion == -1 and \
                        v.format_spec is None and len(x.consts) <= 4:
                    acc = {a + str(c) for a in acc for c in x.consts}
                else:
                    ok = False
            if len(acc) > MAXCONST:
                ok = False
                acc = {''}
        return Val(types=frozenset(['str']),
                   consts=frozenset(acc) if ok else None)

    def e_FormattedValue(self, fr, e, st):
        self.eval(fr, e.value, st)
        return tval('str')

    def e_List(self, fr, e, st):
        vs = []
        inner = set()
        star = False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                star = True
                v = self.eval(fr, x.value, st)
                if v is None:
                    return None
                inner |= self.element(v).reach
                continue
            v = self.eval(fr, x, st)
            if v is None:
                return None
            vs.append(v)
            inner |= v.reach
        tag = {'List': 'list', 'Tuple': 'tuple', 'Set': 'set'}[
            type(e).__name__]
        ents = EMPTY
        return Val(inner=frozenset(inner), types=frozenset([tag]),
                   elts=None if star or len(vs) > 40 else tuple(vs))

    e_Tuple = e_Set = e_List

    def e_Dict(self, fr, e, st):
        inner = set()
        for k, v in zip(e.keys, e.values):
            if k is not None:
                if self.eval(fr, k, st) is None:
                    return None
            x = self.eval(fr, v, st)
            if x is None:
                return None
            if k is None:
                inner |= self.element(x).reach
            else:
                inner |= x.reach
        return Val(inner=frozenset(inner), types=frozenset(['dict']))

    def _comp(self, fr, e, st, elts, tag):
        sub = st.copy()
        inner = set()

        def rec(i, s):
            if i == len(e.generators):
                for x in elts:
                    v = self.eval(fr, x, s)
                    if v is not None:
                        inner.update(v.reach)
                return
            g = e.generators[i]
            it = self.eval(fr, g.iter, s)
            if it is None:
                return
            self.assign(fr, g.target, self.element(it), s, e)
            for c in g.ifs:
                t, a, b = self.cond(fr, c, s)
                if a is None:
                    return
                s = a
            rec(i + 1, s)
            sub.facts = sub.facts | s.facts
        rec(0, sub)
        # facts: comprehension may run zero or more times
        st.facts = st.facts | sub.facts
        return Val(inner=frozenset(inner), types=frozenset([tag]))

    def e_ListComp(self, fr, e, st):
        return self._comp(fr, e, st, [e.elt], 'list')

    def e_SetComp(self, fr, e, st):
        return self._comp(fr, e, st, [e.elt], 'set')

    def e_GeneratorExp(self, fr, e, st):
        return self._comp(fr, e, st, [e.elt], 'iter')

    def e_DictComp(self, fr, e, st):
        return self._comp(fr, e, st, [e.key, e.value], 'dict')

    def e_Lambda(self, fr, e, st):
        f = self.p.func_of_node.get(e)
        return Val(ents=frozenset([Closure(f, st.env, fr)]),
                   types=frozenset(['func']))

    def e_IfExp(self, fr, e, st):
        t, a, b = self.cond(fr, e.test, st)
        va = self.eval(fr, e.body, a) if a is not None else None
        vb = self.eval(fr, e.orelse, b) if b is not None else None
        ns = jstate(a if va is not None else None,
                    b if vb is not None else None)
        if ns is None:
            return None
        st.env.update(ns.env)
        st.facts = ns.facts
        return join(va, vb)

    def e_BoolOp(self, fr, e, st):
        t, a, b = self.cond(fr, e, st)
        out = None
        cur = st
        for x in e.values:
            v = self.eval(fr, x, cur)
            if v is None:
                break
            out = join(out, v) if out is not None else v
            tt, aa, bb = self.cond(fr, x, cur.copy())
            cur = aa if isinstance(e.op, ast.And) else bb
            if cur is None:
                break
        if out is None:
            return None
        ns = jstate(a, b)
        if ns is not None:
            st.facts = ns.facts
        if t is not None:
            out = out.with_(consts=frozenset([t]),
                            types=frozenset(['bool'])) \
                if not out.refs and not out.inner and not out.ents else out
        elif out.consts is not None:
            out = out.with_(consts=None)
        return out

    def e_UnaryOp(self, fr, e, st):
        if isinstance(e.op, ast.Not):
            t, a, b = self.cond(fr, e.operand, st)
            ns = jstate(a, b)
            if ns is None:
                return None
            st.facts = ns.facts
            if t is None:
                return tval('bool')
            return cval(not t)
        v = self.eval(fr, e.operand, st)
        if v is None:
            return None
        if v.consts is not None and len(v.consts) == 1:
            c, = v.consts
            try:
                if isinstance(e.op, ast.USub):
                    return cval(-c)
            except TypeError:
                pass
        if v.types & self.data_tags():
            return Val(types=frozenset(['Base']))
        return Val(types=v.types)

    def data_tags(self):
        if not hasattr(self, '_dt'):
            self._dt = frozenset(self.nim.data_names) | frozenset(
                '=' + n for n in self.nim.data_names)
        return self._dt

    DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv',
              'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow',
              'MatMult': 'matmul', 'BitAnd': 'and', 'BitOr': 'or',
              'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift'}

    def e_BinOp(self, fr, e, st):
        a = self.eval(fr, e.left, st)
        if a is None:
            return None
        b = self.eval(fr, e.right, st)
        if b is None:
            return None
        if self.data_classes(a):
            return self.call_method(fr, st, e, a, '__%s__' % self.DUNDER[
                type(e.op).__name__], [b], {})
        return self.binop_val(a, b, e.op)

    def binop_val(self, a, b, op):
        if a.consts is not None and b.consts is not None and \
                len(a.consts) * len(b.consts) <= MAXCONST:
            out = set()
            try:
                for x in a.consts:
                    for y in b.consts:
                        if isinstance(op, ast.Add):
                            out.add(x + y)
                        elif isinstance(op, ast.Sub):
                            out.add(x - y)
                        elif isinstance(op, ast.Mod) and isinstance(x, str):
                            out.add(x % y)
                        elif isinstance(op, ast.Mult) and \
                                isinstance(x, int) and isinstance(y, int):
                            out.add(x * y)
                        else:
                            raise TypeError
                return Val(types=frozenset(ctype(x) for x in out),
                           consts=frozenset(out))
            except (TypeError, ValueError):
                pass
        ta = {t.lstrip('=') for t in a.types}
        tb = {t.lstrip('=') for t in b.types}
        if ta & self.nim.data_names or tb & self.nim.data_names:
            return Val(types=frozenset(['Base']))
        if 'str' in ta and ta == {'str'}:
            return tval('str')
        if ta and ta <= {'list', 'tuple'}:
            return Val(inner=a.inner | b.inner |
                       self.element(a).reach | self.element(b).reach,
                       types=frozenset(ta))
        for t in ('coo', 'csr', 'csc', 'nd', 'df'):
            if t in ta or t in tb:
                return tval(t)
        if ta and tb and ta <= lib.SCALAR_TYPES and tb <= lib.SCALAR_TYPES:
            return tval('scalar')
        return Val()

    def e_Compare(self, fr, e, st):
        left = self.eval(fr, e.left, st)
        if left is None:
            return None
        vals = [left]
        for c in e.comparators:
            v = self.eval(fr, c, st)
            if v is None:
                return None
            vals.append(v)
        if len(e.ops) == 1:
            r = self.compare(e.ops[0], vals[0], vals[1])
            if r is not None:
                return cval(r)
            if self.data_classes(vals[0]) and isinstance(
                    e.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                return Val(types=frozenset(['Base']))
            if isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                return tval('bool')
            t = vals[0].types | vals[1].types
            if t & {'nd', 'df', 'coo', 'csr', 'csc'}:
                return tval('nd')
            if t and t <= lib.SCALAR_TYPES:
                return tval('bool')
            return Val()
        return Val()

    def compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            cs = self.elt_consts(b)
            neg = isinstance(op, ast.NotIn)
            if cs is None and b.consts is not None and \
                    a.consts is not None and \
                    all(isinstance(x, str) for x in b.consts | a.consts):
                rs = {(x in y) for x in a.consts for y in b.consts}
                if len(rs) == 1:
                    return rs.pop() != neg
                return None
            if cs is not None and a.consts is not None:
                rs = {x in cs for x in a.consts}
                if len(rs) == 1 and (len(cs) == len(b.elts) or True):
                    # element sets are exact only if every elt is one const
                    if all(len(x.consts) == 1 for x in b.elts):
                        return rs.pop() != neg
            return None
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if b.consts == frozenset([None]):
                if a.consts is not None:
                    rs = {x is None for x in a.consts}
                    if len(rs) == 1:
                        return rs.pop() != neg
                    return None
                if a.types and 'None' not in a.types:
                    return neg
                if a.ents and not a.types:
                    return neg
            if a.consts is not None and b.consts is not None and \
                    len(a.consts) == 1 and len(b.consts) == 1:
                x, = a.consts
                y, = b.consts
                return (x is y or (x == y and type(x) is type(y))) != neg
            return None
        if a.consts is None or b.consts is None:
            # comparing a non-str typed value with a str const
            if isinstance(op, (ast.Eq, ast.NotEq)):
                for x, y in ((a, b), (b, a)):
                    if y.consts is not None and x.types and \
                            all(isinstance(c, str) for c in y.consts) and \
                            x.types <= {'func', 'int', 'float', 'list',
                                        'dict', 'None', 'tuple'}:
                        return isinstance(op, ast.NotEq)
            return None
        rs = set()
        for x in a.consts:
            for y in b.consts:
                try:
                    r = {'Eq': lambda: x == y, 'NotEq': lambda: x != y,
                         'Lt': lambda: x < y, 'LtE': lambda: x <= y,
                         'Gt': lambda: x > y, 'GtE': lambda: x >= y}[
                        type(op).__name__]()
                except TypeError:
                    return None
                rs.add(bool(r))
        return rs.pop() if len(rs) == 1 else None

    def e_Starred(self, fr, e, st):
        return self.eval(fr, e.value, st)

    def e_NamedExpr(self, fr, e, st):
        v = self.eval(fr, e.value, st)
        if v is not None:
            self.assign(fr, e.target, v, st, e)
        return v

    def e_Slice(self, fr, e, st):
        for x in (e.lower, e.upper, e.step):
            if x is not None and self.eval(fr, x, st) is None:
                return None
        return tval('slice')

    def e_Yield(self, fr, e, st):
        v = self.eval(fr, e.value, st) if e.value is not None else cval(None)
        if v is None:
            return None
        fr.retstate = (fr.retstate or EMPTY) | v.reach
        self.add_any(fr, st)
        return FRESH

    e_YieldFrom = e_Yield

    def e_Await(self, fr, e, st):
        return self.eval(fr, e.value, st)

    # ----------------------------------------------------- storage access
    def norm(self, fr, root, path):
        out = []
        for c in path:
            if c == '_points':
                c = 'points'
            elif c == '_features':
                c = 'features'
            if c == '_base' and out and out[-1] in ('points', 'features'):
                out.pop()
                continue
            if c in ('points', 'features') and out == ['_base'] and \
                    root == fr.func.method_self and fr.ctx is not None:
                ax = self.nim.points if c == 'points' else self.nim.features
                if fr.ctx.issub(ax):
                    out.pop()
                    continue
            if c == '[]' and len(out) >= 2 and out[-1] == '[]' and \
                    out[-2] == '[]':
                continue
            out.append(c)
        return tuple(out[:MAXPATH])

    SCALAR_ELTS = {'names', 'namesInverse', '_dims', 'shape', 'dimensions'}

    def extend(self, fr, refs, comp):
        if comp == '[]':
            # entries of names / dimensions are immutable values
            refs = [(r, p) for r, p in refs
                    if not (p and p[-1] in self.SCALAR_ELTS)]
        return frozenset((r, self.norm(fr, r, p + (comp,))) for r, p in refs)

    def classes_of(self, v):
        out = []
        for t in v.types:
            c = self.nim.names.get(t.lstrip('='))
            if c is not None and c not in out:
                out.append(c)
        return out

    def data_classes(self, v):
        return [c for c in self.classes_of(v) if self.nim.is_data(c)]

    def element(self, v):
        """abstract element of an iterable"""
        if v.elts is not None and v.elts:
            return joinall(v.elts)
        types = {t.lstrip('=') for t in v.types}
        if types & {'str'} and types == {'str'}:
            return tval('str')
        if types == {'range'}:
            return tval('int')
        cl = self.classes_of(v)
        if cl:
            out = None
            for c in cl:
                if self.nim.is_axis(c):
                    out = join(out, Val(types=frozenset(['BaseView'])))
                elif self.nim.is_data(c):
                    out = join(out, Val())
            if out is not None:
                return out
        et = EMPTY
        if types == {'list'} and v.refs and not v.inner and \
                all(p and p[-1] == '_data' for _, p in v.refs):
            et = frozenset(['list'])     # rows of two dimensional storage
        if types == {'list'} and v.refs and not v.inner and \
                all(p[-2:] == ('_data', '[]') for _, p in v.refs):
            return Val()                 # values in such a row
        held = v.refs | v.inner
        if not types - {'dict', 'iter'} and held:
            gs = {self.nim.global_elems.get(r) for r, p in held}
            if len(gs) == 1 and None not in gs:
                et = frozenset(gs)
        refs = frozenset((r, (p + ('[]',))[:MAXPATH]) for r, p in v.refs
                         if not (p and p[-1] in self.SCALAR_ELTS))
        refs = frozenset((r, self._trim(p)) for r, p in refs)
        return Val(refs=refs | v.inner, inner=v.inner, types=et)

    @staticmethod
    def _trim(p):
        if len(p) >= 3 and p[-1] == p[-2] == p[-3] == '[]':
            return p[:-1]
        return p

    def e_Subscript(self, fr, e, st):
        v = self.eval(fr, e.value, st)
        if v is None:
            return None
        i = self.eval(fr, e.slice, st)
        if i is None:
            return None
        types = {t.lstrip('=') for t in v.types}
        # nimble object
        cl = self.classes_of(v)
        if cl:
            f = [c for c in cl if c.lookup('__getitem__')]
            if f:
                return self.call_method(fr, st, e, v, '__getitem__', [i], {})
        isslice = isinstance(e.slice, ast.Slice)
        if v.consts is not None and types == {'str'} and isslice:
            try:
                lo = self._ci(e.slice.lower)
                hi = self._ci(e.slice.upper)
                step = self._ci(e.slice.step)
                return Val(types=frozenset(['str']), consts=frozenset(
                    c[lo:hi:step] for c in v.consts))
            except ValueError:
                return tval('str')
        if types == {'str'}:
            return tval('str')
        if v.elts is not None and not isslice and i.consts is not None and \
                len(i.consts) == 1:
            c, = i.consts
            if isinstance(c, int) and -len(v.elts) <= c < len(v.elts):
                return v.elts[c]
        if types and types <= {'nd'}:
            # basic slicing is a view; fancy / scalar indexing is fresh
            return self._nd_index(fr, e, v, i, st)
        if types and types <= {'df'}:
            return Val(refs=v.refs, inner=v.inner, types=EMPTY)
        if isslice:
            if types and types <= {'list', 'tuple'}:
                el = self.element(v)
                return Val(inner=el.reach, types=v.types)
            # unknown: list slice copies, ndarray slice is a view
            el = self.element(v)
            return Val(refs=v.refs, inner=v.inner, types=v.types)
        if isinstance(e.slice, ast.Tuple):
            return self._nd_index(fr, e, v, i, st)
        if types and types <= {'dict', 'list', 'tuple'}:
            el = self.element(v)
            return el
        el = self.element(v)
        return el

    def _nd_index(self, fr, e, v, i, st):
        idx = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        vals = i.elts if isinstance(e.slice, ast.Tuple) and \
            i.elts is not None else [i]
        allscalar = True
        for x, iv in zip(idx, vals):
            if isinstance(x, ast.Slice):
                allscalar = False
                continue
            t = {q.lstrip('=') for q in iv.types}
            if t and t != {'None'} and t <= {'list', 'nd', 'bool', 'tuple',
                                             'iter', 'None'}:
                return tval('nd')         # fancy indexing: a copy
            if not t or not t <= {'int', 'scalar'}:
                # unknown index: may be a single position or a fancy index
                pass
        if allscalar and len(idx) >= 2:
            return Val()
        return Val(refs=v.refs, inner=v.inner,
                   types=frozenset(['nd']) if not allscalar else EMPTY)

    def _ci(self, n):
        if n is None:
            return None
        if isinstance(n, ast.Constant) and isinstance(n.value, int):
            return n.value
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and \
                isinstance(n.operand, ast.Constant):
            return -n.operand.value
        raise ValueError

    # fields of nimble classes: attribute -> type tag
    def field_types(self, cls, attr):
        n = self.nim
        if n.is_data(cls):
            if attr == '_data':
                b = n.backend_of(cls)
                return frozenset([lib_storage(n, b)]) if b else EMPTY
            if attr == '_dims':
                return frozenset(['list'])
            if attr == '_source':
                b = n.backend_of(cls)
                return frozenset([b.name]) if b else frozenset(['Base'])
            if attr in ('points', '_points', 'features', '_features'):
                k = attr.lstrip('_')
                a = n.axis_of.get((cls, k))
                if a is not None:
                    return frozenset(['=' + a.name])
                return frozenset(['Points' if k == 'points' else 'Features'])
            if attr in ('_pStart', '_pEnd', '_fStart', '_fEnd'):
                return frozenset(['int'])
        if n.is_axis(cls):
            if attr == '_base':
                ds = n.data_of.get(cls)
                if ds:
                    if len(ds) == 1:
                        return frozenset(['=' + ds[0].name])
                    return frozenset(d.name for d in ds)
                return frozenset(['Base'])
            if attr == 'names':
                return frozenset(['dict', 'None'])
            if attr == 'namesInverse':
                return frozenset(['list', 'None'])
        got = n.fields.get(attr)
        if got and any(k.qual == got[0] for k in cls.mro()):
            return frozenset([got[1]])
        return EMPTY

    def field_const(self, cls, attr):
        n = self.nim
        if n.is_axis(cls):
            isp = cls.issub(n.points) if cls in n.axis_concrete or \
                cls is n.points else None
            isf = cls.issub(n.features) if cls in n.axis_concrete or \
                cls is n.features else None
            if isp or isf:
                if attr == '_isPoint':
                    return bool(isp)
                if attr == '_axis':
                    return 'point' if isp else 'feature'
                if attr == '_offAxis':
                    return 'feature' if isp else 'point'
        return Ellipsis

    def e_Attribute(self, fr, e, st):
        v = self.eval(fr, e.value, st)
        if v is None:
            return None
        if e.attr in self.attr_consts and isinstance(e.ctx, ast.Load):
            return cval(self.attr_consts[e.attr])
        self.dom.on_load(self, fr, st, v, e.attr, e)
        if not v.refs and isinstance(e.value, ast.Name):
            k = ('attr', e.value.id, e.attr)
            if k in st.env:
                return st.env[k]
        return self.get_attr(fr, st, v, e.attr, e)

    def get_attr(self, fr, st, v, attr, node, method=False):
        out = None
        if v.ents:
            for x in v.ents:
                if isinstance(x, Super):
                    out = join(out, Val(ents=frozenset([Bound(attr, v)])))
                    continue
                if isinstance(x, (Module, Ext, Cls)):
                    if isinstance(x, Cls):
                        f = x.lookup(attr)
                        if f is not None and (f.is_classmethod):
                            out = join(out, Val(ents=frozenset(
                                [Bound(attr, Val(ents=frozenset([x])))])))
                            continue
                        if f is None and x.lookup_attr(attr) is not None:
                            out = join(out, Val(refs=frozenset(
                                [('G:' + x.qual, (attr,))]),
                                consts=self._cconst(x.lookup_attr(attr))))
                            continue
                        if attr == '__name__':
                            out = join(out, cval(x.name))
                            continue
                    a = self.p.attr_of(x, attr)
                    if a is not None:
                        out = join(out, self.ent_val(a))
                    else:
                        out = join(out, FRESH)
                elif isinstance(x, (Func, Closure)):
                    out = join(out, tval('scalar') if attr in (
                        '__name__', '__doc__') else FRESH)
        classes = self.classes_of(v)
        if classes:
            for c in classes:
                out = join(out, self._cls_attr(fr, st, v, c, attr, node))
            if len(classes) == len(v.types):
                return out
        if v.ents and not v.types:
            return out if out is not None else FRESH
        # library or unknown object
        if attr in lib.SCALAR_ATTRS:
            return join(out, tval('scalar') if attr != 'shape' else
                        Val(types=frozenset(['tuple'])))
        types = {t.lstrip('=') for t in v.types}
        if attr in ('points', 'features', '_points', '_features') and \
                not types & {'nd', 'df', 'list', 'dict'}:
            return join(out, Val(
                refs=self.extend(fr, v.refs, attr), inner=v.inner,
                types=frozenset(['Points' if 'oint' in attr
                                 else 'Features'])))
        if attr == '_base' and v.refs:
            return join(out, Val(refs=self.extend(fr, v.refs, '_base'),
                                 inner=v.inner, types=frozenset(['Base'])))
        if attr in lib.ALIAS_ATTRS and (
                types & {'nd', 'df', 'coo', 'csr', 'csc'} or
                (not types and attr != 'values' and attr != 'base')):
            return join(out, Val(
                refs=v.refs, inner=v.inner,
                types=frozenset(['nd']) if attr in ('values', 'T', 'flat')
                and 'df' not in types else
                (frozenset(['nd']) if attr == 'values' else v.types)))
        # T of an unknown object may be a nimble property: fresh there
        fv = self._field(fr, st, v, attr, EMPTY)
        if types and types <= {'coo', 'csr', 'csc'} and attr in ('data', 'row', 'col',
                                                   'indices', 'indptr'):
            fv = fv.with_(types=frozenset(['nd']))
        if method:
            return fv
        return join(out, fv)

    def _cconst(self, node):
        if isinstance(node, ast.Constant):
            return frozenset([node.value])
        return None

    def _field(self, fr, st, v, attr, types):
        refs = self.extend(fr, v.refs, attr)
        if not refs:
            # a fresh object: what it holds, if anything
            held = v.inner
            if attr == '_data' and held:
                # the dimensions of another object are no storage
                held = frozenset(r for r in held if '_dims' not in r[1])
            return Val(refs=held, inner=held, types=types)
        if len(refs) == 1:
            (root, path), = refs
            k = ('@', root, path)
            if k in st.env:
                s = st.env[k]
                return Val(refs=refs | s.refs, inner=s.inner | v.inner,
                           types=s.types or types, consts=s.consts,
                           ents=s.ents)
        return Val(refs=refs, inner=v.inner, types=types)

    def _cls_attr(self, fr, st, v, c, attr, node):
        n = self.nim
        cst = self.field_const(c, attr)
        if cst is not Ellipsis:
            return cval(cst)
        if attr == '__class__':
            return Val(ents=frozenset([c]))
        if n.is_data(c) and attr in ('points', 'features', '_points',
                                     '_features'):
            return Val(refs=self.extend(fr, v.refs, attr),
                       types=self.field_types(c, attr))
        if n.is_axis(c) and attr == '_base':
            return self._field(fr, st, v, attr, self.field_types(c, attr))
        f = c.lookup(attr)
        if f is not None:
            if f.is_property:
                return self.call_prop(fr, st, node, v, c, f)
            return Val(ents=frozenset([Bound(attr, v)]))
        if c.lookup_setter(attr) is None:
            a = c.lookup_attr(attr)
            if a is not None and not isinstance(a, ast.Call):
                cc = self._cconst(a)
                return Val(refs=frozenset([('G:' + c.qual, (attr,))]),
                           consts=None)
        return self._field(fr, st, v, attr, self.field_types(c, attr))

    def call_prop(self, fr, st, node, v, c, f):
        if f.name in ('shape', 'dimensions'):
            return Val(types=frozenset(['tuple']))
        if self.nim.is_data(c) or self.nim.is_axis(c):
            if f.name in ('absolutePath', 'relativePath', 'path', 'name'):
                return tval('str', 'None')
        r = None
        for cc in self.nim.concretes_for(c):
            ff = cc.lookup(f.name)
            if ff is None:
                continue
            if ff.method_self is None:
                continue
            x = self.apply(fr, st, node, ff, cc, {ff.method_self: v})
            if x is not None:
                r = join(r, x)
        return r if r is not None else FRESH

    # ============================================================== calls
    def e_Call(self, fr, e, st):
        self.stats['calls'] += 1
        # receiver / callee first
        func = e.func
        recv = None
        name = None
        callee = None
        if isinstance(func, ast.Name) and func.id == 'super' and \
                func.id not in st.env:
            ms = fr.func.method_self
            f = fr.func
            while ms is None and f.parent is not None:
                f = f.parent
                ms = f.method_self
            rv = st.env.get(ms, FRESH) if ms else FRESH
            return Val(refs=rv.refs, ents=frozenset(
                [Super(f.cls, rv)]))
        if isinstance(func, ast.Attribute):
            recv = self.eval(fr, func.value, st)
            if recv is None:
                return None
            name = func.attr
        else:
            callee = self.eval(fr, func, st)
            if callee is None:
                return None
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(fr, a.value, st)
                if v is None:
                    return None
                args.append(('*', v))
            else:
                v = self.eval(fr, a, st)
                if v is None:
                    return None
                args.append(v)
        for k in e.keywords:
            v = self.eval(fr, k.value, st)
            if v is None:
                return None
            if k.arg is None:
                if isinstance(k.value, ast.Name):
                    for q in st.env:
                        if type(q) is tuple and q[0] == 'item' and \
                                q[1] == k.value.id:
                            kwargs.setdefault(q[2], st.env[q])
                kwargs['**'] = join(kwargs.get('**'), v)
            else:
                kwargs[k.arg] = v
        if name is not None:
            r = self.call_method(fr, st, e, recv, name, args, kwargs)
            if r is not None and r.refs:
                for k in st.env:
                    if type(k) is tuple and k[0] == 'empty' and \
                            k[1] <= r.reach:
                        r = r.with_(refs=r.refs - k[1],
                                    inner=r.inner - k[1])
            # containers that now hold an argument
            if name in ('append', 'add', 'insert', 'extend', 'update',
                        'setdefault', 'appendleft') and not \
                    self.data_classes(recv):
                for a in self.flat(args):
                    src = self.element(a) if name in ('extend', 'update') \
                        else a
                    self.contain(fr, st, func.value, src)
                if isinstance(func.value, ast.Name):
                    cur = st.env.get(func.value.id)
                    if cur is not None and cur.elts is not None:
                        st.env[func.value.id] = cur.with_(elts=None)
            elif name in lib.MUTATORS and isinstance(func.value, ast.Name):
                cur = st.env.get(func.value.id)
                if cur is not None and cur.elts is not None:
                    st.env[func.value.id] = cur.with_(elts=None)
            return r
        return self.call_val(fr, st, e, callee, args, kwargs)

    @staticmethod
    def flat(args):
        return [a[1] if isinstance(a, tuple) else a for a in args]

    def call_val(self, fr, st, node, callee, args, kwargs):
        """call a value"""
        out = None
        hit = False
        dead = True
        for x in sorted(callee.ents, key=lambda q: repr(type(q))):
            hit = True
            if isinstance(x, Func):
                r = self.call_func(fr, st, node, x, None, args, kwargs)
            elif isinstance(x, Closure):
                r = self.call_closure(fr, st, node, x, args, kwargs)
            elif isinstance(x, Cls):
                r = self.construct(fr, st, node, x, args, kwargs)
            elif isinstance(x, Ext):
                r = self.call_ext(fr, st, node, x, args, kwargs)
            elif isinstance(x, Bound):
                r = self.call_method(fr, st, node, x.recv, x.name, args,
                                     kwargs)
            elif isinstance(x, Partial):
                kw = dict(x.kwargs)
                kw.update(kwargs)
                r = self.call_val(fr, st, node, x.func,
                                  list(x.args) + list(args), kw)
            else:
                r = FRESH
            if r is not None:
                dead = False
                out = join(out, r)
        if not hit:
            self.stats['unresolved'] += 1
            self.dom.on_call(self, fr, st, node, None, None, None, args,
                             kwargs)
            self.escape(fr, st, node, args, kwargs)
            cl = [c for c in self.classes_of(callee) if c.lookup('__call__')]
            if cl:
                return self.call_method(fr, st, node, callee, '__call__',
                                        args, kwargs)
            self.add_any(fr, st)
            return FRESH
        return None if dead else out

    def escape(self, fr, st, node, args, kwargs):
        """function values handed to code that may call them"""
        vals = self.flat(args) + list(kwargs.values())
        for v in vals:
            for x in v.ents:
                if isinstance(x, Closure):
                    self.call_closure(fr, st, node, x, None, None)
                elif isinstance(x, Partial):
                    self.escape(fr, st, node, [x.func], {})
                elif isinstance(x, Bound) and not self.contracts:
                    pass

    def call_closure(self, fr, st, node, clo, args, kwargs):
        f = clo.func
        fkey = ('closure', f)
        if fkey in self.active or len(self.frames) > self.MAXDEPTH:
            return FRESH
        if f.is_abstract:
            return FRESH
        env = dict(clo.env)
        # the defining frame's variables may have moved on
        if clo.frame is fr:
            for k, v in st.env.items():
                if k in env:
                    env[k] = v
        if args is None:
            b = {p: FRESH for p in f.params}
        else:
            b = self.bind(f, args, kwargs, st)
        for p in f.params:
            if p in b:
                env[p] = b[p]
            elif p in f.defaults:
                env[p] = self.eval(fr, f.defaults[p], st.copy()) or FRESH
            else:
                env[p] = FRESH
        sub = Frame(clo.frame.func if False else f, fr.ctx)
        # run inline: writes go to the defining frame's summary, whose roots
        # the captured values name
        sub.func = f
        sub.summary = InlineSummary(fr)
        sub.ret = None
        sub.retfacts = None
        sub.trys = []
        sub.depth = len(self.frames)
        sub.root = fr.root
        sub.retstate = None
        sub.nodeinfo = {}
        sub.parent = fr
        self.active[fkey] = False
        self.frames.append(sub)
        self.analysed.add(f)
        ns = State(env, st.facts)
        try:
            self._exec_function_body(sub, f, ns)
        finally:
            self.frames.pop()
            self.active.pop(fkey)
        if sub.summary.anyexc is not None:
            self.add_any(fr, st, sub.summary.anyexc)
        for n, fx in sub.summary.raises.items():
            self.add_exp(fr, st, n, fx)
        if sub.retfacts is not None:
            # a callback may run or not
            st.facts = st.facts | sub.retfacts if args is None \
                else sub.retfacts
        if sub.ret is None and args is not None:
            return None
        return sub.ret or FRESH

    # ---------------------------------------------------------- binding
    def bind(self, f, args, kwargs, st, recv=None):
        b = {}
        pos = list(f.pos)
        ms = f.method_self
        if ms is not None and recv is not None:
            b[ms] = recv
            pos = pos[1:]
        i = 0
        extra = None
        star = None
        for a in args:
            if isinstance(a, tuple):
                v = a[1]
                if v.elts is not None and star is None:
                    for x in v.elts:
                        if i < len(pos):
                            b[pos[i]] = join(b.get(pos[i]), x)
                            i += 1
                        else:
                            extra = join(extra, x)
                else:
                    star = join(star, self.element(v))
                continue
            if star is not None:
                star = join(star, a)
            elif i < len(pos):
                b[pos[i]] = a
                i += 1
            else:
                extra = join(extra, a)
        if star is not None:
            while i < len(pos):
                if pos[i] not in b and pos[i] not in kwargs:
                    b[pos[i]] = star
                i += 1
            extra = join(extra, star)
        kwextra = None
        for k, v in kwargs.items():
            if k == '**':
                el = self.element(v)
                for p in list(f.pos) + f.kwonly:
                    if p not in b and p not in kwargs and p != ms:
                        # may be supplied through **: not a known constant
                        b[p] = el.with_(consts=None) if el.reach else Val()
                kwextra = join(kwextra, el)
            elif k in f.pos or k in f.kwonly:
                b[k] = v
            else:
                kwextra = join(kwextra, v)
        if f.vararg:
            b[f.vararg] = Val(inner=(extra.reach if extra else EMPTY),
                              types=frozenset(['tuple']),
                              elts=() if extra is None else None)
        if f.kwarg:
            b[f.kwarg] = Val(inner=(kwextra.reach if kwextra else EMPTY),
                             types=frozenset(['dict']))
        return b

    def call_func(self, fr, st, node, f, ctx, args, kwargs, recv=None):
        if f.parent is None and f.cls is not None and recv is None and \
                f.method_self is not None:
            # unbound call  Cls.method(obj, ...)
            if args and not isinstance(args[0], tuple):
                recv = args[0]
                args = args[1:]
                cl = self.classes_of(recv)
                if cl and any(c.issub(f.cls) for c in cl):
                    ctx = next(c for c in cl if c.issub(f.cls))
                    if ctx not in self.nim.concrete and \
                            ctx not in self.nim.axis_concrete:
                        ctx = self.nim.concretes_for(ctx)[0]
                else:
                    ctx = f.cls
        b = self.bind(f, args, kwargs, st, recv)
        api = self.contracts and f in self.nim.public_funcs and \
            bool(self.frames)
        self.by_contract = api
        self.dom.on_call(self, fr, st, node, f.name, f, recv, args, kwargs)
        self.by_contract = False
        self.escape(fr, st, node, args, kwargs)
        if api:
            self.stats['contract'] += 1
            self.add_any(fr, st)
            r = Val()
            if f.name in ('data', 'ones', 'zeros', 'identity', 'loadData'):
                r = Val(types=frozenset(['Base']))
                cd = b.get('copyData')
                if cd is not None and cd.consts != frozenset([True]):
                    src = b.get(f.pos[0], FRESH)
                    r = Val(types=frozenset(['Base']), inner=src.reach)
            elif f.name in ('train', 'loadTrainedLearner'):
                r = Val(types=frozenset(['TrainedLearner']))
            self.dom.after_call(self, fr, st, node, f.name, f, recv, args,
                                kwargs, r)
            return r
        r = self.apply(fr, st, node, f, ctx, b)
        if r is not None and f.qual in self.nim.returns and not r.ents:
            r = r.with_(types=frozenset([self.nim.returns[f.qual]]))
        if r is not None:
            self.dom.after_call(self, fr, st, node, f.name, f, recv, args,
                                kwargs, r)
        return r

    def apply(self, fr, st, node, f, ctx, b):
        """apply the summary of f (receiver class ctx) to the state"""
        for p, d in f.defaults.items():
            if p not in b:
                v = self.default_val(f, d)
                b[p] = v
        if f.is_abstract and not self.body_matters(f):
            return FRESH
        ckey = self._ctx_key(f, b, ctx)
        s = self._summary(f, ctx, ckey)
        self.stats['resolved'] += 1
        if s is None:
            self.add_any(fr, st)
            return None
        return self.apply_summary(fr, st, node, f, s, b)

    def default_val(self, f, d):
        if isinstance(d, ast.Constant):
            return cval(d.value)
        if isinstance(d, (ast.Tuple, ast.List)) and not d.elts:
            return Val(types=frozenset(
                ['tuple' if isinstance(d, ast.Tuple) else 'list']), elts=())
        if isinstance(d, (ast.Name, ast.Attribute)):
            e = self.p.resolve_expr(f.module, d)
            if e is not None:
                return self.ent_val(e)
        return FRESH

    @staticmethod
    def body_matters(f):
        body = [x for x in f.node.body if not (
            isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        return not all(isinstance(x, (ast.Pass, ast.Raise)) for x in body)

    def mapref(self, fr, b, root, path, write=False):
        if root.startswith('G:'):
            return frozenset([(root, path)])
        v = b.get(root)
        if v is None:
            return EMPTY
        out = set()
        for r, p in v.refs:
            out.add((r, self.norm(fr, r, p + path)))
        need = 2 if write else 1
        if len(path) >= need:
            for r, p in v.inner:
                out.add((r, self.norm(fr, r, p + path[1:])))
        return frozenset(out)

    def mapval(self, fr, b, v):
        if v is None:
            return None
        if not v.refs and not v.inner and v.elts is None:
            return v
        refs, inner, ents = set(), set(v.inner and ()), v.ents
        for r, p in v.refs:
            refs |= self.mapref(fr, b, r, p)
            if p == () and r in b:
                # the parameter object itself: carry what it holds
                inner |= b[r].inner
                ents = ents | b[r].ents
        for r, p in v.inner:
            inner |= self.mapref(fr, b, r, p)
            if p == () and r in b:
                inner |= b[r].inner
        types = v.types
        if not types and len(v.refs) == 1 and not v.inner:
            (r, p), = v.refs
            if p == () and r in b:
                types = b[r].types
        elts = None
        if v.elts is not None:
            elts = tuple(self.mapval(fr, b, x) for x in v.elts)
        return Val(frozenset(refs), frozenset(inner), types, v.consts, ents,
                   elts)

    def apply_summary(self, fr, st, node, f, s, b):
        for (root, path, kind), site in list(s.writes.items()):
            for r, p in self.mapref(fr, b, root, path, True):
                ns = Site(site.func, site.node, site.desc,
                          ((fr.func, node),) + site.via[:14])
                self.record_write(fr, st, (r, p), kind, ns)
        for (root, path, src), site in list(s.captures.items()):
            srcs = self.mapref(fr, b, src[0], src[1])
            for r, p in self.mapref(fr, b, root, path, True):
                for q in srcs:
                    self.record_capture(fr, (r, p), q, Site(
                        site.func, site.node, site.desc,
                        ((fr.func, node),) + site.via[:14]))
        pre = st.facts

        def mp(fact):
            return self.dom.map_fact(self, fr, b, fact)
        # exceptional exits
        if s.anyexc is not None:
            ex = self.dom.exit_facts(self, fr, b, pre, s.anyexc)
            self.add_any(fr, st, ex)
        for n, fx in s.raises.items():
            self.add_exp(fr, st, n,
                         self.dom.exit_facts(self, fr, b, pre, fx))
        if s.facts is not None:
            st.facts = self.dom.exit_facts(self, fr, b, pre, s.facts)
        if s.ret is None:
            return None
        r = self.mapval(fr, b, s.ret)
        if 1 < len(s.retalts) <= 6 and None not in s.retalts:
            r = r.with_()
            r.alts = [self.mapval(fr, b, v) for v in s.retalts.values()]
        return r

    # ------------------------------------------------------------ methods
    def call_method(self, fr, st, node, recv, name, args, kwargs):
        nim = self.nim
        outs = []
        handled = False
        dead = True
        # super().name(...)
        for x in recv.ents:
            if isinstance(x, Super):
                rv = x.recv
                target = None
                cl = self.classes_of(rv)
                if cl:
                    target = cl[0].super_lookup(x.owner, name)
                if target is None and name == '__init__':
                    self.dom.on_call(self, fr, st, node, name, None, rv,
                                     args, kwargs)
                    return cval(None)
                if target is None:
                    return FRESH
                return self.call_func(fr, st, node, target, cl[0], args,
                                      kwargs, recv=rv)
        for x in recv.ents:
            handled = True
            r = FRESH
            if isinstance(x, (Module, Ext)):
                a = self.p.attr_of(x, name)
                if a is None:
                    self.stats['unresolved'] += 1
                    self.escape(fr, st, node, args, kwargs)
                    self.add_any(fr, st)
                elif isinstance(a, Var):
                    r = self.call_val(fr, st, node, self.var_val(a), args,
                                      kwargs)
                else:
                    r = self.call_val(fr, st, node,
                                      Val(ents=frozenset([a])), args, kwargs)
            elif isinstance(x, Cls):
                f = x.lookup(name)
                if f is not None:
                    if f.is_classmethod:
                        r = self.call_func(fr, st, node, f, x, args, kwargs,
                                           recv=Val(ents=frozenset([x])))
                    elif f.is_static:
                        r = self.call_func(fr, st, node, f, x, args, kwargs)
                    else:
                        r = self.call_func(fr, st, node, f, None, args,
                                           kwargs)
                else:
                    self.add_any(fr, st)
            elif isinstance(x, (Func, Closure)):
                self.add_any(fr, st)
            elif isinstance(x, Bound):
                self.add_any(fr, st)
            if r is not None:
                dead = False
                outs.append(r)
        classes = self.classes_of(recv)
        rest = [t for t in recv.types
                if t.lstrip('=') not in nim.names]
        for c in classes:
            r = self.call_on_class(fr, st, node, recv, c, name, args, kwargs)
            handled = True
            if r is not None:
                dead = False
                outs.append(r)
        if not classes and not recv.ents and not rest:
            # nothing known: private names belong to the package
            r = self.call_unknown(fr, st, node, recv, name, args, kwargs)
            if r is not None:
                return r
        if rest or not handled:
            r = self.call_lib_method(fr, st, node, recv, name, args, kwargs)
            dead = False
            outs.append(r)
        if dead:
            return None
        return joinall(outs)

    def call_unknown(self, fr, st, node, recv, name, args, kwargs):
        fs = [f for f in self.p.by_method.get(name, ())
              if not f.is_abstract or self.body_matters(f)]
        if not fs or not self.cha:
            return None
        if name in lib.MUTATORS or name in lib.ALIAS_METHODS or \
                name in ('copy', 'index', 'count', 'replace', 'format',
                         'split', 'get', 'keys', 'items', 'values', 'close',
                         'write', 'read', 'commit', 'execute', 'view',
                         'apply', 'fit', 'predict', 'transform', 'log', 'set',
                         'join', 'flatten', 'iterate', 'merge', 'unique',
                         'mean', 'sum', 'test', 'start', 'repeat', 'save',
                         'dot', 'lower', 'strip', 'sample', 'permute', 'seek',
                         'group', 'groups', 'match', 'add', 'show', 'plot',
                         'next', '__len__', 'hash', 'any', 'all', 'report',
                         'validate', 'delete', 'setdefault', '__init__'):
            return None
        owners = {f.cls for f in fs}
        # one family only
        fam = set()
        for c in owners:
            if nim_family(self.nim, c) is None:
                fam.add(c.mro()[-1].qual)
            else:
                fam.add(nim_family(self.nim, c))
        if len(fam) != 1:
            if not name.startswith('_') or name.startswith('__'):
                return None
        outs = []
        dead = True
        fam1 = next(iter(fam))
        if fam1 == 'data':
            cands = self.nim.backends
        elif fam1 == 'axis':
            cands = self.nim.concretes_for(self.nim.axis)
            owners_pf = {o for o in owners
                         if o in (self.nim.points, self.nim.features)}
        else:
            cands = []
            for c in owners:
                for k in [c] + c.all_subs():
                    if k not in cands:
                        cands.append(k)
        done = set()
        for c in cands:
            f = c.lookup(name)
            if f is None:
                continue
            r = self.call_on_class(fr, st, node, recv, c, name, args, kwargs)
            if r is not None:
                dead = False
                outs.append(r)
            if fam1 in ('data', 'axis') and self.contracts and \
                    not name.startswith('_'):
                break
        if dead:
            return None if outs else FRESH
        return joinall(outs)

    def call_on_class(self, fr, st, node, recv, c, name, args, kwargs):
        nim = self.nim
        isnim = nim.is_data(c) or nim.is_axis(c)
        if isnim and self.contracts and (
                not name.startswith('_') or (
                    name.startswith('__') and name.endswith('__'))):
            if c.lookup(name) is not None:
                return self.contract(fr, st, node, recv, c, name, args,
                                     kwargs)
        exact = any(t == '=' + c.name for t in recv.types)
        cands = [c] if exact else nim.concretes_for(c)
        outs, dead, found = [], True, False
        fields = False
        targets = []
        for k in cands:
            f = k.lookup(name)
            if f is not None and (f, k) not in targets:
                targets.append((f, k))
        pre = st.facts
        post = None
        for f, k in targets:
            found = True
            if len(targets) > 1:
                st.facts = pre
            if f.is_property:
                v = self.apply(fr, st, node, f, k, {f.method_self: recv})
                r = self.call_val(fr, st, node, v or FRESH, args, kwargs)
            elif f.is_static:
                r = self.call_func(fr, st, node, f, k, args, kwargs)
            else:
                tag = recv.with_(types=frozenset(['=' + k.name])) \
                    if len(cands) > 1 else recv
                r = self.call_func(fr, st, node, f, k, args, kwargs,
                                   recv=tag)
            if len(targets) > 1 and r is not None:
                post = st.facts if post is None else post | st.facts
            if r is not None:
                dead = False
                outs.append(r)
        if len(targets) > 1:
            st.facts = post if post is not None else pre
        if found and name in self.fresh_methods and not dead:
            return FRESH
        if not found:
            # attribute holding a callable (or __getattr__)
            v = self._cls_attr(fr, st, recv, c, name, node)
            self.stats['unresolved'] += 1
            self.escape(fr, st, node, args, kwargs)
            if v.ents:
                return self.call_val(fr, st, node, v, args, kwargs)
            self.add_any(fr, st)
            return FRESH
        return None if dead else joinall(outs)

    RET_BASE = {'copy', 'view', 'pointView', 'featureView', 'extract',
                'calculate', 'matchingElements', 'countUniqueElements',
                'unique', 'repeat', 'similarities', 'statistics', 'inverse',
                'solveLinearSystem', 'matrixMultiply', 'matrixPower',
                'trainAndTestSets', 'T', 'elements', 'report', 'mapReduce',
                'matching', '__abs__', '__neg__', '__pos__',
                'calculateOnElements', 'countElements_'}

    def copy_shares(self, fr, recv, c, to):
        """storage of recv that the storage specific part of copy hands
        out (nothing, unless a copy is not a copy)"""
        if self.copying or not recv.reach or (
                to is not None and to.consts is None):
            return EMPTY
        exact = any(t == '=' + c.name for t in recv.types)
        out = set()
        for k in ([c] if exact else self.nim.concretes_for(c)):
            f = k.lookup('_copy_implementation')
            if f is None or 'to' not in f.params or f.is_abstract:
                continue
            if to is None:
                b = self.nim.backend_of(k)
                tv = cval(b.name) if b is not None else FRESH
            else:
                names = {x.name for x in self.nim.backends}
                tv = Val(types=frozenset(['str']), consts=frozenset(
                    x if x in names else str(x).lower().replace(' ', '')
                    for x in to.consts))
            self.copying = True
            try:
                s = self._summary(f, k, self._ctx_key(
                    f, {f.method_self: Val(types=frozenset(['=' + k.name])),
                        'to': tv}, k))
            finally:
                self.copying = False
            if s is None or s.ret is None:
                continue
            for root, path in s.ret.reach:
                if root != f.method_self or '_data' not in path:
                    continue
                i = len(path) - 1 - path[::-1].index('_data')
                if path[i + 1:] in ((), ('[]',), ('data',), ('row',),
                                    ('col',)):
                    out |= self.mapref(fr, {f.method_self: recv}, root,
                                       path)
        return frozenset(out)

    def contract(self, fr, st, node, recv, c, name, args, kwargs):
        """effect of a documented public operation of a data or axis object"""
        self.stats['contract'] += 1
        f = c.lookup(name)
        self.by_contract = True
        self.dom.on_call(self, fr, st, node, name, f, recv, args, kwargs)
        self.by_contract = False
        self.escape(fr, st, node, args, kwargs)
        self.add_any(fr, st)
        if self.nim.mutating(c, name) and f.cls in self.nim.view_roots:
            # the override in a view class: what it really does
            b = self.bind(f, args, kwargs, st, recv=recv)
            return self.apply(fr, st, node, f, c, b)
        if self.nim.mutating(c, name):
            for ref in recv.refs:
                r, p = ref
                comp = ('<content>',)
                self.record_write(
                    fr, st, (r, self.norm(fr, r, p + comp)), 'api:' + name,
                    Site(fr.func, node, 'in-place call .%s()' % name))
        ret = Val()
        if name == 'copy' and self.nim.is_data(c):
            to = kwargs.get('to') or (args[0] if args and not isinstance(
                args[0], tuple) else None)
            if to is None:
                t = {x for x in recv.types if x.lstrip('=') in
                     self.nim.data_names}
                ret = Val(types=frozenset(
                    x.lstrip('=').replace('VectorView', '').replace(
                        'View', '') if x.lstrip('=') != 'BaseView'
                    else 'Base' for x in t))
            elif to.consts is not None:
                m = {'numpyarray': 'nd', 'pythonlist': 'list',
                     'numpymatrix': 'nd', 'scipycsr': 'coo',
                     'scipycsc': 'coo', 'scipycoo': 'coo',
                     'pandasdataframe': 'df', 'listofdict': 'list',
                     'dictoflist': 'dict', 'Matrix': 'Matrix',
                     'List': 'List', 'DataFrame': 'DataFrame',
                     'Sparse': 'Sparse'}
                ts = {m.get(x) or m.get(str(x).lower().replace(' ', ''))
                      for x in to.consts}
                if None not in ts:
                    ret = Val(types=frozenset(ts))
            ret = ret.with_(inner=self.copy_shares(fr, recv, c, to))
        elif name == 'getTypeString':
            ts = {t.lstrip('=') for t in recv.types}
            if ts and all(x in ('Matrix', 'List', 'DataFrame', 'Sparse',
                                'MatrixView', 'ListView', 'DataFrameView',
                                'SparseView', 'SparseVectorView')
                          for x in ts):
                ret = Val(types=frozenset(['str']), consts=frozenset(
                    x.replace('VectorView', '').replace('View', '')
                    for x in ts))
            else:
                ret = tval('str')
        elif name in ('view', 'pointView', 'featureView'):
            ret = Val(types=frozenset(['BaseView']))
        elif name in self.RET_BASE or (name == '__getitem__' and
                                       self.nim.is_axis(c)):
            ret = Val(types=frozenset(['Base']))
        elif name in ('__len__', 'getIndex'):
            ret = tval('int')
        elif name in ('hasName', 'isIdentical', '__eq__', '__contains__'):
            ret = tval('bool')
        elif name in ('__add__', '__sub__', '__mul__', '__truediv__',
                      '__matmul__', '__floordiv__', '__mod__', '__pow__',
                      '__radd__', '__rsub__', '__rmul__', '__rtruediv__',
                      '__rmatmul__', '__rfloordiv__', '__rmod__',
                      '__rpow__', '__and__', '__or__', '__xor__'):
            ret = Val(types=frozenset(['Base']))
        elif self.nim.mutating(c, name) and name.startswith('__i'):
            ret = recv
        elif self.nim.mutating(c, name) and name not in ('extract',):
            ret = cval(None)
        elif name in ('__iter__',):
            ret = tval('iter')
        elif name == '__getitem__':
            ret = Val()
        self.dom.after_call(self, fr, st, node, name, f, recv, args, kwargs,
                            ret)
        return ret

    def construct(self, fr, st, node, c, args, kwargs):
        f = c.lookup('__init__')
        isdata = self.nim.is_data(c)
        new = Val(types=frozenset(['=' + c.name]) if c in self.nim.concrete
                  or not c.subs else frozenset([c.name]),
                  inner=EMPTY if isdata else frozenset().union(
                      *[v.reach for v in self.flat(args) +
                        list(kwargs.values())] or [EMPTY]))
        self.dom.on_call(self, fr, st, node, '__init__', c, new, args, kwargs)
        self.escape(fr, st, node, args, kwargs)
        if f is not None and not (self.contracts and self.nim.is_axis(c)):
            b = self.bind(f, args, kwargs, st, recv=new.with_(inner=EMPTY))
            r = self.apply(fr, st, node, f, c, b)
            if r is None and f.node.body:
                return None
            if isdata:
                # what the new object holds on to
                s = self._summary(f, c, self._ctx_key(f, b, c))
                inner = set()
                for (root, path, src) in (s.captures if s else ()):
                    if root == f.method_self and path and \
                            path[0] in ('_data', '_dims', '_source'):
                        got = self.mapref(fr, b, src[0], src[1])
                        a = b.get(src[0])
                        if path[0] == '_data' and src[1] == () and \
                                a is not None and a.inner and {
                                    'coo', 'csr', 'csc'} & {
                                    t.lstrip('=') for t in a.types}:
                            # a sparse matrix around existing arrays
                            got = got | a.inner
                        if path[0] == '_dims':
                            # of interest: dimensions shared with an object
                            got = {r for r in got if r[1][-1:] == ('_dims',)
                                   or r[0].startswith('G:')}
                        inner |= set(got)
                new = new.with_(inner=frozenset(inner))
        else:
            self.add_any(fr, st)
        self.dom.after_call(self, fr, st, node, '__init__', c, new, args,
                            kwargs, new)
        return new

    # ------------------------------------------------------------ library
    def call_ext(self, fr, st, node, x, args, kwargs):
        name = x.name
        if name.startswith('builtins.'):
            name = name[9:]
        self.dom.on_call(self, fr, st, node, name, x, None, args, kwargs)
        fa = self.flat(args)
        if name in ('getattr',) and len(fa) >= 2:
            cs = fa[1].consts
            if cs is not None and all(isinstance(c, str) for c in cs):
                out = None
                for c in cs:
                    cl = self.classes_of(fa[0])
                    if cl or fa[0].ents:
                        out = join(out, self.get_attr(fr, st, fa[0], c,
                                                      node))
                    else:
                        out = join(out, Val(ents=frozenset(
                            [Bound(c, fa[0])])))
                return out
            if fa[0].ents and any(isinstance(e, Module)
                                  for e in fa[0].ents):
                # getattr(nimble.core.data, returnType)
                m = [e for e in fa[0].ents if isinstance(e, Module)]
                if m[0].name == 'nimble.core.data':
                    return Val(ents=frozenset(self.nim.backends))
            return Val(refs=fa[0].inner, inner=fa[0].inner)
        if name == 'setattr' and len(fa) == 3:
            cs = fa[1].consts
            for c in (cs or ['<attr>']):
                self.write(fr, st, fa[0], (str(c),), 'attr', node, fa[2])
            return cval(None)
        if name == 'isinstance' and len(node.args) == 2 and isinstance(
                node, ast.Call):
            tags = self.type_tags(fr, node.args[1], st)
            if tags is None:
                return tval('bool')
            r = self.isinst(fa[0], tags)
            return cval(r) if r is not None else tval('bool')
        if name in self.EXTPRED and len(fa) == 1 and fa[0].types:
            r = self.isinst(fa[0], self.EXTPRED[name])
            return cval(r) if r is not None else tval('bool')
        if name == 'callable' and fa:
            if fa[0].types == {'func'} or (fa[0].ents and
                                           not fa[0].types):
                return cval(True)
            if fa[0].consts is not None:
                return cval(False)
            return tval('bool')
        if name == 'hasattr' and len(fa) == 2:
            return tval('bool')
        if name == 'type' and len(fa) == 1:
            cl = self.classes_of(fa[0])
            if cl and len(cl) == len(fa[0].types):
                return Val(ents=frozenset(cl))
            return tval('type')
        if name in ('functools.partial',) and fa:
            return Val(ents=frozenset([Partial(fa[0], tuple(args[1:]),
                                               dict(kwargs))]),
                       types=frozenset(['func']))
        if name in ('functools.wraps',):
            return Val()
        if name in lib.MUTATE_ARG0 and fa:
            self.write(fr, st, fa[0], ('[]',), 'call:' + name, node,
                       fa[1] if len(fa) > 1 else None)
        if 'out' in kwargs and name.startswith('numpy.'):
            o = kwargs['out']
            self.write(fr, st, o, ('[]',), 'call:out=', node, None)
        if name not in ('isinstance', 'len', 'callable', 'type', 'str',
                        'print', 'repr', 'id'):
            self.escape(fr, st, node, args, kwargs)
            self.add_any(fr, st)
        r = self._ext_result(fr, st, node, name, fa, args, kwargs)
        self.dom.after_call(self, fr, st, node, name, x, None, args, kwargs,
                            r)
        return r

    def _ext_result(self, fr, st, node, name, fa, args, kwargs):
        self.stats['library'] += 1
        if name == 'str' and fa and fa[0].consts is not None and \
                len(fa[0].consts) == 1 and len(fa) == 1:
            return cval(str(next(iter(fa[0].consts))))
        t = lib.RESULT_TYPES.get(name, Ellipsis)
        if name in BUILTIN_EXC or name.endswith(('Error', 'Exception')):
            return Val(types=frozenset(['exc:' + name.split('.')[-1]]))
        if name in lib.SHALLOW:
            if name in ('copy.copy', 'copy.deepcopy') and fa:
                cl = self.data_classes(fa[0])
                if cl:
                    return Val(types=frozenset(x.name for x in cl))
                if fa[0].types and fa[0].types & {'nd', 'df', 'coo', 'csr', 'csc'}:
                    return Val(types=fa[0].types)
                el = self.element(fa[0])
                return Val(inner=el.reach, types=fa[0].types,
                           elts=fa[0].elts)
            if not fa:
                return Val(types=frozenset([t]) if t and t is not Ellipsis
                           else EMPTY, elts=() if name in ('list', 'tuple')
                           else None)
            inner = set()
            for a in fa:
                inner |= self.element(a).reach
            for v in kwargs.values():
                inner |= v.reach
            return Val(inner=frozenset(inner),
                       types=frozenset([t]) if t and t is not Ellipsis
                       else EMPTY,
                       elts=fa[0].elts if name in ('list', 'tuple') and
                       len(fa) == 1 else None)
        if name == 'enumerate' and fa:
            el = self.element(fa[0])
            return Val(inner=el.reach, types=frozenset(['iter']),
                       elts=(Val(elts=(tval('int'), el), inner=el.reach,
                                 types=frozenset(['tuple'])),))
        if name in ('zip', 'itertools.zip_longest') and fa:
            els = tuple(self.element(a) for a in fa)
            inner = frozenset().union(*[x.reach for x in els])
            if any(isinstance(a, tuple) for a in args):
                return Val(inner=inner, types=frozenset(['iter']))
            return Val(inner=inner, types=frozenset(['iter']),
                       elts=(Val(elts=els, inner=inner,
                                 types=frozenset(['tuple'])),))
        if name in ('map',) and len(fa) >= 2:
            # the function is applied to elements
            el = self.element(fa[1])
            r = self.call_val(fr, st, node, fa[0], [
                self.element(a) for a in fa[1:]], {})
            r = r or FRESH
            return Val(inner=r.reach, types=frozenset(['iter']))
        if name in ('next', 'min', 'max') and fa:
            el = self.element(fa[0]) if len(fa) == 1 or name == 'next' \
                else joinall(fa)
            return el
        if name == 'vars' and fa:
            return Val(refs=fa[0].refs, inner=fa[0].inner,
                       types=frozenset(['dict']))
        if name == 'open':
            return tval('file')
        if t is not Ellipsis:
            types = frozenset([t]) if t else EMPTY
        elif name.startswith('numpy.'):
            types = frozenset(['nd'])
            if name.startswith(('numpy.random.default_rng',)):
                types = frozenset(['rng'])
            last = name.split('.')[-1]
            if last in ('integer', 'dtype', 'float64', 'int64', 'isscalar',
                        'errstate', 'finfo', 'iinfo'):
                types = EMPTY
            if last in ('sum', 'mean', 'median', 'max', 'min', 'var', 'std',
                        'dot', 'argmax', 'argmin', 'prod', 'vectorize',
                        'isnan', 'where', 'nonzero', 'unique', 'lexsort',
                        'all', 'any', 'array_split', 'split', 'meshgrid'):
                types = EMPTY
        else:
            types = EMPTY
        if name in lib.ALIAS_ARG0 and fa:
            if name in lib.COPY_KW:
                cp = kwargs.get('copy')
                if cp is not None and cp.consts == frozenset([True]):
                    return Val(types=types)
            a = fa[0]
            fresh_if = {'numpy.asarray': {'list', 'tuple', 'df'}}
            t0 = {q.lstrip('=') for q in a.types}
            if t0 & (self.nim.data_names | {'list', 'iter'}) and \
                    not t0 & {'nd', 'df', 'coo', 'csr', 'csc'}:
                # built from python containers: a copy, for numpy
                if name.startswith('numpy.') or name.startswith('pandas.'):
                    return Val(types=types)
            fmt = lib.SPARSE_FORMAT.get(name)
            if fmt and t0 and t0 <= {'nd', 'df', 'coo', 'csr', 'csc',
                                     'list'} and fmt not in t0:
                return Val(types=types)
            if 'tuple' in t0:
                # a new container object over the given arrays
                return Val(inner=a.inner, types=types)
            return Val(refs=a.refs | (a.inner if not a.refs else EMPTY),
                       inner=a.inner, types=types)
        if name == 'numpy.array' and fa:
            cp = kwargs.get('copy')
            dt = kwargs.get('dtype')
            if cp is not None and cp.consts != frozenset([True]):
                return Val(refs=fa[0].refs, inner=fa[0].inner, types=types)
            return Val(types=types)
        return Val(types=types)

    def call_lib_method(self, fr, st, node, recv, name, args, kwargs):
        """method of an object from outside the package (or unknown)"""
        self.stats['library'] += 1
        types = {t.lstrip('=') for t in recv.types
                 if t.lstrip('=') not in self.nim.names}
        self.dom.on_call(self, fr, st, node, name, 'lib', recv, args, kwargs)
        fa = self.flat(args)
        # string methods on constants
        if recv.consts is not None and types == {'str'} and \
                all(a.consts is not None and len(a.consts) == 1 for a in fa)\
                and not kwargs and name in (
                    'startswith', 'endswith', 'lower', 'upper', 'strip',
                    'replace', 'lstrip', 'rstrip', 'title', 'capitalize',
                    'count', 'find'):
            try:
                aa = [next(iter(a.consts)) for a in fa]
                rs = frozenset(getattr(c, name)(*aa) for c in recv.consts)
                return Val(types=frozenset(ctype(c) for c in rs), consts=rs)
            except (TypeError, ValueError):
                pass
        mut = False
        if types:
            for t in types:
                tm = lib.TYPE_MUTATORS.get(t)
                if tm is None:
                    mut = mut or name in lib.MUTATORS
                elif name in tm:
                    mut = True
        else:
            mut = name in lib.MUTATORS
        if name in lib.INPLACE_KW and 'inplace' in kwargs:
            ip = kwargs['inplace'].consts
            if ip is None or True in ip:
                mut = True
        if name == '__init__':
            mut = False
        if mut:
            heldv = joinall(fa[-1:]) if fa else None
            if name in ('extend', 'update') and heldv is not None:
                heldv = self.element(heldv)
            self.write(fr, st, recv, ('[]',), 'call:' + name, node, heldv)
        self.escape(fr, st, node, args, kwargs)
        if not (types and types <= {'str'}):
            self.add_any(fr, st)
        out = self._lib_method_result(fr, st, recv, types, name, fa, kwargs)
        self.dom.after_call(self, fr, st, node, name, 'lib', recv, args,
                            kwargs, out)
        return out

    def _lib_method_result(self, fr, st, recv, types, name, fa, kwargs):
        if name in lib.SCALAR_METHODS and name not in ('any', 'all',
                                                       'count'):
            return tval('str') if name not in (
                'startswith', 'endswith', 'isdigit', 'find', 'rfind',
                'getnnz') else tval('bool' if name != 'find' else 'int')
        if types == {'str'}:
            got = fold_str(recv, name, fa, kwargs)
            if got is not None:
                return got
            if name in ('split', 'splitlines', 'rsplit', 'partition'):
                return tval('list')
            return tval('str')
        if types == {'dict'} or (not types and name in ('items', 'values',
                                                        'keys')):
            el = self.element(recv)
            if name == 'items':
                return Val(inner=el.reach, types=frozenset(['iter']),
                           elts=(Val(elts=(Val(), el), inner=el.reach,
                                     types=frozenset(['tuple'])),))
            if name == 'values':
                return Val(inner=el.reach, types=frozenset(['iter']))
            if name == 'keys':
                return tval('iter')
            if name == 'copy':
                return Val(inner=el.reach, types=frozenset(['dict']))
            if name in ('get', 'pop', 'setdefault'):
                d = fa[1] if len(fa) > 1 else cval(None)
                return join(el, d)
        if name == 'copy':
            if types & lib.STORAGE_TAGS:
                return Val(types=frozenset(types))
            if types == {'list'} or types == {'set'}:
                return Val(inner=self.element(recv).reach,
                           types=frozenset(types))
            # unknown object's own copy(): documented fresh; containers may
            # still share their elements one level down
            return Val(types=recv.types)
        if name in ('pop', 'popleft', 'popitem', 'get', '__getitem__'):
            return self.element(recv)
        if name == 'astype':
            cp = kwargs.get('copy')
            if cp is not None and cp.consts == frozenset([False]):
                return Val(refs=recv.refs, inner=recv.inner,
                           types=recv.types)
            return Val(types=recv.types)
        if name in ('tocoo', 'tocsr', 'tocsc', 'asformat', 'to_numpy'):
            cp = kwargs.get('copy')
            if cp is not None and cp.consts == frozenset([True]):
                return Val(types=frozenset(lib.METHOD_TYPES.get(name)
                                           and [lib.METHOD_TYPES[name]]
                                           or []))
            t = lib.METHOD_TYPES.get(name)
            if name in lib.SPARSE_FORMAT and types and \
                    t not in types and types <= {'coo', 'csr', 'csc'}:
                return tval(t)
            return Val(refs=recv.refs, inner=recv.inner,
                       types=frozenset([t]) if t else EMPTY)
        if name == 'transpose' and not types and not recv.refs:
            return Val()
        if name in lib.ALIAS_METHODS:
            if name.startswith('__i') and name != '__iter__':
                return recv
            if not types and name in ('view', 'transpose'):
                pass
            return Val(refs=recv.refs, inner=recv.inner, types=recv.types
                       if types <= lib.STORAGE_TAGS else EMPTY)
        t = lib.METHOD_TYPES.get(name)
        if t:
            return tval(t)
        if name.startswith('__') and types & lib.STORAGE_TAGS:
            return Val(types=frozenset(types & lib.STORAGE_TAGS))
        return Val()

    # ------------------------------------------------------------- writes
    def write(self, fr, st, v, comp, kind, node, held):
        if v is None:
            return
        desc = {'attr': 'assignment to .%s' % comp[0],
                'item': 'item assignment',
                'aug': 'augmented assignment', 'del': 'deletion'}.get(
                    kind, kind)
        site = Site(fr.func, node, desc)
        for r, p in v.refs:
            ref = (r, self.norm(fr, r, p + comp))
            self.record_write(fr, st, ref, kind, site)
            if held is not None:
                for q in held.reach:
                    if q[0] != r or q[1] != ref[1]:
                        self.record_capture(fr, ref, q, site)
        self.dom.on_store(self, fr, st, v, comp, kind, node, held)

    def record_capture(self, fr, ref, src, site):
        k = (ref[0], ref[1], src)
        cap = fr.summary.captures
        if k not in cap:
            cap[k] = site

    def record_write(self, fr, st, ref, kind, site):
        k = (ref[0], ref[1], kind)
        w = fr.summary.writes
        if k not in w:
            w[k] = site
        # forget field knowledge below the written path
        p = ref[1]
        dead = [q for q in st.env if isinstance(q, tuple) and q[0] == '@'
                and q[1] == ref[0] and (q[2][:len(p)] == p)]
        for q in dead:
            del st.env[q]
        self.dom.on_write(self, fr, st, ref, kind, site.node, site)


class InlineSummary(Summary):
    """writes of an inlined closure land in the enclosing summary"""
    def __init__(self, fr):
        Summary.__init__(self)
        self.writes = fr.summary.writes
        self.captures = fr.summary.captures


def nim_family(nim, c):
    if nim.is_data(c):
        return 'data'
    if nim.is_axis(c):
        return 'axis'
    return None


def lib_storage(nim, backend):
    from .nim import STORAGE
    return STORAGE[backend.name]
