"""C07 all randomness flows from nimble's own seeded generators"""
import ast
from ..flow import (Flow, STAR, MISSING, parents, guards, split_guards,
                    none_tests, is_none)
from ..model import AnalysisError, Func, Cls, Ext, Var, walk_own, dotted
from ..paths import Walk, calls_in, may_raise

EXPLANATION = """
Source / sink analysis of randomness over every module.  (1) Every reference
to a random source outside nimble's two session generators (random.*,
numpy.random.*, uuid, urandom, secrets, sampling calls of other libraries) is
enumerated; only generator constructors given a seed are accepted.  (2) Values
are classified as seed (explicit, drawn from the session generators, or a
constant), possibly None, or anything else, interprocedurally through
parameters, attributes, properties and returns; every seeding sink must get a
seed that is never None and never something else.  (3) A function or class
that has a seed must hand it to everything it calls that takes one.  (4) Draw
summaries (always / when parameter p is None / when p is true) are propagated
over the call graph: nothing that was given a seed may draw from the session
generators outside an alternate control block, except where the seed is None.
(5) Path typestate of functions that seed or restore the session generators:
all of them are seeded alike, or every one that was changed is restored from
its saved state on every exit, also exceptional ones and those out of a yield.
(6) No seed is tested by its truth value (0 is a seed)."""

ASSUMPTIONS = [
    'a parameter, attribute or function whose name ends in "seed" carries a '
    'random seed',
    'the order of sets of strings is not considered a random choice',
]

CTORS = {'random.Random', 'numpy.random.RandomState',
         'numpy.random.default_rng', 'numpy.random.Generator',
         'numpy.random.SeedSequence', 'numpy.random.MT19937',
         'numpy.random.PCG64', 'numpy.random.Philox'}
AMBIENT = ('random.', 'numpy.random.', 'secrets.')
AMBIENT_EXACT = {'random', 'numpy.random', 'os.urandom', 'uuid.uuid1',
                 'uuid.uuid4', 'secrets'}
LIBSAMPLE = {'random', 'random_array', 'rvs', 'train_test_split', 'resample',
             'shuffle', 'sample'}
RS = ('random_state', 'seed', 'rng', 'randomSeed')
COMMON = set(dir(list)) | set(dir(dict)) | set(dir(str)) | set(dir(set)) | {
    'data', 'save', 'sort', 'mean', 'median', 'round', 'flatten', 'fit',
    'train', 'apply', 'test', 'transform', 'apply_', 'load', 'run'}
NODRAW = {'seed', 'setstate', 'set_state', 'getstate', 'get_state'}


def is_seed_name(n):
    return n is not None and n.lower().endswith('seed')


def generators(prog):
    out = []
    for m in prog.modules.values():
        for s in m.symbols.values():
            if isinstance(s, Var) and isinstance(s.value, ast.Call):
                e = prog.resolve_expr(s.module, s.value.func)
                if isinstance(e, Ext) and e.name in CTORS and s not in out:
                    out.append(s)
    return out


class Seeds:
    def __init__(self, rep):
        self.rep, self.prog = rep, rep.prog
        self.flow = Flow(self.prog)
        self.gens = generators(self.prog)
        self.par = {}
        self._kinds = {}
        self._busy = set()
        self.stores = {}      # attr name -> [(func, value)]
        for f in self.prog.funcs:
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and \
                                is_seed_name(t.attr):
                            self.stores.setdefault(t.attr, []).append(
                                (f, n.value, t))

    def parents(self, f):
        if f not in self.par:
            self.par[f] = parents(f.node)
        return self.par[f]

    def gen_of(self, f, node):
        """session generator that an expression denotes"""
        e = self.flow.entity(f, node)
        return e if e in self.gens else None

    # -------------------------------------------------------- seed kinds
    def kinds(self, f, node, at=None):
        """subset of {'seed', 'none', 'other'}; `at`: node of use"""
        at = at or node
        if node is STAR or node is MISSING:
            return {'seed'}
        if isinstance(node, ast.Constant):
            if node.value is None:
                return {'none'}
            if isinstance(node.value, int):
                return {'seed'}
            return {'other'}
        if isinstance(node, ast.IfExp):
            out = set()
            for b in (node.body, node.orelse):
                out |= self.kinds(f, b, b)
            return out
        if isinstance(node, ast.BoolOp):
            out = set()
            for v in node.values:
                out |= self.kinds(f, v, v)
            if isinstance(node.op, ast.Or):
                last = self.kinds(f, node.values[-1])
                if 'none' not in last:
                    out.discard('none')
            return out
        if isinstance(node, ast.Name):
            g = self.flow.scope_of(f, node.id)
            if g is None:
                e = self.flow.entity(f, node)
                if isinstance(e, Var) and isinstance(e.value, ast.Constant):
                    return self.kinds(f, e.value)
                return {'other'}
            return self.name_kinds(g, node.id, f, at)
        if isinstance(node, ast.Attribute):
            return self.attr_kinds(f, node, at)
        if isinstance(node, ast.Call):
            if isinstance(node.func, ast.Attribute) and \
                    self.gen_of(f, node.func.value) is not None:
                return {'seed'}
            if isinstance(node.func, ast.Name) and node.func.id == 'int' \
                    and node.args:
                return self.kinds(f, node.args[0])
            ts = self.flow.targets(f, node)
            out = set()
            for t in ts:
                out |= self.returns(t, f, node)
            if not ts:
                last = (dotted(node.func) or '').split('.')[-1]
                return {'seed'} if is_seed_name(last) else {'other'}
            return out
        if isinstance(node, ast.BinOp):
            out = self.kinds(f, node.left) | self.kinds(f, node.right)
            out.discard('none')
            return out
        if isinstance(node, ast.Subscript):
            k = node.slice
            if isinstance(k, ast.Constant) and isinstance(k.value, str) and \
                    is_seed_name(k.value):
                return {'seed'}
            return {'other'}
        return {'other'}

    def not_none_here(self, f, name, at):
        par = self.parents(f)
        if at not in par:
            return False
        for t, pol in split_guards(guards(par, at, f.node)):
            a, b = none_tests(t)
            if name in (b if pol else a):
                return True
        return False

    def name_kinds(self, g, name, f, at):
        if f is g and self.not_none_here(g, name, at):
            return {'seed'}
        key = (g, name)
        if key in self._busy:
            return set()
        self._busy.add(key)
        out = set()
        vals = self.flow.assigns(g).get(name, [])
        filled = False
        par = self.parents(g)
        body = g.node.body if isinstance(g.node.body, list) else []
        for n in walk_own(g.node):
            if not isinstance(n, ast.Assign):
                continue
            if not any(isinstance(t, ast.Name) and t.id == name
                       for t in n.targets):
                continue
            if n in body and getattr(at, 'lineno', 0) > n.lineno:
                filled = True
            for t, pol in split_guards(guards(par, n, g.node)):
                a, b = none_tests(t)
                if name in (a if pol else b):
                    filled = True
        for v in vals:
            out |= {'seed'} if v is None and is_seed_name(name) else \
                self.kinds(g, v) if v is not None else {'other'}
        if name in g.params:
            k = self.param_kinds(g, name)
            out |= (k - {'none'}) if filled else k
        self._busy.discard(key)
        return out

    def param_kinds(self, g, name):
        key = ('param', g, name)
        if key in self._busy:
            return set()
        if key in self._kinds:
            return self._kinds[key]
        self._busy.add(key)
        out = set()
        if is_seed_name(name):
            out.add('seed')
        d = g.defaults.get(name)
        if d is not None and is_none(d) and g.public and (
                g.cls is None or not g.cls.name.startswith('_')) and \
                g.parent is None:
            out.add('none')
        for caller, call, t in self.flow.callers(g):
            if not t.exact and not is_seed_name(name):
                continue
            out |= self.kinds(caller, self.flow.value(t, call, name))
        self._busy.discard(key)
        if not self._busy:
            self._kinds[key] = out
        return out

    def attr_kinds(self, f, node, at):
        d = dotted(node)
        if d and self.not_none_here(f, d, at):
            return {'seed'}
        names = {node.attr}
        for m in self.flow.methods.get(node.attr, ()):
            if m.is_property:
                for n in walk_own(m.node):
                    if isinstance(n, ast.Return) and isinstance(
                            n.value, ast.Attribute):
                        names.add(n.value.attr)
        # stored by this very function before?
        for st in reversed(f.node.body if isinstance(f.node.body, list)
                           else []):
            if isinstance(st, ast.Assign) and \
                    st.lineno < getattr(at, 'lineno', 0):
                for t in st.targets:
                    if isinstance(t, ast.Attribute) and t.attr in names and \
                            dotted(t.value) == dotted(node.value):
                        return self.kinds(f, st.value, st)
        key = ('attr', node.attr)
        if key in self._busy:
            return set()
        self._busy.add(key)
        out = set()
        family = None
        if f.cls is not None and isinstance(node.value, ast.Name) and \
                node.value.id == self.flow.self_name(f):
            family = set(f.cls.mro()) | set(f.cls.all_subs())
        elif f.cls is not None and isinstance(node.value, ast.Attribute):
            built = set()
            for c in f.cls.mro():
                for m in c.methods.values():
                    for n in walk_own(m.node):
                        if isinstance(n, ast.Assign) and isinstance(
                                n.value, ast.Call) and any(
                                    isinstance(t, ast.Attribute) and
                                    t.attr == node.value.attr
                                    for t in n.targets):
                            built |= {t.ctor for t in
                                      self.flow.targets(m, n.value)
                                      if t.ctor is not None}
            if built:
                family = set()
                for c in built:
                    family |= set(c.mro())
        for m in self.flow.methods.get(node.attr, ()):
            if m.is_property and (family is None or m.cls in family):
                for n in walk_own(m.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        out |= self.kinds(m, n.value)
        for g, v, t in self.stores.get(node.attr, ()):
            if family is None or g.cls in family:
                out |= self.kinds(g, v)
        self._busy.discard(key)
        if not out:
            return {'seed'} if is_seed_name(node.attr) else {'other'}
        return out

    def returns(self, t, f, call):
        g = t.func
        key = ('ret', g)
        if key in self._busy:
            return set()
        self._busy.add(key)
        out = set()
        for n in walk_own(g.node):
            if isinstance(n, ast.Return):
                out |= self.kinds(g, n.value) if n.value is not None \
                    else {'none'}
        self._busy.discard(key)
        return out

    # ------------------------------------------------------ having a seed
    def seed_param(self, f):
        for p in f.params:
            if is_seed_name(p):
                return p
        return None

    def class_seeds(self, cls):
        """seed attributes the class (or a base of it) stores on itself"""
        out = set()
        mro = set(cls.mro())
        for attr, lst in self.stores.items():
            for g, v, t in lst:
                if g.cls in mro and isinstance(t.value, ast.Name) and \
                        t.value.id == g.method_self:
                    out.add(attr)
        return out

    def user_seeded(self, cls):
        """can the user give the seed of objects of this class"""
        for c in [cls] + cls.all_subs():
            g = c.lookup('__init__')
            if g is not None and not c.name.startswith('_'):
                p = self.seed_param(g)
                if p and p in g.defaults and is_none(g.defaults[p]):
                    return True
        return False

    def is_control(self, f, node):
        """is `node` a call of the alternate control block"""
        if not isinstance(node, ast.Call):
            return False
        e = self.flow.entity(f, node.func)
        return isinstance(e, Func) and e in self.controls()

    def controls(self):
        got = getattr(self, '_controls', None)
        if got is None:
            got = set()
            for f in self.prog.funcs:
                if f.is_generator and any(
                        x[1] in ('setstate', 'set_state')
                        for x in self.state_calls(f)):
                    got.add(f)
            self._controls = got
        return got

    def state_calls(self, f):
        out = []
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                g = self.gen_of(f, n.func.value)
                if g is not None and n.func.attr in NODRAW:
                    out.append((g, n.func.attr, n))
        return out

    def in_control(self, f, node):
        par = self.parents(f)
        cur = node
        while cur in par and cur is not f.node:
            p = par[cur]
            if isinstance(p, ast.With) and cur in p.body:
                if any(self.is_control(f, i.context_expr) for i in p.items):
                    return True
            cur = p
        return False


# ----------------------------------------------------------------- draws
class Draws:
    """f -> set of conditions under which it draws from a session generator
    on its own account: () | ('none', p) | ('true', p); with a witness"""

    def __init__(self, s):
        self.s, self.flow = s, s.flow
        self.sum = {}
        self.direct = {}
        prog = s.prog
        for f in prog.funcs:
            lst = []
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and \
                        n.func.attr not in NODRAW and \
                        s.gen_of(f, n.func.value) is not None:
                    lst.append(n)
                elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(
                        n.ctx, ast.Load) and s.gen_of(f, n) is not None:
                    p = s.parents(f).get(n)
                    if isinstance(p, ast.Attribute):
                        continue
                    if isinstance(p, ast.Assign) and p.value is n and \
                            all(isinstance(t, ast.Name) for t in p.targets):
                        continue          # plain alias, followed by gen_of
                    if isinstance(p, ast.Assign) and any(
                            isinstance(t, ast.Attribute) and
                            isinstance(t.value, ast.Attribute)
                            for t in p.targets):
                        continue    # replacing another library's generator
                    lst.append(n)         # handed to somebody who draws
            self.direct[f] = lst
        work = True
        for f, lst in self.direct.items():
            for n in lst:
                for c in self.condition(f, n):
                    self.sum.setdefault(f, {}).setdefault(c, (n, None))
        rounds = 0
        while work and rounds < 40:
            work = False
            rounds += 1
            for f in prog.funcs:
                for n in walk_own(f.node):
                    for t, cond in self.reached(f, n):
                        for c in self.lift(f, n, t, cond):
                            d = self.sum.setdefault(f, {})
                            if c not in d and () not in d:
                                d[c] = (n, t)
                                work = True

    def reached(self, f, n):
        """(target, condition) of the draws a node can run"""
        if isinstance(n, ast.Call):
            ts = self.flow.targets(f, n)
            if not all(t.exact for t in ts) and (
                    len(ts) > 2 or ts[0].func.name in COMMON):
                return
            for t in ts:
                for c in list(self.sum.get(t.func, ())):
                    yield t, c
        elif isinstance(n, ast.For) and isinstance(n.iter, ast.Attribute):
            # iterating over an object the class has built
            if not (isinstance(n.iter.value, ast.Name) and
                    n.iter.value.id == self.s.flow.self_name(f)
                    and f.cls is not None):
                return
            for c in f.cls.mro():
                for m in c.methods.values():
                    for a in walk_own(m.node):
                        if isinstance(a, ast.Assign) and isinstance(
                                a.value, ast.Call) and any(
                                    isinstance(t, ast.Attribute) and
                                    t.attr == n.iter.attr
                                    for t in a.targets):
                            for t in self.flow.targets(m, a.value):
                                if t.ctor is None:
                                    continue
                                for nm in ('__iter__', '__next__'):
                                    g = t.ctor.lookup(nm)
                                    if g in self.sum:
                                        for cc in list(self.sum[g]):
                                            if cc == ():
                                                yield _Iter(g), cc

    def condition(self, f, n):
        """conditions on f's parameters under which node n is executed"""
        s = self.s
        if s.in_control(f, n):
            return []
        out = []
        gs = split_guards(guards(s.parents(f), n, f.node))
        for t, pol in gs:
            a, b = none_tests(t)
            for name in (a if pol else b):
                root = name.split('.')[0]
                if name in f.params:
                    out.append(('none', name))
                elif is_seed_name(name.split('.')[-1]):
                    out.append(('none', name))
            if pol and isinstance(t, ast.Name) and t.id in f.params:
                out.append(('true', t.id))
        # prefer a condition on the seed
        for c in out:
            if c[0] == 'none' and is_seed_name(c[1].split('.')[-1]):
                return [c]
        if out:
            return out[:1]
        for t, pol in gs:
            names = [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]
            if names and all(x in f.params for x in names) and not any(
                    isinstance(x, (ast.Call, ast.Attribute))
                    for x in ast.walk(t)) and not any(
                        x in self.flow.assigns(f) for x in names):
                return [('expr', t, pol)]
        return [()]

    @staticmethod
    def constant(node, env):
        if isinstance(node, ast.Constant):
            return node.value
        if isinstance(node, ast.Name) and node.id in env:
            return env[node.id]
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            v = Draws.constant(node.operand, env)
            return v if v is STAR else not v
        if isinstance(node, ast.BoolOp):
            vs = [Draws.constant(v, env) for v in node.values]
            stop = isinstance(node.op, ast.Or)
            if any(v is not STAR and bool(v) == stop for v in vs):
                return stop
            return STAR if STAR in vs else not stop
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            a = Draws.constant(node.left, env)
            b = Draws.constant(node.comparators[0], env)
            if a is STAR or b is STAR:
                return STAR
            op = node.ops[0]
            if isinstance(op, (ast.Eq, ast.Is)):
                return a == b
            if isinstance(op, (ast.NotEq, ast.IsNot)):
                return a != b
        return STAR

    def lift(self, f, n, t, cond):
        """conditions of f for a call n of t that draws under cond"""
        here = self.condition(f, n)
        if not here:
            return []
        if cond == ():
            return here
        if cond[0] == 'expr':
            env = {}
            for p in t.func.params:
                v = self.flow.value(t, n, p)
                if isinstance(v, ast.Constant):
                    env[p] = v.value
            v = self.constant(cond[1], env)
            return [] if v is not STAR and bool(v) != cond[2] else here
        kind, p = cond
        if '.' in p or p not in t.func.params:
            return []       # depends on the state of the receiver
        v = self.flow.value(t, n, p)
        if v is STAR:
            return []
        if kind == 'none':
            if is_none(v):
                return here
            if isinstance(v, ast.Name) and v.id in f.params:
                # filled in before?
                if self.s.not_none_here(f, v.id, n):
                    return []
                return [('none', v.id)]
            return []
        if isinstance(v, ast.Constant):
            return here if v.value else []
        if isinstance(v, ast.Name) and v.id in f.params:
            return [('true', v.id)] if here == [()] else here
        return here

    def chain(self, f, cond, limit=8):
        out = []
        while f is not None and len(out) < limit:
            got = self.sum.get(f, {}).get(cond)
            if got is None:
                break
            n, t = got
            out.append('%s %s' % (f.loc(n), f.short))
            if t is None:
                break
            f = t.func
            cond = next(iter(self.sum.get(f, {()})), ())
        return out


class _Iter:
    def __init__(self, func):
        self.func = func


# ------------------------------------------------------- save / restore
class StateWalk(Walk):
    """state: (changed generators, {generator: seed text}, saved names)"""

    def __init__(self, s, f):
        self.s, self.f = s, f

    def effect(self, node, state):
        changed, seeded, saved = state
        for c in calls_in(node) if not isinstance(
                node, (ast.FunctionDef, ast.ClassDef)) else ():
            if not isinstance(c.func, ast.Attribute):
                continue
            g = self.s.gen_of(self.f, c.func.value)
            if g is None:
                continue
            if c.func.attr == 'seed':
                changed = changed | {g}
                seeded = frozenset(x for x in seeded if x[0] is not g) | {
                    (g, ast.dump(c.args[0]) if c.args else
                     ast.dump(c.keywords[0].value) if c.keywords else '')}
            elif c.func.attr in ('setstate', 'set_state'):
                a = c.args[0] if c.args else None
                if isinstance(a, ast.Name) and (g, a.id) in saved:
                    changed = changed - {g}
                else:
                    changed = changed | {g}
        if isinstance(node, ast.Assign):
            pairs = []
            for t in node.targets:
                if isinstance(t, ast.Tuple) and isinstance(
                        node.value, ast.Tuple) and \
                        len(t.elts) == len(node.value.elts):
                    pairs += list(zip(t.elts, node.value.elts))
                else:
                    pairs.append((t, node.value))
            for t, v in pairs:
                if isinstance(t, ast.Name):
                    saved = frozenset(x for x in saved if x[1] != t.id)
                    if isinstance(v, ast.Call) and isinstance(
                            v.func, ast.Attribute) and v.func.attr in (
                                'getstate', 'get_state'):
                        g = self.s.gen_of(self.f, v.func.value)
                        if g is not None and g not in changed:
                            saved = saved | {(g, t.id)}
        return (changed, seeded, saved)

    def simple(self, node, state):
        return [self.effect(node, state)]

    def during(self, node, state):
        # a restoring call is taken to succeed; a seeding one may fail after
        # it took effect
        new = self.effect(node, state)
        if len(new[0]) < len(state[0]):
            return []
        return [state, new]


def run(rep):
    s = Seeds(rep)
    prog, flow = s.prog, s.flow
    if not s.gens:
        raise AnalysisError('no session generators found')
    rep.coverage['session_generators'] = [g.qual for g in s.gens]

    sources(rep, s)
    rebinding(rep, s)
    states(rep, s)
    sinks(rep, s)
    passing(rep, s)
    drawing(rep, s)
    truth(rep, s)
    rep.floor('random_sources_checked', 2)
    rep.floor('seed_arguments_checked', 10)


def all_nodes(prog):
    """(func or None, module, node) over function bodies and module level"""
    for f in prog.funcs:
        for n in walk_own(f.node):
            yield f, f.module, n
    for m in prog.modules.values():
        todo = list(m.tree.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda)):
                continue
            yield None, m, n
            todo.extend(ast.iter_child_nodes(n))


def sources(rep, s):
    prog = s.prog
    pars = {}
    for f, m, n in all_nodes(prog):
        if not isinstance(n, (ast.Attribute, ast.Name)) or \
                not isinstance(n.ctx, ast.Load):
            continue
        e = s.flow.entity(f, n) if f is not None else \
            prog.resolve_expr(m, n)
        if not isinstance(e, Ext):
            continue
        key = f if f is not None else m
        if key not in pars:
            pars[key] = s.parents(f) if f is not None else parents(m.tree)
        par = pars[key]
        p = par.get(n)
        if isinstance(p, ast.Attribute):
            continue          # the longer chain is judged
        loc = '%s:%d' % (m.rel, n.lineno)
        where = f.short if f is not None else m.name
        call = p if isinstance(p, ast.Call) and p.func is n else None
        if e.name in CTORS:
            rep.count('random_sources_checked')
            if call is None:
                continue
            arg = call.args[0] if call.args else next(
                (k.value for k in call.keywords if k.arg in RS), None)
            if arg is None:
                rep.add('unseeded', '%s:%s' % (where, e.name),
                        '%s() is created without a seed' % e.name, loc)
                continue
            if f is None:
                if not isinstance(arg, ast.Constant) or arg.value is None:
                    rep.add('unseeded', '%s:%s' % (where, e.name),
                            '%s is not created with a fixed seed' % e.name,
                            loc)
                continue
            judge(rep, s, f, arg, call, e.name, loc)
        elif e.name.startswith(AMBIENT) or e.name in AMBIENT_EXACT:
            rep.count('random_sources_checked')
            rep.add('ambient', '%s:%s' % (where, e.name),
                    '%s is not one of nimble\'s own generators' % e.name, loc)
        elif call is not None and e.name.split('.')[-1] in LIBSAMPLE and \
                '.' in e.name:
            rep.count('random_sources_checked')
            arg = next((k.value for k in call.keywords if k.arg in RS), None)
            if arg is None:
                rep.add('ambient', '%s:%s' % (where, e.name),
                        '%s draws without being given a seed' % e.name, loc)
            elif f is not None and s.gen_of(f, arg) is None:
                judge(rep, s, f, arg, call, e.name, loc)
    # sampling methods of library objects
    for f in prog.funcs:
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr in ('sample', 'rvs') and \
                    s.gen_of(f, n.func.value) is None and \
                    s.flow.entity(f, n.func) is None and \
                    not s.flow.targets(f, n):
                arg = next((k.value for k in n.keywords if k.arg in RS), None)
                rep.count('random_sources_checked')
                if seeded_local(s, f, n.func.value):
                    continue
                if arg is None:
                    rep.add('ambient', '%s:%s' % (f.short, n.func.attr),
                            '.%s() draws without being given a seed' %
                            n.func.attr, f.loc(n))
                elif s.gen_of(f, arg) is None:
                    judge(rep, s, f, arg, n, n.func.attr, f.loc(n))


def seeded_local(s, f, node):
    """an object of a seeded generator class kept in a local or attribute"""
    vals = []
    if isinstance(node, ast.Name):
        vals = s.flow.assigns(f).get(node.id, [])
    elif isinstance(node, ast.Attribute) and f.cls is not None:
        for c in f.cls.mro():
            for m in c.methods.values():
                for n in walk_own(m.node):
                    if isinstance(n, ast.Assign) and any(
                            isinstance(t, ast.Attribute) and
                            t.attr == node.attr for t in n.targets):
                        vals.append(n.value)
    for v in vals:
        for c in ast.walk(v) if v is not None else ():
            if isinstance(c, ast.Call):
                e = s.flow.entity(f, c.func)
                if isinstance(e, Ext) and e.name in CTORS:
                    return True
            if isinstance(c, (ast.Name, ast.Attribute)) and \
                    s.gen_of(f, c) is not None:
                return True
    return False


def judge(rep, s, f, arg, call, what, loc):
    k = s.kinds(f, arg, call)
    rep.count('seed_arguments_checked')
    if 'none' in k:
        rep.add('maybe-none', '%s:%s' % (f.short, what),
                'the seed of %s can be None here, which makes it draw from '
                'the operating system' % what, loc)
    if 'other' in k:
        rep.add('not-a-seed', '%s:%s' % (f.short, what),
                'the seed of %s does not come from a random seed or from '
                'nimble\'s generators' % what, loc)


def rebinding(rep, s):
    names = {g.name: g for g in s.gens}
    for f, m, n in all_nodes(s.prog):
        tgts = []
        if isinstance(n, ast.Assign):
            tgts = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgts = [n.target]
        for t in tgts:
            for x in ast.walk(t):
                bad = None
                if isinstance(x, ast.Attribute) and isinstance(
                        x.ctx, ast.Store):
                    b = s.flow.entity(f, x.value) if f is not None else \
                        s.prog.resolve_expr(m, x.value)
                    g = s.prog.attr_of(b, x.attr) if b is not None else None
                    bad = g if g in s.gens else None
                elif isinstance(x, ast.Name) and x.id in names and \
                        f is not None and s.flow.scope_of(f, x.id) is None:
                    g = s.prog.resolve_name(m, x.id)
                    bad = g if g in s.gens else None
                if bad is not None:
                    rep.add('rebound', '%s:%s' % (
                        f.short if f else m.name, bad.name),
                        'the session generator %s is replaced' % bad.qual,
                        '%s:%d' % (m.rel, n.lineno))


def states(rep, s):
    for f in s.prog.funcs:
        calls = s.state_calls(f)
        if not any(a in ('seed', 'setstate', 'set_state')
                   for _, a, _ in calls):
            continue
        rep.count('state_changing_functions')
        rep.sample('state_functions', f.qual)
        saves = any(a in ('getstate', 'get_state') for _, a, _ in calls)
        w = StateWalk(s, f)
        out = w.run(f.node.body, {(frozenset(), frozenset(), frozenset())})
        ends = [('normally', st) for st in out.normal] + \
            [('by return', st) for st, _ in out.ret]
        if saves or f.is_generator:
            ends += [('by an exception', st) for st in out.exc]
        for how, (changed, seeded, saved) in ends:
            if saves or f.is_generator:
                for g in changed:
                    rep.add('not-restored', '%s:%s' % (f.short, g.name),
                            'can end %s without the state of %s being what '
                            'it was' % (how, g.name), f.loc())
            else:
                got = {g for g, _ in seeded}
                if got and (got != set(s.gens) or
                            len({t for _, t in seeded}) > 1):
                    rep.add('seeded-apart', f.short,
                            'can end with only some of the session '
                            'generators seeded, or seeded differently',
                            f.loc())
        if not (saves or f.is_generator) and any(
                a in ('setstate', 'set_state') for _, a, _ in calls):
            rep.add('not-restored', f.short,
                    'sets the state of a session generator that it did not '
                    'save', f.loc())


def sinks(rep, s):
    """seeding calls: alternate control, library seeding"""
    for f in s.prog.funcs:
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call):
                continue
            e = s.flow.entity(f, n.func)
            name = e.name if isinstance(e, Ext) else None
            last = dotted(n.func).split('.')[-1] if dotted(n.func) else \
                getattr(n.func, 'attr', '')
            arg = None
            if isinstance(e, Func) and e in s.controls():
                t = s.flow.targets(f, n)[0]
                p = s.seed_param(e) or (e.pos[0] if e.pos else None)
                if p is None:
                    continue
                arg = s.flow.value(t, n, p)
                what = e.name
            elif last in ('set_seed', 'manual_seed', 'set_random_seed') and \
                    not isinstance(e, Func):
                arg = n.args[0] if n.args else next(
                    (k.value for k in n.keywords), None)
                what = last
            else:
                continue
            if arg is None or arg is STAR:
                continue
            judge(rep, s, f, arg, n, what, f.loc(n))


def has_seed(s, f):
    """(what the seed of f is called, seed expressions) or None"""
    p = s.seed_param(f)
    if p:
        return p
    if f.cls is not None and f.parent is None:
        got = s.class_seeds(f.cls)
        if got and f.method_self and s.user_seeded(f.cls):
            return 'self.' + sorted(got)[0]
    if f.parent is not None:
        return has_seed(s, f.parent)
    return None


def passing(rep, s):
    flow = s.flow
    for f in s.prog.funcs:
        hs = has_seed(s, f)
        if hs is None:
            continue
        rep.count('functions_having_a_seed')
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call):
                continue
            ts = flow.targets(f, n)
            if not ts:
                continue
            sp = [s.seed_param(t.func) for t in ts]
            if not all(sp):
                if not any(sp) or not all(t.exact for t in ts):
                    continue
            for t, p in zip(ts, sp):
                if p is None or t.func in s.controls():
                    continue
                v = flow.value(t, n, p)
                rep.count('seed_arguments_checked')
                if v is STAR:
                    rep.count('seed_arguments_in_stars')
                    continue
                if is_none(v):
                    if not draws_or_passes(s, t.func, p):
                        continue
                    # on a path where the own seed is None?
                    gs = split_guards(guards(s.parents(f), n, f.node))
                    ok = False
                    for g, pol in gs:
                        a, b = none_tests(g)
                        if any(is_seed_name(x.split('.')[-1])
                               for x in (a if pol else b)):
                            ok = True
                    if not ok:
                        rep.add('seed-dropped', '%s->%s' % (
                            f.short, t.func.short),
                            '%s has a seed (%s) but does not pass it to %s' %
                            (f.short, hs, t.func.short), f.loc(n))
                    break
                k = s.kinds(f, v, n)
                if 'other' in k:
                    rep.add('not-a-seed', '%s->%s' % (f.short, t.func.short),
                            'what is passed as %s of %s is not a seed' %
                            (p, t.func.short), f.loc(n))
                    break


def draws_or_passes(s, f, p):
    """does f use its seed parameter at all"""
    for g in [f] + [x for x in s.prog.funcs if x.parent is f]:
        for n in walk_own(g.node):
            if isinstance(n, ast.Name) and n.id == p and \
                    isinstance(n.ctx, ast.Load):
                return True
    return False


def drawing(rep, s):
    d = Draws(s)
    rep.coverage['functions_that_draw'] = len(d.sum)
    rep.coverage['direct_draws'] = sum(len(v) for v in d.direct.values())
    for f in s.prog.funcs:
        hs = has_seed(s, f)
        if hs is None or s.is_random_module(f):
            continue
        for n in walk_own(f.node):
            conds = []
            if n in d.direct.get(f, ()):
                conds = [(c, None) for c in d.condition(f, n)]
            else:
                seen = set()
                for t, c0 in d.reached(f, n):
                    if isinstance(t, _Iter):
                        sp = s.class_seeds(t.func.cls)
                        if sp:
                            continue
                    elif s.seed_param(t.func):
                        continue      # judged by `passing`
                    if isinstance(t, _Iter):
                        conds += [(c, t) for c in d.condition(f, n)]
                    else:
                        conds += [(c, t) for c in d.lift(f, n, t, c0)]
            for c, t in conds:
                if c and c[0] == 'none' and is_seed_name(
                        c[1].split('.')[-1]):
                    continue
                what = t.func.short if t is not None else \
                    (dotted(n.func) if isinstance(n, ast.Call) else
                     dotted(n))
                trace = []
                if t is not None:
                    trace = d.chain(t.func, next(iter(
                        d.sum.get(t.func, {(): 0})), ()))
                rep.add('session-draw', '%s->%s' % (f.short, what),
                        '%s has a seed (%s) but %s draws from the session\'s '
                        'generators' % (f.short, hs, what), f.loc(n), trace)
                break


def truth(rep, s):
    for f in s.prog.funcs:
        for n in walk_own(f.node):
            tests = []
            if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                tests = [n.test]
            elif isinstance(n, ast.BoolOp):
                tests = n.values[:-1]
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                tests = [n.operand]
            for t in tests:
                if isinstance(t, (ast.Name, ast.Attribute)):
                    nm = t.id if isinstance(t, ast.Name) else t.attr
                    if nm.lower() == 'seed' or nm.endswith(
                            ('randomSeed', 'RandomSeed')):
                        if nm in ('logRandomSeed',):
                            continue
                        rep.add('truth', '%s:%s' % (f.short, nm),
                                'the seed %s is tested by its truth value, '
                                '0 counts as not given' % nm, f.loc(n))


def _is_random_module(self, f):
    return any(g.module is f.module for g in self.gens) and \
        f in self.controls()


Seeds.is_random_module = _is_random_module
