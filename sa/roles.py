"""Which of trainX, trainY, testX a value is made of (package interfaces).

A walk over the statements of one function: the value of a local is the set of
data parameters its value was made from.  Tests and metadata (len, isinstance,
type names, column names) do not count.  `bindings` lists every place where
such a value is given a name the package knows: a parameter of another
function of the repository, a keyword, a key, a branch for one parameter
name."""
import ast
from .model import walk_own

ROLES = ('trainX', 'trainY', 'testX', 'testY')
META = {'len', 'isinstance', 'hasattr', 'any', 'all', 'type', 'range',
        'getTypeString', 'getLearnerType', 'str', 'id'}
METAATTR = {'shape', 'dimensions', 'columns', 'ndim', 'size', 'dtype',
            'points', 'features', 'index', 'name'}
SLOT = {'x': 'X', 'y': 'Y', 'obs': 'X', 'raw_documents': 'X', 't': 'X'}
FIT = {'fit', 'train', 'incrementalTrain', 'partial_fit', 'train_on_batch',
       'fit_transform', 'fit_predict'}
USE = {'predict', 'transform', 'apply', 'decision_function', 'predict_proba',
       'getScores', 'score_samples'}


class Roles:
    def __init__(self, prog, flow, f):
        self.prog, self.flow, self.f = prog, flow, f
        self.bindings = []      # (slot, roles, node)
        self.returns = []       # (list of roles per element | None, node)
        env = {p: frozenset([p]) for p in f.params if p in ROLES}
        self.bound = {}         # local -> the method it was taken from
        self.block(f.node.body, env, ())

    # ------------------------------------------------------- expressions
    def of(self, e, env):
        if e is None or isinstance(e, (ast.Constant, ast.Compare)):
            return frozenset()
        if isinstance(e, ast.Name):
            return env.get(e.id, frozenset())
        if isinstance(e, ast.Attribute):
            if e.attr in METAATTR:
                return frozenset()
            return self.of(e.value, env)
        if isinstance(e, ast.Call):
            fn = e.func
            n = fn.id if isinstance(fn, ast.Name) else \
                fn.attr if isinstance(fn, ast.Attribute) else ''
            self.call(e, n, env)
            if n in META:
                return frozenset()
            if n in FIT | USE or self.bound.get(n) is not None:
                return frozenset()
            out = self.of(fn.value, env) if isinstance(
                fn, ast.Attribute) else frozenset()
            for a in e.args:
                out |= self.of(a, env)
            for k in e.keywords:
                out |= self.of(k.value, env)
            return out
        if isinstance(e, ast.IfExp):
            return self.of(e.body, env) | self.of(e.orelse, env)
        if isinstance(e, ast.Dict):
            for k, v in zip(e.keys, e.values):
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    self.bind(k.value, v, env, e)
            out = frozenset()
            for v in e.values:
                out |= self.of(v, env)
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp, ast.Lambda)):
            out = frozenset()
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    out |= env.get(x.id, frozenset())
            return out
        out = frozenset()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.of(c, env)
            elif isinstance(c, ast.Slice):
                pass
        return out

    def bind(self, name, value, env, node):
        slot = SLOT.get(name.lower()) or (name if name in ROLES else None)
        if slot is not None:
            r = self.of(value, env)
            if r:
                self.bindings.append((slot, r, node, name))

    def call(self, e, n, env):
        for k in e.keywords:
            if k.arg is not None:
                self.bind(k.arg, k.value, env, e)
        star = [i for i, a in enumerate(e.args)
                if isinstance(a, ast.Starred)]
        pos = e.args[:star[0]] if star else e.args
        known = False
        for t in self.flow.targets(self.f, e):
            if t.func is None or not t.exact:
                continue
            known = True
            ps = list(t.func.pos)
            if t.bound:
                ps = ps[1:]
            for p, a in zip(ps, pos):
                if p in ROLES:
                    r = self.of(a, env)
                    if r:
                        self.bindings.append((p, r, e, p))
        if known:
            return
        m = n if isinstance(e.func, ast.Attribute) else None
        ms = {m} if m else self.bound.get(n, set())
        if ms & FIT:
            for slot, a in zip('XY', pos):
                r = self.of(a, env)
                if r:
                    self.bindings.append((slot, r, e, 'argument of ' +
                                          sorted(ms)[0]))
        elif ms & USE and pos:
            r = self.of(pos[0], env)
            if r:
                self.bindings.append(('use', r, e, sorted(ms)[0]))

    # --------------------------------------------------------- statements
    def block(self, body, env, slots):
        for s in body:
            env = self.stmt(s, env, slots)
            if env is None:
                return None
        return env

    def join(self, *envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = out.get(k, frozenset()) | v
        return out

    def slots_of(self, test):
        """the parameter names a branch is for"""
        got = set()
        tests = test.values if isinstance(test, ast.BoolOp) and isinstance(
            test.op, ast.Or) else [test]
        for t in tests:
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
                return None
            a, b = t.left, t.comparators[0]
            if isinstance(t.ops[0], ast.Eq):
                c = b if isinstance(b, ast.Constant) else a
                vals = [c]
            elif isinstance(t.ops[0], ast.In) and isinstance(
                    b, (ast.List, ast.Tuple, ast.Set)):
                vals = b.elts
            else:
                return None
            for v in vals:
                if not (isinstance(v, ast.Constant) and
                        isinstance(v.value, str)):
                    return None
                got.add(SLOT.get(v.value.lower()))
        return got.pop() if len(got) == 1 else None

    def stmt(self, s, env, slots):
        if isinstance(s, ast.Return):
            if isinstance(s.value, ast.Tuple):
                self.returns.append(([self.of(x, env)
                                      for x in s.value.elts], s))
            elif s.value is not None:
                self.of(s.value, env)
                self.returns.append((None, s))
            return None
        if isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            return None if isinstance(s, ast.Raise) else env
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is None:
                return env
            r = self.of(s.value, env)
            v = s.value
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                env = self.assign(t, v, r, env, s, slots)
            return env
        if isinstance(s, ast.If):
            self.of(s.test, env)
            slot = self.slots_of(s.test)
            a = self.block(s.body, dict(env),
                           slots + ((slot,) if slot else ()))
            b = self.block(s.orelse, dict(env), slots)
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                self.of(s.test, env)
            else:
                self.of(s.iter, env)
            for _ in range(2):
                e1 = dict(env)
                if not isinstance(s, ast.While):
                    r = self.of(s.iter, e1)
                    for n in ast.walk(s.target):
                        if isinstance(n, ast.Name):
                            e1[n.id] = r
                env = self.join(env, self.block(s.body, e1, slots))
            return self.block(s.orelse, env, slots)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.of(i.context_expr, env)
            return self.block(s.body, env, slots)
        if isinstance(s, ast.Try):
            a = self.block(s.body, dict(env), slots)
            outs = [self.block(s.orelse, a, slots) if a is not None
                    else None]
            for h in s.handlers:
                outs.append(self.block(h.body, self.join(env, a), slots))
            out = self.join(*outs)
            if s.finalbody:
                out = self.block(s.finalbody, out if out is not None
                                 else dict(env), slots)
            return out
        if isinstance(s, ast.Expr):
            r = self.of(s.value, env)
            c = s.value
            # fill a local container: args.append(trainX)
            if isinstance(c, ast.Call) and isinstance(
                    c.func, ast.Attribute) and isinstance(
                        c.func.value, ast.Name) and r and \
                    c.func.attr in ('append', 'insert', 'extend', 'update'):
                env = dict(env)
                k = c.func.value.id
                env[k] = env.get(k, frozenset()) | r
                self.slot(slots, r, s)
        return env

    def slot(self, slots, r, s):
        if slots and r:
            self.bindings.append((slots[-1], r, s, 'branch'))

    def assign(self, t, v, r, env, s, slots):
        env = dict(env)
        if isinstance(t, ast.Name):
            if isinstance(v, ast.Attribute) and v.attr in FIT | USE:
                self.bound.setdefault(t.id, set()).add(v.attr)
            env[t.id] = r | (env.get(t.id, frozenset()) if isinstance(
                s, ast.AugAssign) else frozenset())
            self.slot(slots, r, s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and \
                    len(v.elts) == len(t.elts):
                rs = [self.of(x, env) for x in v.elts]
                for a, b, q in zip(t.elts, v.elts, rs):
                    env = self.assign(a, b, q, env, s, slots)
            else:
                for a in t.elts:
                    env = self.assign(a, None, r, env, s, slots)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Constant) and isinstance(
                    t.slice.value, str):
                self.bind(t.slice.value, v, env, s)
            if isinstance(t.value, ast.Name):
                k = t.value.id
                env[k] = env.get(k, frozenset()) | r
                self.slot(slots, r, s)
        return env


TRAINERS = ('_trainer', '_incrementalTrainer', '_fitLearner', '_initLearner')


def packages(rep, prog, flow, base):
    """what the packages' implementations do with what they are given"""
    for c in [base] + sorted(base.all_subs(), key=lambda c: c.qual):
        for name, f in sorted(c.methods.items()):
            if f.is_abstract or not set(f.params) & set(ROLES):
                continue
            if f.module.name.endswith('universal_interface'):
                continue            # followed from the entry points
            R = Roles(prog, flow, f)
            rep.count('package methods')
            seen = set()
            for slot, r, node, what in R.bindings:
                rep.count('package bindings')
                want = {'X': {'trainX'}, 'Y': {'trainY'},
                        'use': {'testX'}}.get(slot, {slot})
                if slot == 'X' and 'trainX' not in f.params:
                    want = {'testX'}
                if slot == 'use' and 'testX' not in f.params:
                    want = {'trainX'}
                if r <= want or (node.lineno, slot) in seen:
                    continue
                seen.add((node.lineno, slot))
                rep.add('package', '%s|%s' % (f.qual, what),
                        '%s: %s is given in place of %s' % (
                            f.short, ' and '.join(sorted(r - want)),
                            '/'.join(sorted(want))), f.loc(node))
            if name != '_inputTransformation':
                continue
            for els, node in R.returns:
                if els is None or len(els) < 3:
                    continue
                for role, r in zip(('trainX', 'trainY', 'testX'), els):
                    rep.count('package bindings')
                    if r - {role}:
                        rep.add('package', '%s|returns %s' % (f.qual, role),
                                '%s returns %s as transformed %s' % (
                                    f.short, ' and '.join(sorted(r)), role), f.loc(node))
