"""C20 performance functions declare which direction is best"""
import ast
from ..flow import (Flow, parents, guards, split_guards, terminates, STAR)
from ..model import Func, Ext, Cls, Var, walk_own, dotted
from ..paths import Walk, TooManyPaths

EXPLANATION = """
(1) Every function of nimble.calculate that compares known with predicted
values is declared with a direction, and the declared direction (and best
value) is that of the measure it is documented to be.  (2) Whatever the
decorator returns carries the declared direction: the attributes are set on
the wrapped function before functools.wraps copies them, or on the wrapper.
(3) The values that performance functions compute are followed through the
program - returned, stored in attributes and lists, passed on; every ordering
of two of them (a comparison, min, max, sorted, sort, or a comparison chosen
at run time such as Validator._isBest) is evaluated under the assumption that
low values are best and under the assumption that high values are best, and
has to prefer the smaller and the larger respectively; a fixed comparison is
only accepted where the other direction was refused before.  (4) Where the
better of two is kept, what is stored belongs to the better one, under the
right outcome of the comparison, together with everything stored with it.
(5) External optimisers get the direction, or are refused for the one they
do not support.  (6) detectBestResult returns the declared direction
unchanged and derives it from its trials the right way round."""

ASSUMPTIONS = [
    'the table of directions in this rule (DIRECTION) states the meaning of '
    'the documented measures',
    'hyperopt minimises; storm_tuner uses the direction it is given',
]

# meaning of the documented measures: direction, best value (None: unbounded
# or not fixed)
DIRECTION = {
    'rootMeanSquareError': ('min', 0),
    'meanFeaturewiseRootMeanSquareError': ('min', 0),
    'meanAbsoluteError': ('min', 0),
    'fractionIncorrect': ('min', 0),
    'varianceFractionRemaining': ('min', 0),
    'cosineSimilarity': ('max', 1),
    'fractionCorrect': ('max', 1),
    'rSquared': ('max', 1),
    'truePositive': ('max', None),
    'trueNegative': ('max', None),
    'falsePositive': ('min', None),
    'falseNegative': ('min', None),
    'recall': ('max', None),
    'precision': ('max', None),
    'specificity': ('max', None),
    'balancedAccuracy': ('max', None),
    'f1Score': ('max', None),
}
LOW_WORDS = ('error', 'incorrect', 'false', 'loss', 'remaining', 'distance',
             'wrong', 'mistake')
HIGH_WORDS = ('correct', 'true', 'accuracy', 'precision', 'recall',
              'specificity', 'sensitivity', 'similarity', 'score')
ORDER = {ast.Lt: '<', ast.LtE: '<', ast.Gt: '>', ast.GtE: '>'}
OPERATORS = {'operator.gt': '>', 'operator.ge': '>', 'operator.lt': '<',
             'operator.le': '<', 'operator.__gt__': '>',
             'operator.__lt__': '<'}
GOOD = {'min': '<', 'max': '>'}
FLIP = {'<': '>', '>': '<'}


def meaning(name):
    if name in DIRECTION:
        return DIRECTION[name]
    low = name.lower()
    a = any(w in low for w in LOW_WORDS)
    b = any(w in low for w in HIGH_WORDS)
    if a and not b or 'incorrect' in low:
        return 'min', None
    if b and not a:
        return 'max', None
    return None, None


class C20:
    def __init__(self, rep):
        self.rep, self.p = rep, rep.prog
        self.flow = Flow(rep.prog)
        self.par = {}
        self.memo = {}
        self.stores = None
        self.holds = {}
        self.known = {}

    def parents(self, f):
        if f not in self.par:
            self.par[f] = parents(f.node)
        return self.par[f]

    def ext(self, f, node):
        e = self.flow.entity(f, node)
        return e.name if isinstance(e, Ext) else None

    # ------------------------------------------------------ declarations
    def decorator(self):
        for f in self.p.funcs:
            if f.name == 'performanceFunction' and f.parent is None and \
                    f.cls is None:
                return f
        return None

    def declarations(self, deco):
        rep = self.rep
        calc = self.p.modules.get('nimble.calculate')
        seen = set()
        names = list(calc.symbols) if calc is not None else []
        for nm in names:
            f = self.p.attr_of(calc, nm)
            if not isinstance(f, Func) or nm.startswith('_') or f in seen:
                continue
            seen.add(f)
            decl = None
            for d in f.node.decorator_list:
                if isinstance(d, ast.Call) and self.p.resolve_expr(
                        f.module, d.func) is deco:
                    decl = d
            is_measure = decl is not None or nm in DIRECTION
            if not is_measure:
                continue
            rep.count('performance_functions')
            if decl is None:
                # attributes set after the definition also declare
                if self.set_later(f):
                    continue
                rep.add('undeclared', nm, 'the performance function %s does '
                        'not declare which direction is best' % nm,
                        f.loc(f.node))
                continue
            args = self.bind(deco, decl)
            want, best = meaning(nm)
            opt = self.const(f.module, args.get('optimal'))
            if want is not None and opt != want:
                rep.add('direction', nm, '%s is declared with %r although '
                        'for this measure %s values are best' % (
                            nm, opt, 'low' if want == 'min' else 'high'),
                        f.loc(decl))
            elif opt not in ('min', 'max'):
                rep.add('direction', nm, '%s is not declared with min or max'
                        % nm, f.loc(decl))
            b = args.get('best')
            bv = self.const(f.module, b)
            if nm in DIRECTION and b is not None and bv is not None and \
                    best is not None and bv != best:
                rep.add('best-value', nm, 'the best value of %s is %r, not '
                        '%r' % (nm, best, bv), f.loc(decl))

    def set_later(self, f):
        for n in ast.walk(f.module.tree):
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Attribute) and t.attr == 'optimal' and
                    isinstance(t.value, ast.Name) and t.value.id == f.name
                    for t in n.targets):
                want, _ = meaning(f.name)
                if isinstance(n.value, ast.Constant):
                    return n.value.value == want or want is None
        return False

    def bind(self, g, call):
        out = {}
        for i, a in enumerate(call.args):
            if i < len(g.pos):
                out[g.pos[i]] = a
        for k in call.keywords:
            if k.arg:
                out[k.arg] = k.value
        return out

    def const(self, module, e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            v = self.p.resolve_name(module, e.id)
            if isinstance(v, Var) and isinstance(v.value, ast.Constant):
                return v.value.value
        return None

    # --------------------------------------------------------- wrapping
    def wrapping(self, deco):
        """every function object returned has .optimal = the parameter"""
        rep = self.rep
        inner = [g for g in self.p.funcs if g.parent is deco and any(
            isinstance(n, ast.Return) and n.value is not None
            for n in walk_own(g.node))]
        # the decorator proper: returned by performanceFunction
        returned = set()
        for n in walk_own(deco.node):
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Name):
                returned.add(n.value.id)
        inner = [g for g in inner if g.name in returned]
        for g in inner:
            if not g.params:
                continue
            wrapped = g.params[0]
            for n in walk_own(g.node):
                if not isinstance(n, ast.Return) or n.value is None:
                    continue
                rep.count('wrapped_returns')
                for attr in ('optimal', 'best', 'predict'):
                    if attr not in deco.params:
                        continue
                    if not self.carries(g, deco, n, n.value, attr, wrapped):
                        rep.add('lost', '%s:%s' % (attr, ast.unparse(
                            n.value)[:30]),
                            'a function declared as performance function is '
                            'returned without the declared %r' % attr,
                            g.loc(n))

    def sets(self, g, deco, stmt_list, name, attr):
        """index of the first statement setting name.attr to the declared
        value"""
        for i, s in enumerate(stmt_list):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Attribute) and t.attr == attr and \
                            isinstance(t.value, ast.Name) and \
                            t.value.id == name and \
                            self.declared(g, deco, s.value, attr):
                        return i
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                c = s.value
                if isinstance(c.func, ast.Name) and c.func.id == 'setattr' \
                        and len(c.args) == 3 and isinstance(
                            c.args[0], ast.Name) and c.args[0].id == name \
                        and isinstance(c.args[1], ast.Constant) and \
                        c.args[1].value == attr and self.declared(
                            g, deco, c.args[2], attr):
                    return i
                e = self.flow.entity(g, c.func)
                if isinstance(e, Func):
                    for p, a in self.bind(e, c).items():
                        if isinstance(a, ast.Name) and a.id == name:
                            for n in walk_own(e.node):
                                if isinstance(n, ast.Assign) and any(
                                        isinstance(t, ast.Attribute) and
                                        t.attr == attr and
                                        isinstance(t.value, ast.Name) and
                                        t.value.id == p for t in n.targets):
                                    v = n.value
                                    if isinstance(v, ast.Name) and \
                                            v.id in e.params:
                                        v = self.bind(e, c).get(v.id, v)
                                    if self.declared(g, deco, v, attr):
                                        return i
        return None

    def declared(self, g, deco, v, attr):
        if isinstance(v, ast.Name):
            s = self.flow.scope_of(g, v.id)
            if s is deco and v.id == attr:
                return True
            if s is not None and s is not deco:
                vals = [x for x in self.flow.assigns(s).get(v.id, ())
                        if x is not None]
                return len(vals) == 1 and self.declared(s, deco, vals[0],
                                                        attr)
        return False

    def carries(self, g, deco, ret, e, attr, wrapped, depth=0):
        if depth > 4:
            return False
        par = self.parents(g)
        if isinstance(e, ast.IfExp):
            return self.carries(g, deco, ret, e.body, attr, wrapped,
                                depth + 1) and self.carries(
                g, deco, ret, e.orelse, attr, wrapped, depth + 1)
        if not isinstance(e, ast.Name):
            if isinstance(e, ast.Call):
                d = self.ext(g, e.func) or dotted(e.func) or ''
                if d.endswith('update_wrapper') and len(e.args) > 1:
                    return self.carries(g, deco, ret, e.args[1], attr,
                                        wrapped, depth + 1)
            return False
        # statements before the return on the way out
        pos = []
        child = ret
        while child is not g.node and child in par:
            p = par[child]
            for fld in ('body', 'orelse', 'finalbody'):
                lst = getattr(p, fld, None)
                if isinstance(lst, list) and child in lst:
                    pos.append(lst[:lst.index(child)])
            child = p
        before = [s for lst in reversed(pos) for s in lst]
        if self.sets(g, deco, before, e.id, attr) is not None:
            return True
        # a nested function that copies the attributes of the wrapped one
        for i, s in enumerate(before):
            if isinstance(s, ast.FunctionDef) and s.name == e.id:
                for d in s.decorator_list:
                    if isinstance(d, ast.Call) and (
                            self.ext(g, d.func) or dotted(d.func) or
                            '').split('.')[-1] == 'wraps' and d.args and \
                            isinstance(d.args[0], ast.Name):
                        j = self.sets(g, deco, before[:i], d.args[0].id,
                                      attr)
                        if j is not None:
                            return True
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) \
                    and (self.ext(g, s.value.func) or dotted(
                        s.value.func) or '').endswith('update_wrapper') \
                    and len(s.value.args) > 1 and isinstance(
                        s.value.args[0], ast.Name) and \
                    s.value.args[0].id == e.id and isinstance(
                        s.value.args[1], ast.Name):
                if self.sets(g, deco, before[:i], s.value.args[1].id,
                             attr) is not None:
                    return True
            if isinstance(s, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == e.id
                    for t in s.targets) and isinstance(s.value, ast.Name):
                if self.sets(g, deco, before[:i], s.value.id,
                             attr) is not None:
                    return True
        return False

    # ------------------------------------------------- following results
    def follow(self):
        """functions returning performances, attributes holding them"""
        self.ret, self.attrs, self.prm = set(), set(), set()
        mods = [f for f in self.p.funcs
                if f.module.name.startswith('nimble.core')]
        # only functions that can matter
        changed = True
        rounds = 0
        while changed and rounds < 8:
            changed = False
            rounds += 1
            for f in mods:
                for n in walk_own(f.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        if f not in self.ret and self.result(f, n.value):
                            self.ret.add(f)
                            changed = True
                    elif isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and \
                                    t.attr not in self.attrs and \
                                    self.own(f, t) and self.result(
                                        f, n.value, True):
                                self.attrs.add(t.attr)
                                changed = True
                    elif isinstance(n, ast.Call):
                        fn = n.func
                        if isinstance(fn, ast.Attribute) and fn.attr in (
                                'append', 'extend', 'insert') and \
                                isinstance(fn.value, ast.Attribute) and \
                                fn.value.attr not in self.attrs and any(
                                    self.result(f, a, True)
                                    for a in n.args):
                            self.attrs.add(fn.value.attr)
                            changed = True
                        for t in self.flow.targets(f, n):
                            if not t.exact or t.func.module not in [
                                    f.module]:
                                continue
                            for p, a in self.flow.binding(t, n).items():
                                if (t.func, p) not in self.prm and \
                                        isinstance(a, ast.AST) and \
                                        self.result(f, a):
                                    self.prm.add((t.func, p))
                                    changed = True

    def own(self, f, t):
        """an attribute of an object of a class of the package"""
        return isinstance(t.value, (ast.Name, ast.Attribute)) and \
            not t.attr.startswith('__')

    def result(self, f, e, inside=False, depth=0):
        """can the expression be a performance, or hold one"""
        if depth > 8 or not isinstance(e, ast.AST):
            return False
        size = (len(self.ret), len(self.attrs), len(self.prm))
        key = (f, e, inside)
        got = self.known.get(key)
        if got is None or not got[1] and got[0] != size:
            self.known[key] = (size, False)
            got = self.known[key] = (size, self._result(f, e, inside, depth))
        return got[1]

    def _result(self, f, e, inside, depth):
        if isinstance(e, ast.Call):
            fn = e.func
            nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(
                fn, 'id', '')
            if nm == 'performanceFunction' and not isinstance(
                    self.flow.entity(f, fn), Func):
                return True
            if nm in ('trainAndTest', 'trainAndTestOnTrainingData',
                      'computeMetrics', 'crossValidate'):
                return True
            for t in self.flow.targets(f, e):
                if t.func in self.ret and (t.exact or nm in (
                        'validate', '_validate', 'test', 'trainAndTest')):
                    return True
            if nm in ('list', 'tuple', 'zip', 'sorted', 'sum', 'float',
                      'mean', 'average', 'abs', 'reversed', 'copy', 'next',
                      'iter', 'enumerate', 'min', 'max', 'array'):
                return any(self.result(f, a.value if isinstance(
                    a, ast.Starred) else a, inside, depth + 1)
                    for a in e.args) or (
                        isinstance(fn, ast.Attribute) and self.result(
                            f, fn.value, inside, depth + 1))
            return False
        if isinstance(e, ast.Attribute):
            return e.attr in self.attrs
        if isinstance(e, ast.Subscript):
            # the second part of (performance, arguments) is no performance
            if isinstance(e.slice, ast.Constant) and isinstance(
                    e.slice.value, int) and e.slice.value >= 1 and \
                    not isinstance(e.value, ast.Name):
                return False
            return self.result(f, e.value, True, depth + 1)
        if isinstance(e, (ast.Tuple, ast.List)):
            return inside and any(self.result(f, v, True, depth + 1)
                                  for v in e.elts[:1])
        if isinstance(e, ast.BinOp):
            return self.result(f, e.left, inside, depth + 1) or \
                self.result(f, e.right, inside, depth + 1)
        if isinstance(e, ast.UnaryOp):
            return not isinstance(e.op, ast.Not) and self.result(
                f, e.operand, inside, depth + 1)
        if isinstance(e, ast.IfExp):
            return self.result(f, e.body, inside, depth + 1) or \
                self.result(f, e.orelse, inside, depth + 1)
        if isinstance(e, ast.NamedExpr):
            return self.result(f, e.value, inside, depth + 1)
        if isinstance(e, ast.Starred):
            return self.result(f, e.value, inside, depth + 1)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.result(f, e.elt, inside, depth + 1)
        if isinstance(e, ast.Name):
            g = self.flow.scope_of(f, e.id)
            if g is None:
                return False
            if (g, e.id) in self.prm:
                return True
            for v in self.flow.assigns(g).get(e.id, ()):
                if v is not None and v is not e and self.result(
                        g, v, inside, depth + 1):
                    return True
            for v in self.held(g).get(e.id, ()):
                if self.result(g, v, True, depth + 2):
                    return True
        return False

    def held(self, g):
        """name: containers it is the first part or an element of, and
        values put into it"""
        if g in self.holds:
            return self.holds[g]
        out = self.holds[g] = {}
        for n in walk_own(g.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Tuple) and t.elts and isinstance(
                            t.elts[0], ast.Name):
                        out.setdefault(t.elts[0].id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                t = n.target
                if isinstance(t, ast.Tuple) and t.elts:
                    t = t.elts[0]
                if isinstance(t, ast.Name):
                    out.setdefault(t.id, []).append(n.iter)
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in (
                        'append', 'extend', 'insert') and isinstance(
                            n.func.value, ast.Name):
                out.setdefault(n.func.value.id, []).extend(n.args)
        return out

    # --------------------------------------------------------- direction
    def is_direction(self, f, e, depth=0):
        """is the expression the declared direction"""
        if depth > 5:
            return False
        return self.once('is', f, e, None, lambda f, e, d:
                         self._is_direction(f, e, depth), False)

    def _is_direction(self, f, e, depth):
        if isinstance(e, ast.Attribute) and e.attr == 'optimal':
            return True
        if isinstance(e, ast.Call):
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else \
                getattr(e.func, 'id', '')
            if nm == 'detectBestResult':
                return True
            if nm == 'getattr' and len(e.args) > 1 and isinstance(
                    e.args[1], ast.Constant) and e.args[1].value == \
                    'optimal':
                return True
            for t in self.flow.targets(f, e):
                if t.exact and any(
                        isinstance(n, ast.Return) and n.value is not None
                        and self.is_direction(t.func, n.value, depth + 2)
                        for n in walk_own(t.func.node)):
                    return True
        if isinstance(e, ast.Name):
            g = self.flow.scope_of(f, e.id)
            if g is None:
                return False
            if any(v is not None and v is not e and self.is_direction(
                    g, v, depth + 1)
                   for v in self.flow.assigns(g).get(e.id, ())):
                return True
            if e.id in g.params:
                return any(isinstance(a, ast.AST) and self.is_direction(
                    h, a, depth + 2) for h, c, t in self.flow.callers(g)
                    for a in [self.flow.value(t, c, e.id)])
        return False

    def truth(self, f, e, d, depth=0):
        """value of a test when the direction is d: True, False or None"""
        if depth > 8:
            return None
        return self.once('truth', f, e, d, lambda f, e, d: self._truth(
            f, e, d, depth), None)

    def _truth(self, f, e, d, depth):
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.truth(f, e.operand, d, depth + 1)
            return None if v is None else not v
        if isinstance(e, ast.BoolOp):
            vs = [self.truth(f, v, d, depth + 1) for v in e.values]
            if isinstance(e.op, ast.And):
                return False if False in vs else (
                    True if all(v is True for v in vs) else None)
            return True if True in vs else (
                False if all(v is False for v in vs) else None)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r, op = e.left, e.comparators[0], e.ops[0]
            if isinstance(l, ast.Constant):
                l, r = r, l
            if self.is_direction(f, l):
                if isinstance(r, ast.Constant):
                    if isinstance(op, (ast.Eq, ast.Is)):
                        return r.value == d
                    if isinstance(op, (ast.NotEq, ast.IsNot)):
                        return r.value != d
                if isinstance(r, (ast.List, ast.Tuple, ast.Set)) and all(
                        isinstance(x, ast.Constant) for x in r.elts):
                    has = d in [x.value for x in r.elts]
                    if isinstance(op, ast.In):
                        return has
                    if isinstance(op, ast.NotIn):
                        return not has
            return None
        if isinstance(e, ast.IfExp):
            t = self.truth(f, e.test, d, depth + 1)
            if t is None:
                return None
            return self.truth(f, e.body if t else e.orelse, d, depth + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == 'bool' and e.args:
            return self.truth(f, e.args[0], d, depth + 1)
        if isinstance(e, ast.Call) and isinstance(
                e.func, ast.Attribute) and e.func.attr == 'startswith' and \
                e.args and isinstance(e.args[0], ast.Constant) and \
                self.is_direction(f, e.func.value):
            return d.startswith(e.args[0].value)
        if self.is_direction(f, e):
            return True
        if isinstance(e, ast.Name):
            return self.merged(f, e.id, d, self.truth, depth)
        if isinstance(e, ast.Attribute):
            return self.attribute(f, e, d, self.truth, depth)
        return None

    def merged(self, f, name, d, fn, depth):
        g = self.flow.scope_of(f, name)
        if g is None:
            return None
        out = set()
        par = self.parents(g)
        for n in walk_own(g.node):
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == name
                    for t in n.targets):
                if not self.reachable(g, n, d):
                    continue
                out.add(fn(g, n.value, d, depth + 1))
            elif isinstance(n, ast.FunctionDef) and n.name == name:
                h = self.p.func_of_node.get(n)
                if h is not None and self.reachable(g, n, d):
                    out.add(self.func_order(h, d, depth + 1)
                            if fn == self.order else None)
        del par
        if not out and name in g.params:
            for h, c, t in self.flow.callers(g):
                a = self.flow.value(t, c, name)
                out.add(fn(h, a, d, depth + 2)
                        if isinstance(a, ast.AST) else None)
        if len(out) == 1:
            return out.pop()
        # a default overwritten under the other direction
        last = self.last_assigned(g, name, d, fn, depth)
        return last

    def last_assigned(self, g, name, d, fn, depth):
        """straight-line defaults: x = A; if direction == ..: x = B"""
        body = g.node.body
        val = None
        known = False

        def run(stmts):
            nonlocal val, known
            for s in stmts:
                if isinstance(s, ast.If):
                    t = self.truth(g, s.test, d, depth + 1)
                    if t is True:
                        run(s.body)
                    elif t is False:
                        run(s.orelse)
                    elif any(isinstance(x, ast.Name) and x.id == name and
                             isinstance(x.ctx, ast.Store)
                             for x in ast.walk(s)):
                        known = False
                elif isinstance(s, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == name
                        for t in s.targets):
                    val, known = fn(g, s.value, d, depth + 1), True
        run(body)
        return val if known else None

    def attribute(self, f, e, d, fn, depth):
        """value of an attribute set in the classes of the package"""
        out = set()
        if self.stores is None:
            self.stores = {}
            for g in self.p.funcs:
                me = g.cls is not None and self.flow.self_name(g)
                if not me or not g.module.name.startswith('nimble.core'):
                    continue
                for n in walk_own(g.node):
                    for t in n.targets if isinstance(n, ast.Assign) else ():
                        if isinstance(t, ast.Attribute) and isinstance(
                                t.value, ast.Name) and t.value.id == me:
                            self.stores.setdefault(t.attr, []).append((g, n))
        sites = self.stores.get(e.attr, ())
        if len(sites) > 12:
            return None
        for g, n in sites:
            if self.reachable(g, n, d):
                out.add(fn(g, n.value, d, depth + 1))
        if fn == self.order:
            for c in self.p.classes:
                m = c.methods.get(e.attr)
                if m is not None and not m.is_property:
                    out.add(self.func_order(m, d, depth + 1))
        if len(out) == 1:
            return out.pop()
        return None

    def reachable(self, g, n, d):
        return self.once('reachable', g, n, d, self._reachable, True)

    def _reachable(self, g, n, d):
        par = self.parents(g)
        for t, pol in split_guards(guards(par, n, g.node)):
            v = self.truth(g, t, d)
            if v is not None and v != pol:
                return False
        return True

    def once(self, what, f, n, d, fn, default):
        """remembered result; `default` for a question that leads back to
        itself"""
        key = (what, f, n, d)
        if key not in self.memo:
            self.memo[key] = default
            self.memo[key] = fn(f, n, d)
        return self.memo[key]

    def order(self, f, e, d, depth=0):
        """'<' or '>' a comparison function stands for under direction d"""
        if depth > 8:
            return None
        nm = self.ext(f, e)
        if nm in OPERATORS:
            return OPERATORS[nm]
        if isinstance(e, ast.IfExp):
            t = self.truth(f, e.test, d)
            if t is None:
                a, b = self.order(f, e.body, d, depth + 1), self.order(
                    f, e.orelse, d, depth + 1)
                return a if a == b else None
            return self.order(f, e.body if t else e.orelse, d, depth + 1)
        if isinstance(e, ast.Lambda):
            ps = [a.arg for a in e.args.args]
            return self.expr_order(f, e.body, ps, d, depth)
        if isinstance(e, ast.Subscript) and self.is_direction(f, e.slice):
            table = e.value
            if isinstance(table, ast.Name):
                g = self.flow.scope_of(f, table.id)
                vals = self.flow.assigns(g).get(table.id, []) if g else []
                if g is None:
                    v = self.p.resolve_name(f.module, table.id)
                    vals = [v.value] if isinstance(v, Var) else []
                table = vals[0] if len(vals) == 1 else None
            if isinstance(table, ast.Dict):
                for k, v in zip(table.keys, table.values):
                    if isinstance(k, ast.Constant) and k.value == d:
                        return self.order(f, v, d, depth + 1)
            return None
        if isinstance(e, ast.Name):
            return self.merged(f, e.id, d, self.order, depth)
        if isinstance(e, ast.Attribute):
            return self.attribute(f, e, d, self.order, depth)
        return None

    def expr_order(self, f, e, ps, d, depth):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and \
                type(e.ops[0]) in ORDER and isinstance(
                    e.left, ast.Name) and isinstance(
                        e.comparators[0], ast.Name) and len(ps) >= 2:
            o = ORDER[type(e.ops[0])]
            a, b = e.left.id, e.comparators[0].id
            if [a, b] == ps[-2:]:
                return o
            if [b, a] == ps[-2:]:
                return FLIP[o]
            return None
        if isinstance(e, ast.IfExp):
            t = self.truth(f, e.test, d, depth + 1)
            if t is not None:
                return self.expr_order(f, e.body if t else e.orelse, ps, d,
                                       depth + 1)
        if isinstance(e, ast.Call):
            o = self.order(f, e.func, d, depth + 1)
            if o and len(e.args) == 2 and all(isinstance(a, ast.Name)
                                              for a in e.args):
                a, b = e.args[0].id, e.args[1].id
                if [a, b] == ps[-2:]:
                    return o
                if [b, a] == ps[-2:]:
                    return FLIP[o]
        return None

    def func_order(self, h, d, depth=0):
        ps = [p for p in h.params if p != h.method_self]
        out = set()
        for n in walk_own(h.node):
            if isinstance(n, ast.Return):
                if n.value is None or isinstance(n.value, ast.Constant):
                    continue
                if self.reachable(h, n, d):
                    out.add(self.expr_order(h, n.value, ps, d, depth))
        return out.pop() if len(out) == 1 else None

    # ------------------------------------------------------------- sinks
    def allowed(self, f, n):
        """directions in which the node can be executed"""
        dirs = [d for d in ('min', 'max') if self.reachable(f, n, d)]
        c = f.cls
        if c is not None and f.name != '__init__':
            init = c.lookup('__init__')
            if init is not None:
                keep = []
                for d in dirs:
                    if not self.refused(init, d):
                        keep.append(d)
                dirs = keep
        return dirs

    def refused(self, init, d):
        for n in walk_own(init.node):
            if isinstance(n, ast.If) and terminates(n.body) and isinstance(
                    n.body[-1], ast.Raise) and self.truth(
                        init, n.test, d) is True:
                return True
            if isinstance(n, ast.If) and n.orelse and isinstance(
                    n.orelse[-1], ast.Raise) and self.truth(
                        init, n.test, d) is False:
                return True
        return False

    def comparisons(self):
        rep = self.rep
        self.better = []       # (f, node, new, old) node true: new is better
        self.sorted_attrs = set()
        for f in self.p.funcs:
            if not f.module.name.startswith('nimble.core'):
                continue
            for n in walk_own(f.node):
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                        type(n.ops[0]) in ORDER:
                    a, b = n.left, n.comparators[0]
                    ra, rb = self.result(f, a), self.result(f, b)
                    if not (ra or rb):
                        continue
                    if self.counted(a) or self.counted(b):
                        continue
                    h = f
                    # the body of a chosen comparison function
                    if isinstance(self.parents(f).get(n), ast.Return) and \
                            all(isinstance(x, ast.Name) and x.id in f.params
                                for x in (a, b)):
                        continue
                    rep.count('orderings')
                    rep.sample('ordering_sites', f.loc(n))
                    o = ORDER[type(n.ops[0])]
                    if rb and not ra:
                        a, b, o = b, a, FLIP[o]
                    dirs = self.allowed(h, n)
                    for d in dirs:
                        if o != GOOD[d]:
                            # old OP new written the other way round
                            if ra and rb and self.kept(f, n, a, b):
                                a, b, o = b, a, FLIP[o]
                                if o == GOOD[d]:
                                    continue
                            rep.add('ordering', '%s:%s' % (
                                f.short, ast.unparse(n)[:60]),
                                '%s compares performances with %r also '
                                'where %s values are best' % (
                                    f.short, ast.unparse(n), 'low'
                                    if d == 'min' else 'high'), f.loc(n))
                    self.better.append((f, n, a, b))
                elif isinstance(n, ast.Call):
                    self.call_sink(f, n)

    def counted(self, e):
        return isinstance(e, ast.Call) and dotted(e.func) == 'len'

    def kept(self, f, n, a, b):
        """is b what is stored when the comparison holds"""
        par = self.parents(f)
        cur = n
        while cur in par and not isinstance(cur, ast.If):
            cur = par[cur]
        if not isinstance(cur, ast.If):
            return False
        for s in cur.body:
            if isinstance(s, ast.Assign) and ast.dump(s.value) == ast.dump(
                    b).replace('Store()', 'Load()'):
                return True
        return False

    def call_sink(self, f, n):
        rep = self.rep
        fn = n.func
        nm = self.ext(f, fn) or (
            fn.id if isinstance(fn, ast.Name) and self.flow.scope_of(
                f, fn.id) is None and not isinstance(
                    self.flow.entity(f, fn), (Func, Cls)) else '')
        last = fn.attr if isinstance(fn, ast.Attribute) else nm
        if nm in ('min', 'max', 'builtins.min', 'builtins.max') or (
                last in ('argmin', 'argmax', 'nanargmin', 'nanargmax',
                         'nanmin', 'nanmax', 'amin', 'amax', 'nsmallest',
                         'nlargest')):
            args = list(n.args)
            if isinstance(fn, ast.Attribute) and not nm:
                args.append(fn.value)
            if not any(self.result(f, a, True) for a in args):
                return
            if any(self.counted(a) for a in args):
                return
            rep.count('orderings')
            rep.sample('ordering_sites', f.loc(n))
            kind = 'max' if 'max' in last or last == 'nlargest' else 'min'
            for d in self.allowed(f, n):
                if d != kind:
                    rep.add('ordering', '%s:%s' % (
                        f.short, ast.unparse(n)[:60]),
                        '%s takes the %s of performances also where %s '
                        'values are best' % (
                            f.short, last, 'low' if d == 'min' else 'high'),
                        f.loc(n))
        elif last in ('sorted', 'sort') and (
                any(self.result(f, a, True) for a in n.args) or (
                    isinstance(fn, ast.Attribute) and
                    self.result(f, fn.value, True))):
            rep.count('orderings')
            rep.sample('ordering_sites', f.loc(n))
            key = next((k.value for k in n.keywords if k.arg == 'key'), None)
            rev = next((k.value for k in n.keywords if k.arg == 'reverse'),
                       None)
            neg = isinstance(key, ast.Lambda) and isinstance(
                key.body, ast.UnaryOp) and isinstance(key.body.op, ast.USub)
            for st in walk_own(f.node):
                if isinstance(st, ast.Assign) and (
                        n in list(ast.walk(st.value)) or isinstance(
                            st.value, ast.Name) and isinstance(
                                fn, ast.Attribute) and isinstance(
                                    fn.value, ast.Name) and
                        fn.value.id == st.value.id):
                    self.sorted_attrs |= {t.attr for t in st.targets
                                          if isinstance(t, ast.Attribute)}
            if last == 'sort' and isinstance(fn, ast.Attribute) and \
                    isinstance(fn.value, ast.Attribute):
                self.sorted_attrs.add(fn.value.attr)
            for d in self.allowed(f, n):
                v = False if rev is None else self.truth(f, rev, d)
                if v is None or (v != neg) != (d == 'max'):
                    # reversed afterwards under the direction?
                    if v is not None and self.reversed_later(f, n, d):
                        continue
                    rep.add('ordering', '%s:%s' % (
                        f.short, ast.unparse(n)[:60]),
                        '%s sorts performances from worst to best where %s '
                        'values are best' % (
                            f.short, 'low' if d == 'min' else 'high'),
                        f.loc(n))
        elif len(n.args) == 2 and (self.result(f, n.args[0]) or
                                   self.result(f, n.args[1])):
            # a comparison chosen at run time
            ords = {d: self.order(f, fn, d) for d in ('min', 'max')}
            if not any(ords.values()):
                return
            rep.count('orderings')
            rep.sample('ordering_sites', f.loc(n))
            bad = False
            for d in self.allowed(f, n):
                if ords[d] != GOOD[d]:
                    bad = True
                    rep.add('ordering', 'chosen:%s' % (
                        fn.attr if isinstance(fn, ast.Attribute)
                        else ast.unparse(fn)),
                        'the comparison %s prefers the %s of two '
                        'performances where %s values are best' % (
                            ast.unparse(fn), {'<': 'smaller', '>': 'larger',
                                              None: 'unknown'}[ords[d]],
                            'low' if d == 'min' else 'high'), f.loc(n))
            if not bad:
                self.better.append((f, n, n.args[0], n.args[1]))

    def reversed_later(self, f, n, d):
        par = self.parents(f)
        st = n
        while st in par and not isinstance(st, ast.stmt):
            st = par[st]
        if not isinstance(st, ast.Assign):
            return False
        name = ast.dump(st.targets[0]).replace('Store()', 'Load()')
        for m in walk_own(f.node):
            if isinstance(m, ast.Call) and isinstance(
                    m.func, ast.Attribute) and m.func.attr == 'reverse' and \
                    ast.dump(m.func.value) == name:
                return self.reachable(f, m, d) == (d == 'max')
        return False

    # ----------------------------------------------------------- keeping
    def same(self, a, b):
        return ast.dump(a).replace('Store()', 'Load()') == \
            ast.dump(b).replace('Store()', 'Load()')

    def base(self, e):
        """location read by the expression: x, self.x, self.x[0] -> self.x"""
        while isinstance(e, ast.Subscript):
            e = e.value
        return e

    def reads(self, e, loc):
        return any(self.same(x, loc) for x in ast.walk(e)
                   if isinstance(x, (ast.Name, ast.Attribute)))

    def location_of(self, f, e):
        """attribute an expression reads: self._best[0] -> self._best; a
        local name assigned once from an attribute stands for it"""
        e = self.base(e)
        if isinstance(e, ast.Name) and self.flow.scope_of(f, e.id) is f and \
                e.id not in f.params:
            vals = self.flow.assigns(f).get(e.id, ())
            places = [v for v in (self.base(x) for x in vals if x is not None)
                      if isinstance(v, ast.Attribute)]
            if places and all(self.same(v, places[0]) for v in places) and \
                    all(v is not None for v in vals):
                return places[0]
        return e

    def keeping(self):
        rep = self.rep
        per = {}
        # attributes holding the best result so far
        self.best = set()
        for f, n, a, b in self.better:
            per.setdefault(f, []).append((n, a, b))
            for x in (a, b):
                x = self.location_of(f, x)
                if isinstance(x, ast.Attribute) and x.attr in self.attrs:
                    self.best.add(x.attr)
            rep.count('choices')
        rep.coverage['attributes_of_best_results'] = sorted(self.best)
        self.per = per
        for f in self.p.funcs:
            if not f.module.name.startswith('nimble.core'):
                continue
            stores = any(isinstance(t, ast.Attribute) and
                         t.attr in self.best
                         for n in walk_own(f.node)
                         if isinstance(n, ast.Assign) for t in n.targets)
            if f in per or stores:
                rep.count('functions_keeping_results')
                w = Keep(self, f, per.get(f, []))
                w.judge()
        self.sorted_reads()
        self.best_members()
        self.thresholds()

    def sorted_reads(self):
        """what is sorted from best to worst is read from the front when one
        is taken"""
        rep = self.rep
        for f in self.p.funcs:
            if not f.module.name.startswith('nimble.core'):
                continue
            for n in walk_own(f.node):
                if isinstance(n, ast.Subscript) and isinstance(
                        n.value, ast.Attribute) and \
                        n.value.attr in self.sorted_attrs and isinstance(
                            n.ctx, ast.Load):
                    rep.count('sorted_reads')
                    i = n.slice
                    k = i.value if isinstance(i, ast.Constant) else (
                        -1 if isinstance(i, ast.UnaryOp) else None)
                    if k is not None and k != 0:
                        rep.add('not-best', '%s:%s' % (
                            f.short, ast.unparse(n)), '%s takes %s from '
                            'results sorted from best to worst' % (
                                f.short, ast.unparse(n)), f.loc(n))

    def best_members(self):
        """bestResult, bestArguments: from what was found to be best"""
        rep = self.rep
        for f in self.p.funcs:
            if f.cls is None or not f.name.startswith('best') or \
                    not f.module.name.startswith('nimble.core') or \
                    'data' in f.module.name.split('.'):
                continue
            for n in walk_own(f.node):
                if not isinstance(n, ast.Return) or n.value is None or \
                        isinstance(n.value, ast.Constant):
                    continue
                rep.count('best_members')
                exprs = [n.value]
                for x in ast.walk(n.value):
                    if isinstance(x, ast.Name):
                        exprs += [v for v in self.flow.assigns(f).get(
                            x.id, ()) if v is not None]
                attrs = {x.attr for e in exprs for x in ast.walk(e)
                         if isinstance(x, ast.Attribute)}
                calls = any(isinstance(x, ast.Call) for e in exprs
                            for x in ast.walk(e))
                if not attrs & (self.best | self.sorted_attrs) and \
                        not calls:
                    rep.add('not-best', f.short, '%s returns %s, which is '
                            'not what was found to be best' % (
                                f.short, ast.unparse(n.value)), f.loc(n))

    def thresholds(self):
        """stopping because the threshold is reached: the performance is
        better than the threshold, not the other way round"""
        rep = self.rep
        for f, n, a, b in self.better:
            ra, rb = self.result(f, a), self.result(f, b)
            if ra == rb or not any(
                    'threshold' in ast.unparse(x) for x in (a, b)):
                continue
            par = self.parents(f)
            cur, pol = n, True
            while cur in par and not isinstance(cur, ast.If):
                if isinstance(cur, ast.UnaryOp) and isinstance(
                        cur.op, ast.Not):
                    pol = not pol
                cur = par[cur]
            if not isinstance(cur, ast.If) or not terminates(cur.body):
                continue
            rep.count('thresholds')
            if ra != pol:
                rep.add('threshold', '%s:%s' % (f.short, ast.unparse(n)),
                        '%s stops when the threshold is better than the '
                        'performance' % f.short, f.loc(n))

    def block(self, par, s):
        p = par.get(s)
        for fld in ('body', 'orelse', 'finalbody'):
            lst = getattr(p, fld, None)
            if isinstance(lst, list) and s in lst:
                return lst
        return [s]

    def group(self, f, name):
        par = self.parents(f)
        out = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == name
                    for t in n.targets):
                blk = self.block(par, n)
                # back to the previous result computed in the block
                for x in reversed(blk[:blk.index(n) + 1]):
                    if not isinstance(x, ast.Assign):
                        continue
                    if x is not n and any(
                            isinstance(t, ast.Name) and self.result(
                                f, t) for t in x.targets):
                        break
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            out.add(t.id)
        return out

    # ---------------------------------------------------------- external
    def external(self):
        rep = self.rep
        for f in self.p.funcs:
            if not f.module.name.startswith('nimble.core'):
                continue
            for n in walk_own(f.node):
                if not isinstance(n, ast.Call):
                    continue
                d = dotted(n.func) or ''
                if d.startswith('hyperopt.') and any(
                        isinstance(a, ast.Attribute) and a.attr in (
                            'validate', '_validate')
                        for a in list(n.args) + [k.value
                                                 for k in n.keywords]):
                    rep.count('external_optimisers')
                    if self.reachable(f, n, 'max') and not any(
                            self.refused(g, 'max')
                            for g in self.flow_inits(f)):
                        rep.add('external', f.short + ':hyperopt',
                                '%s lets hyperopt minimise performances '
                                'also where high values are best' % f.short,
                                f.loc(n))
        for f in self.p.funcs:
            if not f.module.name.startswith('nimble.core'):
                continue
            for k in walk_own(f.node):
                if isinstance(k, ast.ClassDef) and any(
                        (dotted(b) or '').startswith('storm_tuner.')
                        for b in k.bases):
                    rep.count('external_optimisers')
                    if not any(self.is_direction(f, a) or self.is_direction(
                            self.p.func_of_node.get(m, f), a)
                            for m in ast.walk(f.node)
                            if isinstance(m, ast.Call) and (
                                dotted(m.func) == k.name or isinstance(
                                    m.func, ast.Attribute) and
                                m.func.attr == '__init__' and
                                m in list(ast.walk(k)))
                            for a in list(m.args) + [x.value
                                                     for x in m.keywords]):
                        rep.add('external', f.short + ':storm',
                                'the storm tuner is not given the direction '
                                'that is best', f.loc(k))

    def flow_inits(self, f):
        if f.cls is not None:
            g = f.cls.lookup('__init__')
            return [g] if g is not None and g is not f else []
        return []

    # ------------------------------------------------------------ detect
    def detect(self):
        rep = self.rep
        f = next((g for g in self.p.funcs if g.name == 'detectBestResult'
                  and g.cls is None and g.parent is None), None)
        if f is None:
            return
        seen = {'min': False, 'max': False}
        for n in walk_own(f.node):
            if not isinstance(n, ast.Return) or n.value is None:
                continue
            if self.is_direction(f, n.value):
                seen = {'min': True, 'max': True}
                continue
            if isinstance(n.value, ast.Constant) and n.value.value in seen:
                for d in ('min', 'max'):
                    if not self.reachable(f, n, d):
                        continue
                    gs = split_guards(guards(self.parents(f), n, f.node))
                    if not any(self.truth(f, t, d) is not None
                               for t, _ in gs):
                        continue
                    rep.count('declared_directions_returned')
                    if d != n.value.value:
                        rep.add('detect', 'declared-%s' % d,
                                'a function declared with %r is taken to be '
                                '%r' % (d, n.value.value), f.loc(n))
                    else:
                        seen[d] = True
        for d, ok in seen.items():
            if not ok:
                rep.add('detect', 'declared-%s' % d,
                        'a declared direction %r is not returned as it is '
                        'declared' % d, f.loc(f.node))
        # the trials
        for g in self.p.funcs:
            if g.module is not f.module or g.cls is not None:
                continue
            for n in walk_own(g.node):
                if not (isinstance(n, ast.Return) and isinstance(
                        n.value, ast.Constant) and
                        n.value.value in ('min', 'max')) or g is f:
                    continue
                for t, pol in split_guards(guards(self.parents(g), n,
                                                  g.node)):
                    if isinstance(t, ast.Compare) and len(t.ops) == 1 and \
                            type(t.ops[0]) in ORDER:
                        l = self.correctness(g, t.left)
                        r = self.correctness(g, t.comparators[0])
                        if {l, r} != {'right', 'wrong'} or not pol:
                            continue
                        rep.count('trial_directions')
                        o = ORDER[type(t.ops[0])]
                        if l == 'wrong':
                            o = FLIP[o]
                        # right o wrong
                        if n.value.value != ('max' if o == '>' else 'min'):
                            rep.add('detect', 'trial-%s' % n.value.value,
                                    '%r is concluded from trials in which '
                                    'correct predictions have the %s '
                                    'value' % (
                                        n.value.value, 'larger' if o == '>'
                                        else 'smaller'), g.loc(n))

    def correctness(self, g, e):
        """'right': score of the unchanged predictions, 'wrong': the last
        score after making predictions incorrect"""
        if not isinstance(e, ast.Name):
            return None
        par = self.parents(g)
        for n in walk_own(g.node):
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == e.id
                    for t in n.targets):
                v = n.value
                if isinstance(v, ast.Subscript):
                    return 'wrong' if '-' in ast.unparse(v.slice) else \
                        'right'
                if isinstance(v, ast.Call) and isinstance(
                        v.func, ast.Name) and v.func.id in g.params:
                    cur = n
                    while cur in par:
                        cur = par[cur]
                        if isinstance(cur, (ast.For, ast.While)):
                            return 'wrong'
                    return 'right'
        return None

    def run(self):
        rep = self.rep
        deco = self.decorator()
        if deco is not None:
            self.declarations(deco)
            self.wrapping(deco)
            rep.floor('performance_functions', 10)
            rep.floor('wrapped_returns', 1)
        else:
            rep.floor('performance_functions', 1)
        self.follow()
        rep.count('functions_returning_performances', len(self.ret))
        rep.coverage['attributes_holding_performances'] = sorted(self.attrs)
        self.comparisons()
        self.keeping()
        self.external()
        self.detect()
        rep.floor('orderings', 5)


class Keep(Walk):
    """What one function keeps of the results it compares.

    States are sets of facts: ('cmp', site, outcome) the latest outcome of a
    comparison, ('none', place, outcome), ('first',) something was found
    missing, ('bool', name, site, polarity), ('const', name, value),
    ('put', attribute), ('member', attribute)."""
    exceptions = False

    def __init__(self, rule, f, sites):
        self.rule, self.f = rule, f
        self.sites = sites
        self.index = {n: i for i, (n, a, b) in enumerate(sites)}
        self.names = []
        for n, a, b in sites:
            self.names.append({
                x.id for e in (a, b) for x in ast.walk(e)
                if isinstance(x, ast.Name) and not isinstance(
                    rule.location_of(f, x), ast.Attribute)})
        self.groups = {}
        self.together = {}      # best attribute -> members stored with it
        self.found = {}
        self.grouped()
        self.passed = {n.value.id for n in walk_own(f.node)
                       if isinstance(n, ast.Assign) and isinstance(
                           n.value, ast.Name) and any(
                               isinstance(t, ast.Subscript) or
                               isinstance(t, ast.Attribute) and
                               t.attr in rule.best for t in n.targets)}

    # ------------------------------------------------------------- facts
    def without(self, state, *preds):
        return frozenset(x for x in state if not any(p(x) for p in preds))

    def branch(self, test, state):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.branch(test.operand, state)
            return f, t
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            live, done = [state], []
            for v in test.values:
                nxt = []
                for st in live:
                    t, f = self.branch(v, st)
                    nxt += t if conj else f
                    done += f if conj else t
                live = nxt
            return (live, done) if conj else (done, live)
        i = self.index.get(test)
        if i is not None:
            base = self.without(state, lambda x: x[:2] == ('cmp', i))
            return [base | {('cmp', i, True)}], [base | {('cmp', i, False)}]
        if isinstance(test, ast.Name):
            for x in state:
                if x[0] == 'const' and x[1] == test.id:
                    return ([state], []) if x[2] else ([], [state])
                if x[0] == 'bool' and x[1] == test.id:
                    # already known?
                    for y in state:
                        if y[:2] == ('cmp', x[2]):
                            v = y[2] == x[3]
                            return ([state], []) if v else ([], [state])
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.comparators[0], ast.Constant) and \
                test.comparators[0].value is None and isinstance(
                    test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            eq = isinstance(test.ops[0], (ast.Is, ast.Eq))
            loc = self.rule.location_of(self.f, test.left)
            key = loc.attr if isinstance(loc, ast.Attribute) else None
            if key is not None:
                for x in state:
                    if x[:2] == ('none', key):
                        return ([state], []) if x[2] == eq else (
                            [], [state])
                yes = state | {('none', key, True), ('first',)}
                no = state | {('none', key, False)}
                return ([yes], [no]) if eq else ([no], [yes])
        if isinstance(test, ast.Call) and any(
                t.func in self.rule.per for t in self.rule.flow.targets(
                    self.f, test)):
            # decided elsewhere
            return [state | {('first',)}], [state | {('asked',)}]
        return [state], [state]

    # ----------------------------------------------------------- effects
    def simple(self, node, state):
        if isinstance(node, ast.Assign):
            return self.assign(node, state)
        if isinstance(node, ast.expr) and not isinstance(node, ast.Name):
            return [state]
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
            return [self.forget(state, node.id)]
        return [state]

    def forget(self, state, name):
        return self.without(
            state, lambda x: x[0] in ('bool', 'const') and x[1] == name,
            lambda x: x[0] == 'cmp' and name in self.names[x[1]] and
            name != self.rule.flow.self_name(self.f))

    def grouped(self):
        for i, (n, a, b) in enumerate(self.sites):
            for e in (a, b):
                e = self.rule.location_of(self.f, e)
                if isinstance(e, ast.Name):
                    self.names[i] |= self.members(e.id)

    def assign(self, node, state):
        rule, f = self.rule, self.f
        value = node.value
        if len(node.targets) == 1 and isinstance(
                node.targets[0], ast.Tuple) and isinstance(
                    value, ast.Tuple) and len(value.elts) == len(
                        node.targets[0].elts):
            out = {state}
            for t, v in zip(node.targets[0].elts, value.elts):
                one = ast.copy_location(ast.Assign([t], v), node)
                out = {x for s in out for x in self.assign(one, s)}
            return list(out)
        out = [state]
        for t in node.targets:
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out = [self.forget(s, x.id) for s in out]
        for t in node.targets:
            if isinstance(t, ast.Name) and t.id in self.passed:
                out = [self.without(s, lambda x: x[:2] == ('val', t.id)) |
                       {('val', t.id, value)} for s in out]
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            name = node.targets[0].id
            if isinstance(value, ast.Constant) and isinstance(
                    value.value, bool):
                return [s | {('const', name, value.value)} for s in out]
            if self.mentions(value):
                res = []
                for s in out:
                    t, e = self.branch(value, s)
                    res += [x | {('const', name, True)} for x in t]
                    res += [x | {('const', name, False)} for x in e]
                return res
            return out
        for t in node.targets:
            if isinstance(t, ast.Name):
                continue
            out = [self.store(node, t, value, s) for s in out]
        return out

    def mentions(self, e):
        for x in ast.walk(e):
            if x in self.index:
                return True
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(
                    x.ops[0], (ast.Is, ast.IsNot)):
                return True
        return False

    def members(self, name):
        if name not in self.groups:
            self.groups[name] = self.rule.group(self.f, name)
        return self.groups[name]

    def store(self, node, target, value, state):
        rule, f = self.rule, self.f
        if isinstance(value, ast.Name):
            for x in state:
                if x[:2] == ('val', value.id) and isinstance(
                        x[2], (ast.Tuple, ast.Attribute, ast.Name)):
                    value = x[2]
                    break
            if isinstance(value, ast.Attribute) and value.attr in rule.best:
                return state
        read = {x.id for x in ast.walk(value) if isinstance(x, ast.Name)}
        attr = target.attr if isinstance(target, ast.Attribute) else None
        for i, (n, a, b) in enumerate(self.sites):
            outcome = next((x[2] for x in state if x[:2] == ('cmp', i)),
                           None)
            if outcome is None:
                continue
            for x, other, better in ((a, b, outcome), (b, a, not outcome)):
                x = rule.base(x)
                if better or not isinstance(x, ast.Name):
                    continue
                mine = self.members(x.id) | {x.id}
                o = rule.base(other)
                if isinstance(o, ast.Name):
                    mine = mine - self.members(o.id) - {o.id}
                # found better than something else in the meantime: no
                if mine & read:
                    self.add('kept-worse', node, '%s stores %s, which '
                             'belongs to the worse of two results' % (
                                 f.short, ', '.join(sorted(mine & read))))
        if attr is None:
            return state
        if attr in rule.best:
            if isinstance(value, ast.Constant):
                return state
            ok, bad = False, False
            if ('first',) in state:
                ok = True
            for i, (n, a, b) in enumerate(self.sites):
                outcome = next((x[2] for x in state
                                if x[:2] == ('cmp', i)), None)
                if outcome is None:
                    continue
                for x, other, better in ((a, b, outcome),
                                         (b, a, not outcome)):
                    o = rule.location_of(f, other)
                    if isinstance(o, ast.Attribute) and \
                            o.attr in rule.best and rule.reads(value, rule.base(x)):
                        ok = True
                        bad = bad or not better
            if bad:
                self.add('kept-worse', node, '%s keeps %s although it was '
                         'not found better' % (f.short,
                                               ast.unparse(value)))
            elif not ok and rule.result(f, value, True):
                self.add('kept-any', node, '%s replaces %s without having '
                         'found the new result better' % (
                             f.short, ast.unparse(target)))
            return state | {('put', attr, node.lineno)}
        if 'best' in attr.lower() and not isinstance(value, ast.Constant):
            return state | {('member', attr, node.lineno)}
        return state

    def add(self, rule, node, msg):
        self.found.setdefault((rule, '%s:%s' % (
            self.f.short, ast.unparse(node)[:60])), (msg, node))

    # ------------------------------------------------------------- judge
    def judge(self):
        rule, f = self.rule, self.f
        if f.name == '__init__':
            return
        try:
            out = self.run(f.node.body, {frozenset()})
        except TooManyPaths:
            rule.rep.count('functions_too_large')
            return
        ends = set(out.normal) | {s for s, _ in out.ret}
        rule.rep.count('keeping_paths', len(ends))
        puts = [({x[1] for x in s if x[0] == 'put'},
                 {x[1] for x in s if x[0] == 'member'}, s) for s in ends]
        pairs = {(p, m) for a, b, s in puts for p in a for m in b}
        lines = {x[1]: x[2] for a, b, s in puts for x in s
                 if x[0] in ('put', 'member')}
        for a, b, s in puts:
            for p, m in pairs:
                if (p in a) != (m in b):
                    self.found.setdefault(('kept-partly', '%s:%s:%s' % (
                        f.short, p, m)), (
                        '%s replaces %s but leaves %s, which belongs to it, '
                        'as it was' % ((f.short, p, m) if p in a else
                                       (f.short, m, p)),
                        lines[p if p in a else m]))
        # kept the first time, but never compared later
        firsts = {p for a, b, s in puts for p in a
                  if ('none', p, True) in s}
        for a, b, s in puts:
            for p in firsts:
                if ('none', p, False) in s and ('asked',) not in s and \
                        not self.compared(s, p):
                    self.found.setdefault(('not-compared', '%s:%s' % (
                        f.short, p)), (
                        '%s keeps the first result in %s but does not '
                        'compare later ones with it' % (f.short, p),
                        lines.get(p)))
        for (kind, key), (msg, node) in self.found.items():
            loc = f.loc(node) if isinstance(node, ast.AST) else '%s:%s' % (
                f.loc(f.node).rsplit(':', 1)[0], node)
            rule.rep.add(kind, key, msg, loc)

    def compared(self, state, attr):
        for x in state:
            if x[0] == 'cmp':
                n, a, b = self.sites[x[1]]
                for e in (a, b):
                    o = self.rule.location_of(self.f, e)
                    if isinstance(o, ast.Attribute) and o.attr == attr:
                        return True
        return False


def run(rep):
    C20(rep).run()
