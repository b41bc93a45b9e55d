"""C21 what a user gives is checked before a learner runs"""
from ..model import Func, Cls, AnalysisError
from ..sim import NONE, TooBig, items
from ..learn import LearnSim
from .c19 import Study, Evaluator, LEARN, UI, word

EXPLANATION = """
An interprocedural must-pass dataflow analysis (abstract interpretation of the
source; nothing is executed and no solver asked), the one of C19.  Refusals: for every public way to train, apply,
test or retrain and each kind of input that is documented as not accepted,
the entry point is evaluated with that one input wrong (a value that is no
data object, labels for a different number of points, arguments that are no
dict, an option that is none of the accepted ones, testing data with another
number of features, several label columns with options for single labels) and all the others right; no path may reach
the place where a package's interface trains (_trainer, _incrementalTrainer)
or applies (_applier, _getScores).  Arguments: on every path from a
public way to train to _trainer or _incrementalTrainer, exactly the arguments
given to it have been given to the check of the learner's argument names before, and the name
of the learner was confirmed; in each package's _applier and _getScores no
path ends without the new arguments having been matched with the parameters of
the method called; an object given as nimble.Init is made, and a trained
learner loaded, only after the check of the same arguments.  Checks: the checks themselves are evaluated for small
inputs: a missing, an unknown, and a complete set of arguments; known and
unknown learners; known and unknown names of method arguments; they must raise
exactly for the wrong ones.  Custom learners: a class is
validated on every path before it is stored among the registered ones, and
used only through the registration."""

ASSUMPTIONS = [
    'wrong values are those of the kinds listed; a value of a wrong type is '
    'represented by one that is an instance of none of the tested classes',
    'learnerNames, getLearnerParameterNames and getLearnerDefaultValues of '
    'the packages tell the truth',
]

BAD = ('bad',)
RUNS = ('_trainer', '_incrementalTrainer', '_applier', '_getScores')


class Checker(Evaluator):
    """values of a wrong type, and which arguments were checked"""

    def hook_isinstance(self, v, t, st):
        if v[0] == 'bad':
            return False
        return super().hook_isinstance(v, t, st)

    def not_none(self, v, st):
        return v[0] == 'bad' or super().not_none(v, st)

    def truth(self, v, st):
        return True if v[0] == 'bad' else super().truth(v, st)

    def same(self, a, b, st, is_):
        if 'bad' in (a[0], b[0]) and a != b:
            return False
        return super().same(a, b, st, is_)

    def hook_attr(self, v, name, st, node):
        if v[0] == 'bad':
            if v[2] == 'opaque':
                self.throw('AttributeError', st, node)
                return []
            return [(self.u(node, st, name), st)]
        return super().hook_attr(v, name, st, node)

    def hook_method(self, v, name, args, kw, st, node, fr):
        if v[0] == 'bad':
            return [(self.u(node, st, name), st)]
        return super().hook_method(v, name, args, kw, st, node, fr)

    def content(self, v, st):
        rec = st.rec(v)
        if rec and rec[0] == 'dict' and rec[1] is not None:
            return ('dict', tuple(sorted(
                ((k, self.content(x, st)) for k, x in rec[1]), key=str)))
        return self.plain(v, st)

    def extra_hook(self, g, me, args, kw, st, node, fr):
        if isinstance(g, Func) and g.name == '_validateLearnerArgumentValues':
            env = self.bind(g, me, args, kw, st)
            if env is None:
                self.throw('TypeError', st, node)
                return []
            st.marks = st.marks | {
                ('names checked', self.content(env['arguments'], st))}
            return [(NONE, st)]
        return super().extra_hook(g, me, args, kw, st, node, fr)


class Guard(Study):
    def __init__(self, rep):
        super().__init__(rep)
        self.sim.__class__ = Checker
        self.sim.note = lambda *a: None
        self.forbid = ()
        self.armed = True

    # ----------------------------------------------------------- events
    def train(self, name, X, Y, env, st, node, fr):
        self.sink(name, env.get('arguments', NONE), st, node, fr)

    def apply(self, name, learner, T, env, st, node, fr):
        self.sink(name, None, st, node, fr)

    def measure(self, known, pred, st, node, fr):
        self.events.add('measure')

    def sink(self, name, arguments, st, node, fr):
        if not self.armed:
            return
        self.events.add(name)
        if name in self.forbid:
            self.report('refused', '%s|%s' % (fr.f.qual, self.wrong),
                        'a learner is run (%s) without this input being '
                        'refused first' % name, fr, node)
            return
        if self.forbid or arguments is None:
            return
        self.rep.count('trainings examined')
        got = self.sim.content(arguments, st)
        checked = {m[1] for m in st.marks if m[0] == 'names checked'}
        if got not in checked:
            self.report('arguments', fr.f.qual, 'a learner is trained with '
                        'arguments whose names were not checked for it',
                        fr, node)
        if name == '_trainer' and not self.again and \
                ('known learner',) not in st.marks:
            self.report('learner', fr.f.qual, 'a learner is trained without '
                        'its name having been confirmed', fr, node)

    # -------------------------------------------------------- scenarios
    def bad(self, name, how='duck'):
        return ('bad', name, how)

    def wrongly(self, entry, wrong, labels, testing, build, forbid=RUNS,
                first=None, mc=None):
        """evaluate an entry point with one input wrong (None: none)"""
        self.wrong = wrong or 'nothing'
        self.again = first is not None
        st = self.begin('%s with %s' % (entry, wrong) if wrong else entry,
                        labels, {'trainX', 'moreX'}, {'testX'}, True)
        self.name = ('%s with %s' % (entry, wrong)) if wrong else entry
        if mc:
            self.name += ', multiClassStrategy ' + mc
        self.forbid, self.armed = forbid, first is None
        f = self.sim.find(LEARN, first or entry)
        self.entry = f
        (pf, st), = self.sim.metric(st)

        def start():
            if first is None:
                return [(f, None, st)]
            kw = {'learnerName': ('c', 'package.Learner'),
                  'trainX': self.X(st, 'trainX'),
                  'trainY': self.Y(st, 'trainX'),
                  'arguments': self.arguments(st),
                  'multiClassStrategy': ('c', mc)}
            outs = []
            for v, s in self.call(f, None, kw, st):
                rec = s.rec(v)
                if rec and rec[0] == 'inst' and rec[1].lookup(entry):
                    outs.append((rec[1].lookup(entry), v, s))
            return outs

        def run():
            outs = []
            for g, me, s in start():
                self.armed = True
                self.sim.raised = [[]]
                kw = {'learnerName': ('c', 'package.Learner'),
                      'performanceFunction': pf,
                      'arguments': self.arguments(s),
                      'matchingElements': ('sym', 'match')}
                if mc and first is None:
                    kw['multiClassStrategy'] = ('c', mc)
                kw.update(build(s))
                kw = {k: v for k, v in kw.items() if k in g.params
                      or k in g.kwonly}
                outs += self.call(g, me, kw, s)
            return outs
        outs = self.attempt(run, None)
        if wrong:
            self.rep.count('refusals examined')
        elif not outs and not self.sim.cut:
            self.rep.count('no result')
            self.rep.sample('no_result', self.name, 20)
        return outs


class Plain(LearnSim):
    """the checks themselves are evaluated"""

    def extra_hook(self, g, me, args, kw, st, node, fr):
        return None


def concrete(rep, s):
    """the checks of argument names, evaluated for small inputs"""
    sim = Plain(rep.prog, rep.nim)
    ui = sim.find(UI, 'UniversalInterface')

    def outcome(name, args, me=None):
        f = ui.lookup(name)
        if f is None:
            raise AnalysisError('%s not found' % name)
        st = sim.begin()
        vals = {k: value(st, v) for k, v in args.items()}
        missing = [p for p in args if p not in f.params]
        if missing:
            raise AnalysisError('%s has no parameter %s' % (name, missing))
        outs = sim.call_func(f, sim.iface, [], vals, st, f.node, s.frame)
        rep.count('checks evaluated')
        if sim.cut:
            raise AnalysisError('%s: too many paths' % name)
        return f, bool(outs), bool(sim.raised[0])

    def value(st, v):
        if isinstance(v, dict):
            return st.new(('dict', tuple((('c', k), ('sym', str(x)))
                                         for k, x in v.items())))
        if isinstance(v, list):
            return st.new(('list', tuple(value(st, x) for x in v)))
        return ('c', v)

    def expect(name, args, ok, what):
        f, ends, raises = outcome(name, args)
        if ends and raises:
            rep.count('undecided')
            return
        rep.count('checks decided')
        if ok and not ends:
            rep.add('checks', '%s|%s' % (f.qual, what),
                    '%s are refused' % what, f.loc(f.node))
        if not ok and ends:
            rep.add('checks', '%s|%s' % (f.qual, what),
                    '%s are accepted' % what, f.loc(f.node))

    def names(args, needed, defaults, ok, what):
        expect('_argumentValueValidation',
               {'name': 'L', 'possibleParams': [needed],
                'arguments': args, 'neededParams': needed,
                'availableDefaults': defaults}, ok, what)
    names({'a': 1}, ['a'], {}, True, 'the needed arguments')
    names({'a': 1}, ['a', 'b'], {'b': 2}, True,
          'arguments that leave a default')
    names({'a': 1, 'b': 1}, ['a', 'b'], {'b': 2}, True,
          'arguments that replace a default')
    names({}, [], {}, True, 'no arguments')
    names(None, [], {}, True, 'no arguments (None)')
    names({'b': 1}, ['a', 'b'], {'b': 2}, False,
          'arguments without a needed one')
    names({}, ['a'], {}, False, 'no arguments where one is needed')
    names(None, ['a'], {}, False, 'None where an argument is needed')
    names({'a': 1, 'z': 1}, ['a'], {}, False,
          'arguments with an unknown name')
    names({'z': 1}, ['a'], {'a': 1}, False, 'only an unknown name')
    names({'z': 1}, [], {}, False,
          'an argument for a learner without parameters')
    names({'A': 1}, ['a'], {'a': 1}, False,
          'a name in other letter case')

    def method(names, new, stored, ok, what):
        expect('_getMethodArguments',
               {'argNames': names, 'newArguments': new,
                'storedArguments': stored}, ok, what)
    method(['a'], {'a': 1}, {}, True, 'arguments of the method')
    method(['a'], {}, {'a': 1, 'b': 2}, True, 'stored arguments')
    method(['a'], {'z': 1}, {'a': 1}, False, 'names not of the method')
    method(['a'], {'a': 1, 'z': 1}, {}, False,
           'names not of the method beside one that is')
    method([], {'z': 1}, {}, False, 'names for a method without parameters')
    method(['a'], {'z': 1}, {'z': 1}, False,
           'names not of the method that are stored')


class Named(LearnSim):
    """an interface with two learners"""

    def extra_hook(self, g, me, args, kw, st, node, fr):
        if g.name == 'learnerNames' and g.cls is not None:
            return [(st.new(('list', (('c', 'One'), ('c', 'Two')))), st)]
        if g.name in ('_confirmValidLearner',):
            return None
        return super().extra_hook(g, me, args, kw, st, node, fr)


def known_learners(rep, s):
    sim = Named(rep.prog, rep.nim)
    ui = sim.find(UI, 'UniversalInterface')
    f = ui.lookup('_confirmValidLearner')
    if f is None:
        raise AnalysisError('_confirmValidLearner not found')
    for n, ok in (('One', True), ('Two', True), ('Three', False),
                  ('one', False), ('On', False)):
        st = sim.begin()
        outs = sim.call_func(f, sim.iface, [('c', n)], {}, st, f.node,
                             s.frame)
        rep.count('checks evaluated')
        if bool(outs) != ok:
            rep.add('checks', '%s|%s' % (f.qual, n), 'a learner named %s is '
                    '%s where One and Two exist' % (
                        n, 'refused' if ok else 'accepted'), f.loc(f.node))


class Methods(LearnSim):
    """package interfaces: which arguments were matched with a method"""

    def inline(self, g):
        return g.module.name.startswith('nimble.core.interfaces') and \
            super().inline(g)

    def inst_attr(self, v, rec, name, st, node, fr):
        if rec[1].lookup(name) is None and name not in items(rec):
            return [(self.u(node, st, name), st)]
        return super().inst_attr(v, rec, name, st, node, fr)

    def extra_hook(self, g, me, args, kw, st, node, fr):
        if g.name == '_getMethodArguments':
            env = self.bind(g, me, args, kw, st)
            if env is None:
                self.throw('TypeError', st, node)
                return []
            st.marks = st.marks | {('matched', env['newArguments'])}
            return [(self.u(node, st), st)]
        return super().extra_hook(g, me, args, kw, st, node, fr)


def package_methods(rep, s):
    sim = Methods(rep.prog, rep.nim)
    ui = rep.prog.cls('UniversalInterface')
    for c in sorted(ui.all_subs(), key=lambda c: c.qual):
        for n in ('_applier', '_getScores'):
            f = c.methods.get(n)
            if f is None or f.is_abstract:
                continue
            st = sim.begin()
            me = st.new(('inst', c, ()))
            new = ('sym', 'new arguments')
            kw = {p: st.fresh((f.qual, p)) for p in f.params
                  if p != f.method_self}
            if 'newArguments' not in kw:
                raise AnalysisError('%s has no parameter newArguments'
                                    % f.qual)
            kw['newArguments'] = new
            try:
                outs = sim.call_func(f, me, [], kw, st, f.node, s.frame)
            except TooBig:
                rep.count('too big')
                continue
            rep.count('package methods')
            rep.sample('package_methods', f.qual, 30)
            bad = [x for v, x in outs if ('matched', new) not in x.marks]
            if bad or not outs:
                rep.add('unmatched', f.qual, 'arguments given for %s are '
                        'not matched with the parameters of the method of '
                        'the learner on every path' % n, f.loc(f.node))


class Maker(LearnSim):
    """objects made for arguments given as nimble.Init"""

    def extra_hook(self, g, me, args, kw, st, node, fr):
        if g.name == 'findCallable' and g.cls is not None:
            return [(('maker',), st)]
        if g.name == '_validateArgumentValues':
            env = self.bind(g, me, args, kw, st)
            if env is None:
                self.throw('TypeError', st, node)
                return []
            st.marks = st.marks | {
                ('checked', content(self, env['arguments'], st))}
            return [(NONE, st)]
        return super().extra_hook(g, me, args, kw, st, node, fr)

    def not_none(self, v, st):
        return v[0] == 'maker' or super().not_none(v, st)

    def truth(self, v, st):
        return True if v[0] == 'maker' else super().truth(v, st)

    def call(self, fv, args, kw, st, node, fr):
        if fv[0] == 'maker':
            given = ('dict', tuple(sorted(
                ((('c', k), content(self, x, st)) for k, x in kw.items()),
                key=str)))
            self.made.append((given, st.marks, node, fr))
            return [(('made', len(kw)), st)]
        return super().call(fv, args, kw, st, node, fr)

    def package(self, n, env, st, node, fr):
        if n == '_loadTrainedLearnerBackend':
            self.loaded.append((st.marks, node, fr))
        return super().package(n, env, st, node, fr)


class Loader(Maker):
    """learners that are loaded instead of trained"""

    def extra_hook(self, g, me, args, kw, st, node, fr):
        return LearnSim.extra_hook(self, g, me, args, kw, st, node, fr)


def content(sim, v, st):
    rec = st.rec(v)
    if rec and rec[0] == 'dict' and rec[1] is not None:
        return ('dict', tuple(sorted(
            ((k, content(sim, x, st)) for k, x in rec[1]), key=str)))
    return v


def made_objects(rep, s):
    sim = Maker(rep.prog, rep.nim)
    ui = sim.find(UI, 'UniversalInterface')
    init = rep.prog.cls('Init')
    f = ui.lookup('_argumentInit')
    if f is None:
        raise AnalysisError('_argumentInit not found')

    def obj(st, name, kw):
        d = st.new(('dict', tuple((('c', k), x) for k, x in kw.items())))
        return st.new(('inst', init, (('name', ('c', name)),
                                      ('kwargs', d))))
    for nested in (False, True):
        for kw in ({}, {'a': ('sym', 'a')},
                   {'a': ('sym', 'a'), 'b': ('sym', 'b')}):
            sim.made, sim.loaded = [], []
            st = sim.begin()
            kw = dict(kw)
            if nested:
                kw['c'] = obj(st, 'Inner', {'z': ('sym', 'z')})
            v = obj(st, 'Outer', kw)
            outs = sim.call_func(f, sim.iface, [v], {}, st, f.node, s.frame)
            rep.count('objects made', len(sim.made))
            if not outs or len(sim.made) < 1 + nested:
                rep.add('made', f.qual + '|none', 'an argument given as '
                        'nimble.Init is not made', f.loc(f.node))
            for given, marks, node, fr in sim.made:
                if ('checked', given) not in marks:
                    rep.add('made', fr.f.qual, 'an object is made for an '
                            'argument before its own arguments were checked',
                            fr.f.loc(node))
    f = ui.lookup('loadTrainedLearner')
    if f is None:
        raise AnalysisError('loadTrainedLearner not found')
    sim = Loader(rep.prog, rep.nim)
    sim.made, sim.loaded = [], []
    st = sim.begin()
    a = s.arguments(st)
    sim.call_func(f, sim.iface, [('c', 'L'), a], {}, st, f.node, s.frame)
    rep.count('learners loaded', len(sim.loaded))
    for marks, node, fr in sim.loaded:
        if ('known learner',) not in marks or \
                ('validated', sim.plain(a, st)) not in marks:
            rep.add('made', fr.f.qual, 'a learner is loaded before its name '
                    'and arguments were checked', fr.f.loc(node))


class Registry(LearnSim):
    """custom learners: validated before they are stored"""

    def hook_isinstance(self, v, t, st):
        if v[0] == 'custom' and t[0] == 'ext':
            return False
        return super().hook_isinstance(v, t, st)

    def not_none(self, v, st):
        return v[0] == 'custom' or super().not_none(v, st)

    def truth(self, v, st):
        return True if v[0] == 'custom' else super().truth(v, st)

    def hook_attr(self, v, name, st, node):
        if v[0] == 'custom':
            if name == '__name__':
                return [(('c', 'Mine'), st)]
            if name == '__module__':
                return [(('c', 'mine'), st)]
            return [(self.u(node, st, name), st)]
        return super().hook_attr(v, name, st, node)

    def hook_call(self, g, me, args, kw, st, node, fr):
        if g.name == 'validateCustomLearnerSubclass':
            if ('custom',) in list(args) + list(kw.values()):
                st.marks = st.marks | {('validated custom',)}
            return [(NONE, st)]
        if g.name == 'registerLearnerClass' and self.stub:
            if ('custom',) in list(args) + list(kw.values()):
                st.marks = st.marks | {('registered',)}
            return [(NONE, st)]
        if g.name == 'findBestInterface':
            return [(self.iface, st)]
        return None


def registration(rep, s):
    sim = Registry(rep.prog, rep.nim)
    regs = [f for f in rep.prog.funcs if f.name == 'registerLearnerClass']
    if not regs:
        raise AnalysisError('registerLearnerClass not found')
    for f, there in [(f, t) for f in regs for t in ((), ('Mine',))]:
        sim.stub = False
        st = sim.begin()
        d = st.new(('dict', tuple((('c', n), ('sym', 'earlier class'))
                                  for n in there)))
        me = st.new(('inst', f.cls, (('registeredLearners', d),)))
        outs = sim.call_func(f, me, [('custom',)], {}, st, f.node, s.frame)
        rep.count('registrations')
        for v, x in outs:
            if ('validated custom',) not in x.marks:
                rep.add('custom', f.qual, 'a custom learner class is '
                        'registered without having been validated',
                        f.loc(f.node))
                break
    stores(rep)


def stores(rep):
    """registered classes are stored by the registration only"""
    import ast
    for f in rep.prog.funcs:
        if f.name in ('registerLearnerClass', '__init__'):
            continue
        for n in ast.walk(f.node):
            t = n.targets if isinstance(n, ast.Assign) else []
            for x in t:
                if isinstance(x, ast.Subscript) and \
                        isinstance(x.value, ast.Attribute) and \
                        x.value.attr == 'registeredLearners':
                    rep.add('custom', f.qual, 'a class is stored among the '
                            'registered learners without validation',
                            f.loc(n))


def run(rep):
    s = Guard(rep)
    kinds = ('obj', 'str', 'int')

    def lab(a, b=None, more=None):
        d = {'trainX': ('trainY', a)}
        if b:
            d['testX'] = ('testY', b)
        if more:
            d['moreX'] = ('moreY', more)
        return d
    multi = ('OneVsAll', 'OneVsOne')
    entries = {
        'train': ('trainX', 'trainY', 'arguments', 'multiClassStrategy'),
        'trainAndApply': ('trainX', 'trainY', 'testX', 'arguments',
                          'multiClassStrategy', 'scoreMode'),
        'trainAndTest': ('trainX', 'trainY', 'testX', 'testY', 'arguments',
                         'multiClassStrategy'),
        'trainAndTestOnTrainingData': ('trainX', 'trainY', 'arguments',
                                       'multiClassStrategy'),
        'normalizeData': ('trainX', 'trainY', 'testX', 'arguments'),
        'fillMatching': ('trainX', 'arguments'),
    }

    def other(st, name):
        """labels of other points"""
        s.sim.sizes['other'] = 5
        return s.sim.data(st, ('b', 'other'), ('b', name))

    def wide(st, name):
        s.sim.widths[name] = 2
        return s.Y(st, 'trainX')

    def right(f, k):
        def build(st):
            kw = {'trainX': s.X(st, 'trainX')}
            if f != 'fillMatching':
                kw['trainY'] = s.Y(st, 'trainX')
            if 'testX' in entries[f]:
                kw['testX'] = s.X(st, 'testX')
            if 'testY' in entries[f]:
                kw['testY'] = s.Y(st, 'testX')
            return kw
        return build

    def but(f, k, **change):
        good = right(f, k)

        def build(st):
            kw = good(st)
            for n, v in change.items():
                kw[n] = v(st) if callable(v) else v
            return kw
        return build
    WRONG = [
        ('trainX', 'a wrong type of trainX', s.bad('trainX')),
        ('trainY', 'a wrong type of trainY', s.bad('trainY')),
        ('trainY', 'trainY for other points',
         lambda st: other(st, 'trainY')),
        ('testX', 'a wrong type of testX', s.bad('testX')),
        ('testY', 'a wrong type of testY', s.bad('testY')),
        ('testY', 'testY for other points', lambda st: other(st, 'testY')),
        ('arguments', 'arguments that are no dict', s.bad('arguments')),
        ('scoreMode', 'an unknown scoreMode', ('c', 'someScores')),
        ('scoreMode', 'a wrong type of scoreMode',
         s.bad('scoreMode', 'opaque')),
        ('multiClassStrategy', 'an unknown multiClassStrategy',
         ('c', 'someVsSome')),
        ('multiClassStrategy', 'a wrong type of multiClassStrategy',
         s.bad('multiClassStrategy', 'opaque')),
    ]
    for f, params in entries.items():
        fn = s.sim.find(LEARN, f)
        for p in params:
            if p not in fn.params:
                raise AnalysisError('%s has no parameter %s' % (f, p))
        for k in kinds:
            if f == 'fillMatching' and k != 'obj':
                continue
            labels = lab(k if f != 'fillMatching' else None,
                         k if 'testY' in params else None)
            for mc in (None,) + multi:
                if mc and 'multiClassStrategy' not in params:
                    continue
                s.wrongly(f, None, labels, {'testX'}, right(f, k), (), mc=mc)
                for p, what, v in WRONG:
                    if p not in params or mc and p == 'multiClassStrategy':
                        continue
                    if 'other points' in what and k != 'obj':
                        continue
                    s.wrongly(f, what, labels, {'testX'},
                              but(f, k, **{p: v}), mc=mc)
                if k == 'obj' and mc:
                    s.wrongly(f, 'two columns of labels', labels, {'testX'},
                              but(f, k, trainY=lambda st: wide(st, 'trainY')),
                              mc=mc)
            if k == 'obj' and 'scoreMode' in params:
                s.wrongly(f, 'two columns of labels and a scoreMode', labels,
                          {'testX'}, but(f, k, trainY=lambda st: wide(
                              st, 'trainY'), scoreMode=('c', 'bestScore')))
    # trained learners
    methods = {
        'test': ('testX', 'testY', 'arguments'),
        'apply': ('testX', 'arguments', 'scoreMode'),
        'getScores': ('testX', 'arguments'),
        'retrain': ('trainX', 'trainY', 'arguments'),
        'incrementalTrain': ('trainX', 'trainY', 'arguments'),
    }

    def rightly(m):
        def build(st):
            if m in ('retrain', 'incrementalTrain'):
                more = st.new(('dict', ((('c', 'beta'),
                                         ('sym', 'beta')),)))
                return {'trainX': s.X(st, 'moreX'),
                        'trainY': s.Y(st, 'moreX'), 'arguments': more}
            kw = {'testX': s.X(st, 'testX')}
            if m == 'test':
                kw['testY'] = s.Y(st, 'testX')
            return kw
        return build

    def butly(m, change):
        good = rightly(m)

        def build(st):
            kw = good(st)
            for n, v in change.items():
                kw[n] = v(st) if callable(v) else v
            return kw
        return build

    def narrow(st):
        s.sim.widths['testX cols'] = 4
        s.sim.sizes['testX'] = 9
        return s.X(st, 'testX')
    for m, params in methods.items():
        for k in kinds:
            if k != 'obj' and m in ('apply', 'getScores'):
                continue
            labels = lab('obj', k if m == 'test' else None,
                         k if m in ('retrain', 'incrementalTrain') else None)
            for mc in (None,) + (multi if m in ('test', 'apply') else ()):
                s.wrongly(m, None, labels, {'testX'}, rightly(m), (),
                          first='train', mc=mc)
                for p, what, v in WRONG:
                    if p not in params:
                        continue
                    if 'other points' in what and k != 'obj':
                        continue
                    s.wrongly(m, what, labels, {'testX'},
                              butly(m, {p: v}), first='train', mc=mc)
                if m in ('test', 'apply', 'getScores') and k == 'obj':
                    s.wrongly(m, 'another number of features in testX',
                              labels, {'testX'},
                              butly(m, {'testX': narrow}),
                              ('_applier', '_getScores'), first='train',
                              mc=mc)
    concrete(rep, s)
    known_learners(rep, s)
    package_methods(rep, s)
    made_objects(rep, s)
    registration(rep, s)
    rep.coverage['functions evaluated'] = len(s.sim.calls)
    rep.floor('refusals examined', 100)
    rep.floor('trainings examined', 30)
    rep.floor('checks evaluated', 20)
    rep.floor('package methods', 4)
    rep.floor('registrations', 1)
    rep.floor('objects made', 9)
    rep.floor('learners loaded', 1)
