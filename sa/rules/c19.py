"""C19 evaluation never mixes training and testing data"""
import ast
from ..model import Func, Cls, AnalysisError
from ..sim import Frame, NONE, TooBig, has_unknown
from ..flow import Flow
from ..roles import packages
from ..learn import LearnSim, bases, parts, apart, normal, show

EXPLANATION = """
An interprocedural dataflow analysis (abstract interpretation of the source,
nothing is executed and no solver asked) follows the provenance of rows and
columns from every public way to train, apply, test and tune.  A data object
is abstracted to the origin of its rows and of its columns: trainX, testX,
validateX and the labels, and what nimble does with them (copies, extracted and
deleted features and points, permutations, folds, appended objects, calculated
labels) so that at the three places that matter the rows and columns are known as terms: where a package's
interface trains (what _trainer and _incrementalTrainer are given), where it
applies a learner (_applier, _getScores), and where a performance function is
called.  The scenarios are all combinations of: entry point; labels as an
object, a name, an index (python or numpy), or none; test data given or not;
multi-class strategy; score mode; and for tuning every validation protocol,
each analysed for several argument
sets.  Rules: what is trained on are rows of
the training data only, the labels are those of the same rows in the same
order, and the label column is neither among the features nor replaced by
another column; what a learner is applied to are rows of the testing data, and
during validation rows that are not among those its learner was trained on;
a performance function gets the known labels first and the predictions second,
both for the same rows in the same order; data that is joined on one axis
agrees on the other.  A combination that is documented must be able to reach
the learner at all.  In each package's interface, what is handed on as X, Y,
trainX, trainY or testX (by position, keyword, key, or in the branch for that
parameter name), and each element of what the input transformation returns, is
made from the parameter of that role only."""

ASSUMPTIONS = [
    'the learners of the packages themselves train with what their fit '
    'method is given and predict for what their predict method is given',
    'the structural methods of data objects select the rows and columns they '
    'are asked for (C06, C09, C12 are about those)',
    'argument selectors evaluate arguments only through Validator.validate',
]

UI = 'nimble.core.interfaces.universal_interface'
LEARN = 'nimble.core.learn'
VALIDATIONS = ('cross validation', 'leave one out', 'leave one group out',
               'data', 'proportion')


class Labels:
    """which columns hold labels, per data object"""

    def __init__(self):
        self.kind = {}

    def set(self, data, name, kind):
        self.kind[data] = (name, kind)

    def of(self, data):
        return self.kind.get(data, (None, None))

    def has(self, cols):
        """do these columns include labels (None: cannot tell)"""
        if cols[0] == 'b':
            for d, (n, k) in self.kind.items():
                if cols[1] == n:
                    return True
                if cols[1] == d + ' cols':
                    return k not in (None, 'obj')
            return False if cols[1].endswith(' cols') else None
        if cols[0] in ('rest', 'sel'):
            inner = self.has(cols[1])
            if inner is False:
                return False
            for d, (n, k) in self.kind.items():
                if k not in (None, 'obj') and cols[2] == ('id', n, k) and \
                        bases(cols[1]) == {d + ' cols'}:
                    return cols[0] == 'sel'
            return None
        if cols[0] == 'app':
            got = [self.has(cols[1]), self.has(cols[2])]
            return True if True in got else None if None in got else False
        if cols[0] in ('perm', 'map'):
            return self.has(cols[1])
        return None

    def only(self, cols, data):
        """are these exactly the labels of that data"""
        while cols[0] in ('map', 'perm'):
            cols = cols[1]
        n, k = self.of(data)
        if k == 'obj':
            return cols == ('b', n)
        return cols == ('sel', ('b', data + ' cols'), ('id', n, k))


class Study:
    def __init__(self, rep):
        self.rep = rep
        self.sim = Evaluator(rep.prog, rep.nim)
        self.sim.trained, self.sim.applied = self.train, self.apply
        self.sim.measured, self.sim.note = self.measure, self.join
        self.validator = self.sim.find('nimble.core.tune', 'Validator')
        self.frame = Frame(self.sim.find(LEARN, 'train'))
        self.seen = set()
        self.broken = set()

    # ----------------------------------------------------------- events
    def where(self, fr, node):
        trail = self.sim.trail
        for g, _ in reversed(trail):
            if g.module.name in (LEARN, 'nimble.core.tune', UI):
                return g
        return fr.f

    def place(self):
        """the innermost call that public code makes towards the sink"""
        names = [(g.qual, loc) for g, loc in self.sim.trail]
        return names

    def report(self, rule, construct, msg, fr, node):
        names = self.place()
        self.rep.add(rule, construct + '|' + self.name.split(' ')[0],
                     '%s: %s' % (self.name, msg), fr.f.loc(node),
                     ['%s called at %s' % n for n in names[-8:]])

    def validating(self):
        return any(g.cls is not None and self.validator in g.cls.mro()
                   for g, _ in self.sim.trail)

    def determined(self, *sides):
        for s in sides:
            if s is None:
                continue
            if s[0] == '?' or any(not x.split(' ')[0] in NAMES
                                  for x in bases(s[0])) or \
                    not bases(s[0]):
                self.rep.count('undetermined')
                return False
        self.rep.count('determined')
        return True

    def plainest(self, s):
        return s if s is None or s[0] == '?' else (
            normal(s[0], self.sim), normal(s[1], self.sim))

    def train(self, name, X, Y, env, st, node, fr):
        self.events.add('train')
        X, Y = self.plainest(X), self.plainest(Y)
        if env.get('trainY', NONE)[0] == 'id':
            self.report('labels', fr.f.qual, 'the identifier of the labels '
                        'is given to the learner in their place', fr, node)
            return
        if X is None or not self.determined(X, Y):
            return
        lab = self.labels
        data = bases(X[0])
        self.rep.count('trainings')
        if not data <= self.training:
            self.report('trained-on', fr.f.qual, 'a learner is trained with '
                        'rows of %s' % ', '.join(sorted(data -
                                                        self.training)),
                        fr, node)
            return
        if len(data) != 1:
            self.report('trained-on', fr.f.qual, 'a learner is trained with '
                        'rows of %s together' % ' and '.join(sorted(data)),
                        fr, node)
            return
        d = list(data)[0]
        n, k = lab.of(d)
        if k is None:
            if Y is not None:
                self.report('labels', fr.f.qual, 'a learner is given labels '
                            'though none were given', fr, node)
            return
        if Y is None:
            self.report('labels', fr.f.qual, 'the given labels do not reach '
                        'the learner', fr, node)
            return
        if Y[0] != X[0]:
            self.report('rows', fr.f.qual, 'training data and labels are for '
                        'different points or in different order: %s / %s' %
                        (show(X[0]), show(Y[0])), fr, node)
        if not lab.only(Y[1], d):
            self.report('labels', fr.f.qual, 'a learner is trained with '
                        'labels that are not those given: %s' % show(Y[1]),
                        fr, node)
        if bases(X[1]) - {d + ' cols', n}:
            self.report('features', fr.f.qual, 'features of other data are '
                        'used in training: %s' % show(X[1]), fr, node)
        elif lab.has(X[1]):
            self.report('label-column', fr.f.qual, 'the labels are among the '
                        'features the learner is trained with', fr, node)

    def apply(self, name, learner, T, env, st, node, fr):
        self.events.add('apply')
        T = self.plainest(T)
        if T is None or not self.determined(T):
            return
        self.rep.count('applications')
        data = bases(T[0])
        X = learner[1] if learner[0] == 'model' else None
        inside = self.validating()
        ok = (self.training | {'validateX'}) if inside else self.testing
        if not data <= ok:
            self.report('applied-to', fr.f.qual, 'a learner is applied to '
                        'rows of %s%s' % (
                            ', '.join(sorted(data - ok)),
                            ' during validation' if inside else ''),
                        fr, node)
            return
        if self.labels.has(T[1]):
            self.report('label-column', fr.f.qual, 'the labels are among the '
                        'features a learner is applied to', fr, node)
        if inside and X is not None and X[0] != '?':
            self.rep.count('validation folds')
            if not apart(X[0], T[0]):
                self.report('held-out', fr.f.qual, 'validation applies a '
                            'learner to points it was trained with: trained '
                            'on %s, applied to %s' % (show(X[0]),
                                                      show(T[0])), fr, node)

    def measure(self, known, pred, st, node, fr):
        self.events.add('measure')
        K, P = self.sim.side(known, st), self.sim.side(pred, st)
        K, P = self.plainest(K), self.plainest(P)
        if K is None or P is None:
            self.report('performance', fr.f.qual, 'a performance function is '
                        'called without %s' % (
                            'known values' if K is None else 'predictions'),
                        fr, node)
            return
        if K[0] != '?' and predicted(K[1]):
            self.report('order', fr.f.qual, 'a performance function is given '
                        'predictions in place of the known values', fr, node)
            return
        if not self.determined(K, P):
            return
        self.rep.count('measurements')
        if not predicted(P[1]):
            self.report('order', fr.f.qual, 'a performance function is given '
                        '%s in place of the predictions' % show(P[1]),
                        fr, node)
            return
        if K[0] != P[0]:
            self.report('same-data', fr.f.qual, 'known values and '
                        'predictions are not for the same points in the same '
                        'order: %s / %s' % (show(K[0]), show(P[0])),
                        fr, node)
            return
        d = list(bases(K[0]))
        if len(d) == 1 and self.labels.of(d[0])[1] is not None and \
                not self.labels.only(K[1], d[0]):
            self.report('labels', fr.f.qual, 'the known values are not the '
                        'labels given: %s' % show(K[1]), fr, node)

    def join(self, how, mine, theirs, node, fr):
        if not self.determined((mine, mine), (theirs, theirs)):
            return
        self.report('joined', fr.f.qual, '%s of objects that do not agree on '
                    'the other axis: %s / %s' % (how, show(mine),
                                                 show(theirs)), fr, node)

    # -------------------------------------------------------- scenarios
    def begin(self, name, labels, training, testing, sizes):
        st = self.sim.begin()
        self.name = name
        self.labels = Labels()
        for d, (n, k) in labels.items():
            self.labels.set(d, n, k)
        self.training, self.testing = set(training), set(testing)
        self.sim.widths = {'trainY': 1, 'testY': 1, 'validateY': 1,
                           'moreY': 1}
        self.sim.sizes = {}
        if sizes:
            for d in ('trainX', 'testX', 'validateX', 'moreX'):
                self.sim.sizes[d] = 7
                k = self.labels.of(d)[1]
                self.sim.widths[d + ' cols'] = 6 + (
                    1 if k not in (None, 'obj') else 0)
        self.events = set()
        self.rep.count('scenarios')
        return st

    def X(self, st, d):
        return self.sim.data(st, ('b', d), ('b', d + ' cols'))

    def Y(self, st, d):
        n, k = self.labels.of(d)
        if k is None:
            return NONE
        if k == 'obj':
            return self.sim.data(st, ('b', d), ('b', n))
        return ('id', n, k)

    def arguments(self, st):
        return st.new(('dict', ((('c', 'alpha'), ('sym', 'alpha')),)))

    def call(self, f, me, kw, st):
        return self.sim.call_func(f, me, [], dict(kw), st, f.node,
                                  self.frame)

    def attempt(self, run, needs):
        try:
            outs = run()
        except TooBig:
            self.rep.count('too big')
            self.rep.sample('too_big', self.name, 20)
            return []
        if self.sim.cut:
            self.rep.count('cut paths', self.sim.cut)
        missing = [n for n in needs or () if n not in self.events]
        if needs is not None and (not outs or missing) and \
                not self.sim.cut and \
                self.name not in self.broken:
            self.broken.add(self.name)
            raised = sorted({'%s (line %s)' % (e, n.lineno)
                             for e, s, n in self.sim.raised[0]
                             if n is not None})
            f = self.entry
            self.rep.add('reach', '%s|%s' % (f.qual, self.name),
                         '%s: documented input never gets there (%s)%s' % (
                             self.name, ', '.join(missing) or 'no path '
                             'completes', ': ' + ', '.join(raised)
                             if raised else ''), f.loc(f.node))
        return outs

    def learn(self, fname, labels, test=None, mc=None, score=None,
              predict=None, sizes=False, needs=('train',), tuning=None,
              extra=None):
        what = '%s(trainY %s%s%s%s%s)' % (
            fname, word(labels.get('trainX')),
            ', testX given, testY %s' % word(labels.get('testX'))
            if test else '', ', multiClassStrategy %s' % mc if mc else '',
            ', scoreMode %s' % (score or predict) if score or predict
            else '', ', tuning with %s' % tuning if tuning else '')
        f = self.entry = self.sim.find(LEARN, fname)
        testing = {'testX'} if test else {'trainX'}
        if fname == 'normalizeData':
            testing = {'trainX', 'testX'}
        lab = dict(labels)
        if tuning == 'data':
            lab['validateX'] = ('validateY', 'obj' if labels['trainX'][1] ==
                                'obj' else labels['trainX'][1])
        st = self.begin(what, lab, {'trainX'}, testing, sizes)
        (pf, st), = self.sim.metric(st, predict)
        kw = {'learnerName': ('c', 'package.Learner'),
              'trainX': self.X(st, 'trainX'),
              'trainY': self.Y(st, 'trainX'),
              'testX': self.X(st, 'testX') if test else NONE,
              'testY': self.Y(st, 'testX') if test else NONE,
              'performanceFunction': pf, 'arguments': self.arguments(st),
              'multiClassStrategy': ('c', mc), 'scoreMode': ('c', score),
              'matchingElements': ('sym', 'match')}
        kw.update(extra or {})
        kw = {k: v for k, v in kw.items() if k in f.params}

        # validation with separate data keeps the learner of the last set
        self.sim.sets = 3 if tuning == 'data' else 2

        def run():
            starts = [(kw, st)]
            if tuning:
                starts = [(dict(kw, tuning=t), s)
                          for t, s in self.tuning(tuning, pf, st)]
            outs = []
            for k, s in starts:
                outs += self.call(f, None, k, s)
            return outs
        return self.attempt(run, needs)

    def tuning(self, kind, pf, st):
        c = self.sim.find('nimble.core.tune', 'Tuning')
        a = {'selection': ('c', 'brute force'), 'validation': ('c', kind),
             'performanceFunction': pf, 'folds': ('c', 3)}
        if kind == 'data':
            a['validateX'] = self.X(st, 'validateX')
            a['validateY'] = self.Y(st, 'validateX')
        if kind == 'leave one group out':
            a['foldFeature'] = ('id', 'group', 'str')
        return self.sim.construct(c, [], a, st, self.frame.f.node,
                                  self.frame)

    def method(self, meth, labels, test=None, mc=None, score=None,
               predict=None, sizes=False, needs=(), retrain=False):
        """train, then use the trained learner"""
        what = 'TrainedLearner.%s(%s%s%s)' % (
            meth, 'trainY ' + word(labels.get('moreX')) if retrain else
            'testY ' + word(labels.get('testX')),
            ', multiClassStrategy %s' % mc if mc else '',
            ', scoreMode %s' % (score or predict) if score or predict else '')
        f = self.sim.find(LEARN, 'train')
        st = self.begin(what, labels, {'trainX', 'moreX'}, {'testX'}, sizes)
        (pf, st), = self.sim.metric(st, predict)
        kw = {'learnerName': ('c', 'package.Learner'),
              'trainX': self.X(st, 'trainX'), 'trainY': self.Y(st, 'trainX'),
              'arguments': self.arguments(st),
              'multiClassStrategy': ('c', mc)}
        tl = self.sim.find(UI, 'TrainedLearner')
        self.entry = tl.lookup(meth)

        def run():
            outs = []
            for v, s in self.call(f, None, kw, st):
                self.events.clear()
                rec = s.rec(v)
                if not rec or rec[0] != 'inst':
                    continue
                m = rec[1].lookup(meth)
                if retrain:
                    k = {'trainX': self.X(s, 'moreX'),
                         'trainY': self.Y(s, 'moreX'),
                         'arguments': self.arguments(s)}
                else:
                    k = {'testX': self.X(s, 'testX'),
                         'testY': self.Y(s, 'testX'),
                         'performanceFunction': pf,
                         'scoreMode': ('c', score)}
                k = {a: b for a, b in k.items() if a in m.params}
                outs += self.call(m, v, k, s)
            return outs
        return self.attempt(run, needs)


NAMES = ('trainX', 'testX', 'validateX', 'moreX', 'trainY', 'testY',
         'validateY', 'moreY')


def predicted(cols):
    while cols[0] in ('map', 'perm', 'sel', 'rest'):
        cols = cols[1]
    if cols[0] == 'app':
        return predicted(cols[1]) or predicted(cols[2])
    return cols[0] == 'pred'


def word(lab):
    if lab is None or lab[1] is None:
        return 'not given'
    return {'obj': 'an object', 'str': 'a name', 'int': 'an index',
            'npint': 'a numpy index'}[lab[1]]


class Evaluator(LearnSim):
    """argument selectors try two argument sets"""

    def __init__(self, prog, nim):
        super().__init__(prog, nim)
        self.selector = self.find('nimble.core.tune', 'ArgumentSelector')
        self.sets = 2

    def extra_hook(self, g, me, args, kw, st, node, fr):
        if g.name == 'validateAll' and g.cls is not None and \
                self.selector in g.cls.mro() and me is not None:
            outs = []
            for v, s in self.attr(me, 'validator', st, node, fr):
                sts = [s]
                for i in range(self.sets):
                    nxt = []
                    for s1 in sts:
                        d = s1.new(('dict', ((('c', 'alpha'), ('sym', 'a%d' % i)),
                                             )))
                        for m, s2 in self.attr(v, 'validate', s1, node, fr):
                            nxt += [s3 for _, s3 in self.call(
                                m, [d], {}, s2, node, fr)]
                    sts = [x[1] for x in self.dedupe(
                        [(NONE, x) for x in nxt])]
                outs += [(NONE, x) for x in sts]
            return outs
        if isinstance(g, Func) and g.cls is not None and \
                self.selector in g.cls.mro() and g.name == '__init__' and \
                g.cls is not self.selector and me is not None:
            env = self.bind(g, me, args, kw, st)
            if env is None:
                self.throw('TypeError', st, node)
                return []
            for n in ('arguments', 'validator'):
                self.set_attr(me, n, env.get(n, NONE), st)
            return [(NONE, st)]
        return super().extra_hook(g, me, args, kw, st, node, fr)


def run(rep):
    s = Study(rep)
    kinds = ('obj', 'str', 'int', 'npint')
    lab = {k: {'trainX': ('trainY', k)} for k in kinds + (None,)}

    def both(a, b):
        return {'trainX': ('trainY', a), 'testX': ('testY', b)}
    multi = (None, 'OneVsAll', 'OneVsOne')
    modes = (None, 'bestScore', 'allScores')
    for sizes in (False, True):
        for k in kinds + (None,):
            for mc in multi:
                if k is None and mc:
                    continue
                s.learn('train', lab[k], mc=mc, sizes=sizes)
                for m in modes:
                    if m and (mc or k != 'obj'):
                        continue
                    for test in (True, False):
                        s.learn('trainAndApply', lab[k], test, mc, m,
                                sizes=sizes, needs=('train', 'apply'))
                for b in kinds:
                    if k is not None:
                        s.learn('trainAndTest', both(k, b), True, mc,
                                sizes=sizes,
                                needs=('train', 'apply', 'measure'))
                s.learn('trainAndTest', lab[k], None, mc, sizes=sizes,
                        needs=('train', 'apply', 'measure'))
                if k not in (None, 'obj'):
                    s.learn('trainAndTest', both(k, None), True, mc,
                            sizes=False, needs=())
            # refused when the training labels are an object
            s.learn('trainAndTest', both(k, None), True, sizes=False,
                    needs=None if k == 'obj' else ())
            for f in (None, ('c', 3)):
                if k is not None and (sizes or f is None):
                    s.learn('trainAndTestOnTrainingData', lab[k],
                            sizes=sizes, needs=('train', 'measure'),
                            extra={'crossValidationFolds': f or NONE})
            for test in (True, False):
                s.learn('normalizeData', lab[k], test, sizes=sizes,
                        needs=('train', 'apply'))
            if k is not None:
                for mc in multi:
                    for b in kinds:
                        s.method('test', both(k, b), mc=mc, sizes=sizes,
                                 needs=('apply', 'measure'))
                    s.method('apply', both(k, None), mc=mc, sizes=sizes,
                             needs=('apply',))
                for meth in ('retrain', 'incrementalTrain'):
                    more = dict(lab['obj'])
                    more['moreX'] = ('moreY', k)
                    s.method(meth, more, retrain=True, sizes=sizes,
                             needs=('train',))
                for v in VALIDATIONS if sizes else ():
                    s.learn('train', lab[k], tuning=v, sizes=sizes,
                            needs=('train', 'apply', 'measure'))
        for m in modes:
            s.method('test', both('obj', 'obj'), predict=m, sizes=sizes,
                     needs=('apply', 'measure'))
            s.method('apply', both('obj', None), score=m, sizes=sizes,
                     needs=('apply',))
        s.method('getScores', both('obj', None), sizes=sizes,
                 needs=('apply',))
        s.learn('fillMatching', {'trainX': ('trainY', None)}, sizes=sizes)
    packages(rep, rep.prog, Flow(rep.prog), rep.prog.cls(
        'UniversalInterface'))
    rep.coverage['functions evaluated'] = len(s.sim.calls)
    rep.floor('scenarios', 300)
    rep.floor('trainings', 300)
    rep.floor('applications', 250)
    rep.floor('measurements', 150)
    rep.floor('validation folds', 40)
