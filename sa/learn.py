"""the learning layer of nimble for the symbolic evaluator: data objects are
terms for their rows and columns, learners are what they were trained on"""
import ast
from .model import Func, Cls, AnalysisError
from .sim import (Sim, St, Frame, NONE, TRUE, FALSE, has_unknown, items)

RAW = ('pythonlist', 'numpyarray', 'numpymatrix', 'scipycsr', 'scipycsc',
       'scipycoo', 'pandasdataframe', 'listofdict', 'dictoflist')
SKIP = ('nimble.core.data', 'nimble.core.logger', 'nimble.core.create',
        'nimble.random', 'nimble.match', 'nimble.core._createHelpers',
        'nimble.core.configuration', 'nimble.fill', 'nimble.learners')
QUIET = ('handleLogging', 'loggingEnabled', 'deepLoggingEnabled',
         'detectBestResult', 'prettyDictString', 'prettyListString',
         'generateSubsidiarySeed', 'checkClassificationStrategy',
         'ovaNotOvOFormatted', 'generateBinaryScoresFromHigherSortedLabelScores',
         'calculateSingleLabelScoresFromOneVsOneScores')
CHEAP = ('learnerNames', 'getLearnerParameterNames',
         'getLearnerDefaultValues', '_chooseBestParameterSet',
         '_getValidSeed', 'learnerType', 'findCallable')
CHECKED = ('_validateLearnerArgumentValues', '_validateArgumentValues',
           '_argumentValueValidation')
SINKS = ('_trainer', '_incrementalTrainer', '_applier', '_getScores',
         '_inputTransformation', '_outputTransformation', '_getScoresOrder',
         '_learnerType', '_loadTrainedLearnerBackend', 'getCanonicalName')


def bases(t):
    """the objects of the scenario that a rows/columns term comes from"""
    if isinstance(t, tuple):
        if t and t[0] == 'b':
            return {t[1]}
        out = set()
        if t and t[0] in ('sel', 'rest', 'perm', 'rows', 'map'):
            return bases(t[1])
        if t and t[0] == 'app':
            return bases(t[1]) | bases(t[2])
        for x in t:
            out |= bases(x)
        return out
    return set()


def parts(t):
    """[(base, ((kind, selection), ...))] a rows term is made of"""
    if t[0] == 'b':
        return [(t[1], ())]
    if t[0] in ('sel', 'rest'):
        return [(b, sel + ((t[0], t[2]),)) for b, sel in parts(t[1])]
    if t[0] in ('perm', 'map'):
        return parts(t[1])
    if t[0] == 'app':
        return parts(t[1]) + parts(t[2])
    return [(repr(t), ())]


def apart(a, b):
    """can two rows terms be shown to have no row in common"""
    for x, sx in parts(a):
        for y, sy in parts(b):
            if x != y:
                continue
            for i, (p, q) in enumerate(zip(sx, sy)):
                if p[1] == q[1] and p[0] != q[0] and sx[:i] == sy[:i]:
                    break
            else:
                return False
    return True


def last(cols, sel, sim):
    if sel == ('c', -1):
        return True
    n = sim.nfts(cols)
    if n[0] == 'c' and sel == ('c', n[1] - 1):
        return True
    while cols[0] == 'perm':
        cols = cols[1]
    return sel == ('t', 'Sub', ('t', 'nfts', cols), ('c', 1))


def normal(t, sim):
    """the same rows or columns in the plainest form"""
    if not isinstance(t, tuple) or not t or t[0] not in (
            'sel', 'rest', 'app', 'perm', 'map'):
        return t
    if t[0] == 'app':
        return ('app', normal(t[1], sim), normal(t[2], sim))
    end = t[0] in ('sel', 'rest') and last(t[1], t[2], sim)
    t = (t[0], normal(t[1], sim)) + t[2:]
    end = end or t[0] in ('sel', 'rest') and last(t[1], t[2], sim)
    if end and t[1][0] == 'perm' and t[1][2][0] == 'back':
        return (t[0], t[1][1], t[1][2][1])
    if end and t[1][0] == 'app' and t[1][2][0] in ('b', 'sel') and (
                t[1][2][0] == 'sel' or t[1][2][1] in sim.widths):
        return t[1][2] if t[0] == 'sel' else t[1][1]
    return t


def kind(t):
    """predictions of any learner are alike"""
    if isinstance(t, tuple) and t:
        if t[0] == 'pred':
            return ('pred', None, t[2])
        return tuple(kind(x) for x in t)
    return t


def within(a, b):
    """are the rows of a among those of b"""
    for x, sx in parts(a):
        if not any(x == y and sx[:len(sy)] == sy for y, sy in parts(b)):
            return False
    return True


def show(t):
    if t is None:
        return '-'
    if t[0] == 'b':
        return t[1]
    if t[0] == 'sel':
        return 'selected part of %s' % show(t[1])
    if t[0] == 'rest':
        return 'remaining part of %s' % show(t[1])
    if t[0] == 'perm':
        return 'reordered %s' % show(t[1])
    if t[0] == 'app':
        return '%s with %s' % (show(t[1]), show(t[2]))
    if t[0] == 'map':
        return 'values computed from %s' % show(t[1])
    if t[0] == 'pred':
        return 'predictions'
    return 'new data' if t[0] == 'new' else str(t[0])


class LearnSim(Sim):
    def __init__(self, prog, nim):
        super().__init__(prog)
        self.nim = nim
        self.sizes = {}
        self.widths = {}
        self.base = nim.base
        self.note = lambda *a: None
        self.trained = lambda *a: None
        self.applied = lambda *a: None
        self.measured = lambda *a: None

    # ------------------------------------------------------------ data
    def data(self, st, rows, cols):
        return st.new(('data', rows, cols, ()))

    def is_data(self, v, st):
        rec = st.rec(v)
        return bool(rec and rec[0] == 'data')

    def npts(self, rows):
        if rows[0] == 'b' and rows[1] in self.sizes:
            return ('c', self.sizes[rows[1]])
        if rows[0] == 'perm':
            return self.npts(rows[1])
        return ('t', 'npts', rows)

    def nfts(self, cols):
        if cols[0] == 'b' and cols[1] in self.widths:
            return ('c', self.widths[cols[1]])
        if cols[0] in ('sel', 'rest') and cols[2] and cols[2][0] == 'id':
            n = self.nfts(cols[1])
            if cols[0] == 'sel':
                return ('c', 1)
            if n[0] == 'c':
                return ('c', n[1] - 1)
        if cols[0] in ('sel', 'rest') and cols[2] and cols[2][0] == 'c' and \
                isinstance(cols[2][1], int):
            n = self.nfts(cols[1])
            if cols[0] == 'sel':
                return ('c', 1)
            if n[0] == 'c':
                return ('c', n[1] - 1)
        if cols[0] in ('perm', 'map1'):
            return self.nfts(cols[1])
        if cols[0] == 'map':
            return self.nfts(cols[1])
        if cols[0] == 'app':
            a, b = self.nfts(cols[1]), self.nfts(cols[2])
            if a[0] == b[0] == 'c':
                return ('c', a[1] + b[1])
        if cols[0] == 'pred' and cols[2] == 'label':
            return ('t', 'nfts', cols[0], cols[2])
        return ('t', 'nfts', cols)

    def inline(self, g):
        n = g.module.name
        return not any(n == s or n.startswith(s + '.') for s in SKIP)

    def hook_len(self, v, st):
        if v[0] == 'axis':
            rec = st.heap[v[1]]
            return self.npts(rec[1]) if v[2] == 'points' else \
                self.nfts(rec[2])
        if self.is_data(v, st):
            return self.npts(st.rec(v)[1])
        return None

    def hook_isinstance(self, v, t, st):
        if v[0] == 'id':
            if t[0] == 'cls':
                return False
            if t[0] == 'ext':
                ok = {'str': ('builtins.str',),
                      'int': ('builtins.int', 'numbers.Integral',
                              'numbers.Number'),
                      'npint': ('numbers.Integral', 'numpy.integer',
                                'numpy.int64', 'numbers.Number')}[v[2]]
                return t[1] in ok
            return None
        if self.is_data(v, st):
            if t[0] == 'cls':
                return self.base in t[1].mro() and t[1] is self.base or (
                    None if self.base in t[1].mro() else False)
            if t[0] == 'ext':
                return False
        if v[0] == 'sym' and t[0] == 'cls':
            return False
        if v[0] in ('model', 'rawpred', 'axis') and t[0] in ('cls', 'ext'):
            return False
        return None

    def not_none(self, v, st):
        return v[0] in ('id', 'model', 'rawpred', 'axis', 'exc', 'iter',
                        'sym') or v[0] == 't'

    def same(self, a, b, st, is_):
        r = super().same(a, b, st, is_)
        if r is None:
            for x, y in ((a, b), (b, a)):
                if x[0] == 'id' and y[0] == 'c':
                    return False if y[1] is None else None
        return r

    def hook_attr(self, v, name, st, node):
        if self.is_data(v, st):
            rec = st.rec(v)
            if name in ('points', 'features'):
                return [(('axis', v[1], name), st)]
            if name == 'shape':
                return [(('tup', (self.npts(rec[1]), self.nfts(rec[2]))),
                         st)]
            if name == 'T':
                return [(self.data(st, rec[2], rec[1]), st)]
            if name in ('name', '_data', '_dims', 'logID'):
                return [(self.u(node, st, name), st)]
            return [(('bm', v, name), st)]
        if v[0] in ('axis', 'id', 'model', 'rawpred'):
            if v[0] == 'id' and v[2] != 'str' and not hasattr(int, name):
                self.throw('AttributeError', st, node)
                return []
            if v[0] == 'id' and v[2] == 'str' and not hasattr(str, name):
                self.throw('AttributeError', st, node)
                return []
            return [(('bm', v, name), st)]
        return None

    def hook_method(self, v, name, args, kw, st, node, fr):
        if v[0] == 'axis':
            return self.axis_method(v, name, args, kw, st, node, fr)
        if self.is_data(v, st):
            return self.data_method(v, name, args, kw, st, node, fr)
        if v[0] in ('model', 'rawpred', 'id'):
            return [(self.u(node, st), st)]
        return None

    def arg(self, args, kw, i, *names):
        for n in names:
            if n in kw:
                return kw[n]
        return args[i] if len(args) > i else NONE

    def data_method(self, v, name, args, kw, st, node, fr):
        rec = st.rec(v)
        rows, cols = rec[1], rec[2]
        if name == 'copy':
            to = self.arg(args, kw, 0, 'to')
            if to[0] == 'c' and isinstance(to[1], str) and to[1].replace(
                    ' ', '').lower() in RAW:
                return [(('t', 'raw', rows, cols), st)]
            if args and args[0][0] == 'u':
                return [(('t', 'raw', rows, cols), st)]
            return [(self.data(st, rows, cols), st)]
        if name in ('pointView', 'featureView', 'view'):
            return [(self.data(st, ('sel', rows, self.vals(args, kw)), cols),
                     st)]
        if name in ('calculateOnElements', 'matchingElements'):
            return [(self.data(st, rows, ('map', cols)), st)]
        if name in ('transformElements', 'fillMatching'):
            st.heap[v[1]] = ('data', rows, ('map', cols), ())
            return [(NONE, st)]
        if name in ('transpose',):
            st.heap[v[1]] = ('data', cols, rows, ())
            return [(NONE, st)]
        if name in ('getTypeString',):
            return [(('t', 'type'), st)]
        if name == '[]':
            return [(('t', '[]', ('t', 'content', rows, cols), args[0])
                     if not has_unknown(args[0]) and args[0][0] != 'o'
                     else self.u(node, st), st)]
        if name in ('__len__',):
            return [(self.npts(rows), st)]
        return [(self.u(node, st, name), st)]

    def vals(self, args, kw):
        return tuple(args) + tuple(x for k, x in sorted(kw.items())
                                   if k != 'useLog')

    def axis_method(self, v, name, args, kw, st, node, fr):
        oid, axis = v[1], v[2]
        rec = st.heap[oid]
        rows, cols = rec[1], rec[2]
        pts = axis == 'points'
        mine = rows if pts else cols

        def store(new):
            st.heap[oid] = ('data', new, cols, ()) if pts else \
                ('data', rows, new, ())

        def made(new):
            return self.data(st, new, cols) if pts else \
                self.data(st, rows, new)
        sel = self.arg(args, kw, 0, 'toExtract', 'toCopy', 'toDelete',
                       'toRetain')
        others = tuple(self.plain(x, st) for x in args[1:]) + tuple(
            (k, self.plain(x, st)) for k, x in sorted(kw.items())
            if k not in ('useLog', 'toExtract', 'toCopy', 'toDelete',
                         'toRetain'))
        sel = self.plain(sel, st)
        if sel[0] == 'tup' and len(sel[1]) == 1:
            sel = sel[1][0]
        what = sel if not others else ('t', 'sel', sel) + others
        if name in ('extract', 'copy', 'delete', 'retain', '[]'):
            if name == '[]':
                what = sel = self.plain(args[0], st)
            if name in ('extract', 'delete'):
                store(('rest', mine, what))
            if name == 'retain':
                store(('sel', mine, what))
            if name in ('delete', 'retain'):
                return [(NONE, st)]
            return [(made(('sel', mine, what)), st)]
        if name in ('permute', 'sort', 'shuffle'):
            order = self.plainall(args, kw, st)
            if name != 'sort' and order in ((), (NONE,),
                                            (('order', NONE),)):
                # a random order of its own
                order = (st.fresh((name, fr.f.qual, node.lineno)),)
            store(('perm', mine, (name,) + order))
            return [(NONE, st)]
        if name in ('append', 'insert'):
            other = self.arg(args, kw, 0 if name == 'append' else 1,
                             'toAppend', 'toInsert')
            o = st.rec(other)
            if o and o[0] == 'data':
                theirs = o[1] if pts else o[2]
                store(join(mine, theirs, self))
                same = (cols, o[2]) if pts else (rows, o[1])
                same = tuple(kind(normal(x, self)) for x in same)
                if same[0] != same[1]:
                    self.note(name, same[0], same[1], node, fr)
            else:
                store(('app', mine, ('new', 0)))
            return [(NONE, st)]
        if name in ('transform', 'fillMatching', 'normalize'):
            st.heap[oid] = ('data', rows, ('map', cols), ())
            return [(NONE, st)]
        if name == 'calculate':
            if pts:
                return [(self.data(st, rows, ('map', cols)), st)]
            return [(self.data(st, ('map', rows), cols), st)]
        if name in ('setNames',):
            return [(NONE, st)]
        return [(self.u(node, st, name), st)]

    def plain(self, v, st):
        """a selection as a value that can be compared later"""
        rec = st.rec(v)
        if rec is None:
            return v
        if rec[0] == 'list' and rec[1] is not None:
            return ('tup', tuple(self.plain(x, st) for x in rec[1]))
        if rec[0] == 'clo':
            return ('t', 'function', rec[1].qual, v[1])
        if rec[0] == 'data':
            return ('t', 'data', rec[1], rec[2])
        return v

    def plainall(self, args, kw, st):
        return tuple(self.plain(x, st) for x in args) + tuple(
            (k, self.plain(x, st)) for k, x in sorted(kw.items())
            if k != 'useLog')

    # ------------------------------------------------ known functions
    def hook_call(self, g, me, args, kw, st, node, fr):
        n = g.name
        if isinstance(g, Cls):
            if self.nim.is_data(g):
                return [(self.u(node, st), st)]
            return None
        if n in QUIET:
            return [(self.u(node, st, n), st)]
        if n == '_unpackLearnerName':
            return [(('tup', (self.iface, ('sym', 'learner'))), st)]
        if n == 'findBestInterface':
            return [(self.iface, st)]
        if g.module.name.startswith('nimble.core.create') and n == 'data':
            return [(self.data(st, ('new', 0), ('new', 0)), st)]
        if g.cls is not None and g.is_abstract and g.cls.name in (
                'UniversalInterface', 'PredefinedInterfaceMixin'):
            env = self.bind(g, me, args, kw, st)
            if env is None:
                self.throw('TypeError', st, node)
                return []
            return self.package(n, env, st, node, fr)
        return self.extra_hook(g, me, args, kw, st, node, fr)

    def extra_hook(self, g, me, args, kw, st, node, fr):
        n = g.name
        if g.cls is not None and g.cls.name == 'UniversalInterface':
            if n in CHEAP:
                return [(self.u(node, st, n), st)]
            if n in CHECKED:
                env = self.bind(g, me, args, kw, st)
                if env is None:
                    self.throw('TypeError', st, node)
                    return []
                a = env.get('arguments', NONE)
                st.marks = st.marks | {('validated', self.plain(a, st))}
                return [(NONE, st)]
            if n == '_confirmValidLearner':
                st.marks = st.marks | {('known learner',)}
                return [(NONE, st)]
        if g.cls is None and n == 'mergeArguments':
            env = self.bind(g, me, args, kw, st)
            if env is not None:
                a, b = list(env.values())[:2]
                return self.merged(a, b, st, node)
        return None

    def merged(self, a, b, st, node):
        vals = []
        for v in (a, b):
            rec = st.rec(v)
            if v == NONE or (rec and rec[0] == 'dict' and not rec[1]):
                continue
            vals.append(v)
        if len(vals) == 1:
            return [(vals[0], st)]
        if not vals:
            return [(st.new(('dict', ())), st)]
        recs = [st.rec(v) for v in vals]
        if all(r and r[0] == 'dict' and r[1] is not None for r in recs):
            both = dict(recs[0][1])
            if not any(k in both and both[k] != x for k, x in recs[1][1]):
                both.update(recs[1][1])
                return [(st.new(('dict', tuple(both.items()))), st)]
        return [(self.u(node, st, 'arguments'), st)]

    def side(self, v, st):
        """(rows, cols) of data or of what was made from data"""
        if v == NONE:
            return None
        rec = st.rec(v)
        if rec and rec[0] == 'data':
            return rec[1], rec[2]
        if v[0] == 't' and v[1] == 'raw':
            return v[2], v[3]
        return ('?', repr(v)[:60])

    def package(self, n, env, st, node, fr):
        """what a package's interface does"""
        if n == '_inputTransformation':
            return [(('tup', (env.get('trainX', NONE),
                              env.get('trainY', NONE),
                              env.get('testX', NONE),
                              env.get('arguments', NONE))), st)]
        if n in ('_trainer', '_incrementalTrainer'):
            X = self.side(env['trainX'], st)
            Y = self.side(env['trainY'], st)
            self.trained(n, X, Y, env, st, node, fr)
            m = ('model', X, Y)
            if n == '_incrementalTrainer':
                m = ('model', X, Y, self.plain(env['learner'], st))
            return [(m, st)]
        if n in ('_applier', '_getScores'):
            T = self.side(env['testX'], st)
            self.applied(n, env['learner'], T, env, st, node, fr)
            return [(('rawpred', env['learner'], T,
                      'label' if n == '_applier' else 'scores'), st)]
        if n == '_outputTransformation':
            v = env['outputValue']
            if v[0] == 'rawpred' and v[2] and v[2][0] != '?':
                return [(self.data(st, v[2][0], ('pred', v[1], v[3])), st)]
            return [(self.u(node, st), st)]
        return [(self.u(node, st, n), st)]

    # ------------------------------------------------------- scenarios
    def interface(self, st):
        """an object standing for any package"""
        c = self.p.resolve_name(
            self.p.modules['nimble.core.interfaces.universal_interface'],
            'UniversalInterface')
        if not isinstance(c, Cls):
            raise AnalysisError('UniversalInterface not found')
        return st.new(('inst', c, ()))

    def begin(self):
        st = self.start()
        self.iface = self.interface(st)
        return st

    def metric(self, st, predict=None):
        """a performance function made with nimble's own decorator"""
        dec = self.find('nimble.calculate.utility', 'performanceFunction')
        fr = Frame(dec)
        stub = ('metric', predict)
        outs = self.call_func(dec, None, [('c', 'min'), ('c', 0),
                                          ('c', predict)], {}, st,
                              dec.node, fr)
        res = []
        for v, s in outs:
            res += self.call(v, [stub], {}, s, dec.node, fr)
        return res

    def find(self, mod, name):
        m = self.p.modules.get(mod)
        ent = self.p.resolve_name(m, name) if m is not None else None
        if ent is None:
            raise AnalysisError('%s.%s not found' % (mod, name))
        return ent

    def call(self, fv, args, kw, st, node, fr):
        if fv[0] == 'metric':
            known = args[0] if args else kw.get('knownValues', NONE)
            pred = args[1] if len(args) > 1 else kw.get('predictedValues',
                                                        NONE)
            self.measured(known, pred, st, node, fr)
            return [(self.u(node, st, 'score'), st)]
        return super().call(fv, args, kw, st, node, fr)

    def set_attr(self, b, name, v, st):
        if b[0] == 'metric':
            return self.set_fattr(b, name, v, st)
        return super().set_attr(b, name, v, st)

    def attr(self, v, name, st, node, fr):
        if v[0] == 'metric':
            got = st.heap.get(('fa', v[1]))
            if got and name in items(got):
                return [(items(got)[name], st)]
            return [(('c', 'metric'), st)] if name == '__name__' else []
        return super().attr(v, name, st, node, fr)

    def truth(self, v, st):
        if v[0] in ('model', 'rawpred', 'sym', 'axis', 'metric'):
            return True
        rec = st.rec(v)
        if rec and rec[0] == 'data':
            return st.facts.get(v)
        return super().truth(v, st)

    def identity(self, v):
        return super().identity(v) or v[0] in ('metric',)


def join(a, b, sim):
    """rows (or columns) a followed by b"""
    if a[0] == 'rest' and b[0] == 'sel' and a[1:] == b[1:]:
        if last(a[1], a[2], sim):
            return a[1]
        return ('perm', a[1], ('back', a[2]))
    return ('app', a, b)
