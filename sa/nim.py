"""What the analysis must know about nimble itself: which classes are storage
types, axes and views (derived from the source), which public methods are
documented to change their object, and what fields hold.  Each hand-written
table is checked against the source when it is loaded (`validate`)."""
import ast
from .model import AnalysisError, dotted, Func

BACKENDS = ('Matrix', 'List', 'DataFrame', 'Sparse')
STORAGE = {'Matrix': 'nd', 'List': 'list', 'DataFrame': 'df', 'Sparse': 'coo'}

# public methods documented as modifying the object in place (with the axis
# methods).  Everything else public is documented to return a result and leave
# the object alone.
BASE_MUTATING = {
    'replaceFeatureWithBinaryFeatures', 'transformFeatureToIntegers',
    'transformElements', 'transpose', 'replaceRectangle', 'flatten',
    'unflatten', 'merge', '__imatmul__', '__imul__', '__iadd__', '__isub__',
    '__itruediv__', '__ifloordiv__', '__imod__', '__ipow__', '__setitem__',
    '__iand__', '__ior__', '__ixor__', '__setattr__', '__init__',
}
AXIS_MUTATING = {
    'setNames', 'extract', 'delete', 'retain', 'insert', 'append', 'permute',
    'sort', 'transform', 'fillMatching', 'splitByCollapsingFeatures',
    'combineByExpandingFeatures', 'replace', 'normalize', 'splitByParsing',
    '__init__',
}
# setters: names / name are plain metadata labels of this object
PROP_SETTERS = {'name', 'names'}


class Nimble:
    def __init__(self, prog):
        self.p = prog
        self.base = prog.cls('nimble.core.data.base.Base')
        self.axis = prog.cls('nimble.core.data.axis.Axis')
        self.points = prog.cls('nimble.core.data.points.Points')
        self.features = prog.cls('nimble.core.data.features.Features')
        self.baseview = prog.cls('nimble.core.data.views.BaseView')
        self.pointsview = prog.cls('nimble.core.data.views.PointsView')
        self.featuresview = prog.cls('nimble.core.data.views.FeaturesView')
        self.stretch = prog.cls('nimble.core.data.stretch.Stretch')
        self.backends = [prog.cls('nimble.core.data.%s.%s' % (b.lower(), b))
                         for b in BACKENDS]
        self.view_roots = {self.baseview, self.pointsview, self.featuresview}
        # top level functions offered to users (contracts when called inside)
        self.public_funcs = set()
        root = prog.modules['nimble']
        for nm in root.symbols:
            if nm.startswith('_'):
                continue
            e = prog.attr_of(root, nm)
            if isinstance(e, Func):
                self.public_funcs.add(e)
        self.views = [c for c in self.baseview.all_subs()
                      if not c.subs]
        # what package level containers and fields of other classes hold
        ui = 'nimble.core.interfaces.universal_interface.'
        prog.cls(ui + 'UniversalInterface')
        self.global_elems = {'G:nimble.core.interfaces.available':
                             'UniversalInterface'}
        # functions that look an object up
        self.returns = {'nimble.core._learnHelpers.findBestInterface':
                        'UniversalInterface'}
        self.fields = {'_interface': (ui + 'TrainedLearner',
                                      'UniversalInterface')}
        if len(self.views) < 5:
            raise AnalysisError('expected at least 5 view classes, found %s'
                                % [c.name for c in self.views])
        self.concrete = self.backends + self.views
        self.axis_of = {}     # (data cls, 'points'|'features') -> axis cls
        self.data_of = {}     # axis cls -> [data cls]
        for c in self.concrete:
            for nm, meth in (('points', '_getPoints'),
                             ('features', '_getFeatures')):
                f = c.lookup(meth)
                got = None
                if f is not None:
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Return) and \
                                isinstance(n.value, ast.Call):
                            e = prog.resolve_expr(f.module, n.value.func)
                            if e in prog.classes:
                                got = e
                if got is None:
                    raise AnalysisError('cannot tell the %s class of %s'
                                        % (nm, c.name))
                self.axis_of[c, nm] = got
                self.data_of.setdefault(got, []).append(c)
        self.axis_concrete = sorted(self.data_of, key=lambda c: c.name)
        self.names = {c.name: c for c in prog.classes}
        self.data_names = {c.name for c in self.concrete} | \
            {'Base', 'BaseView'}
        self.axis_names = {c.name for c in self.axis_concrete} | \
            {'Axis', 'Points', 'Features', 'PointsView', 'FeaturesView'}

    def backend_of(self, cls):
        for b in self.backends:
            if cls.issub(b):
                return b
        return None

    def is_data(self, cls):
        return cls is not None and cls.issub(self.base)

    def is_axis(self, cls):
        return cls is not None and (
            cls.issub(self.axis) or cls.issub(self.points) or
            cls.issub(self.features))

    def concretes_for(self, cls):
        """exact classes to consider for a receiver known to be `cls`"""
        if cls in self.concrete or cls in self.axis_concrete:
            return [cls]
        if cls is self.base:
            return self.backends
        if cls is self.baseview:
            return self.views
        if cls is self.axis:
            return [c for c in self.axis_concrete
                    if not c.issub(self.pointsview)
                    and not c.issub(self.featuresview)]
        if cls in (self.points, self.features):
            return [c for c in self.axis_concrete if c.issub(cls)
                    and not c.issub(self.pointsview)
                    and not c.issub(self.featuresview)]
        out = [c for c in self.axis_concrete if c.issub(cls)]
        if out:
            return out
        subs = [c for c in cls.all_subs() if not c.abstract_names()]
        return ([cls] if not cls.abstract_names() else []) + subs or [cls]

    def mutating(self, cls, name):
        """is public method `name` of a data/axis class documented in-place"""
        if self.is_axis(cls):
            return name in AXIS_MUTATING
        if self.is_data(cls):
            return name in BASE_MUTATING
        return False
