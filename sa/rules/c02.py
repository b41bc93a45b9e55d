"""C02 reading operations change neither the object nor the arguments"""
from .effects import Effects, public_methods, CONTENT
from ..model import Func, Cls, AnalysisError

EXPLANATION = """
Every public method, operator and property of every concrete data class
(4 storage types, their views, their points and features classes), every
constructor of those classes, every public module level function and every
public method of learners, tuning and configuration classes is analysed by an
interprocedural flow-sensitive effect/alias analysis per receiver class.
Violation: a write whose target may be storage reachable from a parameter
(including *args/**kwargs content), or - unless the method is documented to
work in place - the data, dimensions or names of the object itself. Calls on
other nimble objects inside a frame are replaced by the contract 'documented
in-place methods write, nothing else does', which is the property established
for those methods as entry points of their own (assume/guarantee)."""

ASSUMPTIONS = [
    'sa/lib.py describes which Python/numpy/pandas/scipy calls write to or '
    'alias their operands; calls that are not listed neither write nor alias',
    'user supplied callables do not change what they are given',
    'values whose type is only known at run time are followed by field name',
]

USER_MODULES = ('nimble', 'nimble.calculate', 'nimble.fill', 'nimble.match',
                'nimble.random', 'nimble.learners')

# arguments documented to be changed
INPLACE_ARGS = {
    # "applyResultTo: ... will be normalized in place"
    ('Features', 'normalize', 'applyResultTo'),
    (None, 'fillMatching', 'trainX'),
    (None, 'fillMatching', 'testX'),
}


NAME_PARAMS = ('pointNames', 'featureNames')

# attributes that make up a data object, its axes, or a library container
FIELDS = {'_data', '_dims', 'names', 'namesInverse', '_base', '_source',
          'points', 'features', 'data', 'row', 'col', 'index', 'columns',
          'shape', 'dtype', 'values', 'indices', 'indptr', 'T', 'flat'}


def module_functions(rep):
    """public functions of the modules users import from"""
    p = rep.prog
    out = {}
    for mn in USER_MODULES:
        m = p.modules.get(mn)
        if m is None:
            raise AnalysisError('module %s not found' % mn)
        for nm in m.symbols:
            if nm.startswith('_'):
                continue
            e = p.attr_of(m, nm)
            if isinstance(e, Func):
                out[e] = '%s.%s' % (mn, nm)
    return out


def other_classes(rep):
    """classes users get in hand besides data objects"""
    p, nim = rep.prog, rep.nim
    out = []
    for mn in USER_MODULES + ('nimble.core.interfaces.universal_interface',):
        m = p.modules.get(mn)
        if m is None:
            raise AnalysisError('module %s not found' % mn)
        for nm in m.symbols:
            e = p.attr_of(m, nm)
            if not isinstance(e, Cls) or nm.startswith('_'):
                continue
            if mn not in USER_MODULES and (
                    e.module is not m or e.abstract_names()):
                continue
            if nim.is_data(e) or nim.is_axis(e) or e in out:
                continue
            out.append(e)
    out += [nim.stretch] + nim.stretch.all_subs()
    return out


def run(rep):
    E = Effects(rep)
    nim = rep.nim

    def params_only(owner, f, cls, label, own=False, **kw):
        s = E.analyse(f, cls, **kw)
        rep.count('entry_points')
        rep.count('writes_examined', len(s.writes))
        for (root, path, kind), site in s.writes.items():
            if root.startswith('G:'):
                continue
            if root == f.method_self and not (own and CONTENT & set(path)):
                continue
            judge(f, owner, label, root, path, kind, site,
                  root == f.method_self)

    def judge(f, owner, label, root, path, kind, site, own=False):
        if root in (f.vararg, f.kwarg) and len(path) == 1 and kind != 'attr':
            return      # the collecting tuple/dict belongs to the call
        if root in NAME_PARAMS and path[:1] == ('[]',) and \
                len(path) > 1:
            return      # names are strings
        if kind in ('attr', 'del') and not path[-1] in FIELDS and \
                path[-1] != '[]':
            return      # state of some other kind of object
        if E.exempt(path, kind, site):
            return
        key = (owner, f.name, root)
        if key in INPLACE_ARGS:
            return
        what = 'the object itself' if own else 'argument %s' % root
        rep.add('self-write' if own else 'argument-write',
                '%s:%s' % (site.func.qual, site.desc),
                '%s changes %s (%s %s): %s' % (
                    label, what, kind, '.'.join(path), site.desc),
                site.loc, site.chain())

    for cls in nim.concrete + nim.axis_concrete:
        for name, f in sorted(public_methods(nim, cls).items()):
            s = E.analyse(f, cls)
            rep.count('entry_points')
            rep.count('writes_examined', len(s.writes))
            owner = f.cls.name if f.cls else None
            for (root, path, kind), site in s.writes.items():
                if root.startswith('G:'):
                    continue
                own = root == f.method_self
                if own:
                    if nim.mutating(cls, name) or name in ('name',):
                        continue
                    if not CONTENT & set(path):
                        continue
                judge(f, owner, '%s.%s' % (cls.name, name), root, path, kind,
                      site, own)
        f = cls.lookup('__init__')
        if f is not None:
            params_only(f.cls.name, f, cls, cls.name + '()')
    rep.floor('entry_points', 1500)
    n = 0
    for f, label in sorted(module_functions(rep).items(),
                           key=lambda x: x[1]):
        kw = {}
        if 'copyData' in f.params:
            # the documented default; False permits reuse of the source
            kw = {'consts': {'copyData': True}}
        params_only(None, f, None, label, **kw)
        n += 1
    rep.count('module_functions', n)
    n = 0
    for cls in other_classes(rep):
        for name, f in sorted(public_methods(nim, cls).items()):
            params_only(cls.name, f, cls, '%s.%s' % (cls.name, name),
                        own=cls.issub(nim.stretch))
            n += 1
        f = cls.lookup('__init__')
        if f is not None:
            params_only(cls.name, f, cls, cls.name + '()')
    rep.count('other_methods', n)
    rep.floor('module_functions', 60)
    rep.count('functions_summarised', len(E.I.cache))
