"""C03 copies, results, exports and new objects own their storage"""
from .effects import Effects, public_methods
from .c02 import module_functions
from ..model import AnalysisError

EXPLANATION = """
For every concrete data class (4 storage types and their views) and their
points and features classes, every public method is analysed with the receiver
as exact class: the abstract value it returns is checked for references to the
stored data or the dimension record of the receiver or of an argument (the
alias model says which library calls share memory). In-place methods are
checked for storing a container of an argument as (part of) their own storage.
Constructors with reuseData=False, nimble.data with copyData=True and every
public module function are checked the same way. Views, iterators and methods
returning the object itself are the documented exceptions."""

ASSUMPTIONS = [
    'sa/lib.py describes which Python/numpy/pandas/scipy calls return memory '
    'shared with an operand; calls that are not listed return fresh objects',
    'elements of the storage are immutable values',
]

VIEWING = {'view', 'pointView', 'featureView', 'points', 'features',
           'stretch', '__iter__', 'iterateElements', '__getitem__',
           '_data', 'T_view'}
# path below self of the containers that make up the storage
LEVELS = {
    'Matrix': {(), ('[]',)}, 'DataFrame': {(), ('[]',)},
    'List': {(), ('[]',)},
    'Sparse': {(), ('data',), ('row',), ('col',)},
}
STORES = {      # where a whole container can be put
    'Matrix': {()}, 'DataFrame': {()}, 'List': {(), ('[]',)},
    'Sparse': {(), ('data',), ('row',), ('col',)},
}


def tail(path):
    """part of the path below the last _data, or None"""
    if '_data' not in path:
        return None
    i = len(path) - 1 - path[::-1].index('_data')
    return path[i + 1:]


def storage(nim, cls, path):
    """does this path of a cls object name modifiable storage"""
    if '_dims' in path:
        return path[-1] == '_dims'
    t = tail(path)
    if t is None:
        return False
    back = nim.backend_of(cls) if cls is not None else None
    if back is None:
        return any(t in lv for lv in LEVELS.values())
    return t in LEVELS[back.name]


def run(rep):
    E = Effects(rep)
    nim = rep.nim
    copies(rep, E, nim)
    E = Effects(rep)
    E.I.fresh_methods.add('_copy_implementation')
    for cls in nim.concrete + nim.axis_concrete:
        dcls = cls
        if nim.is_axis(cls):
            dcls = nim.data_of[cls][0]
        for name, f in sorted(public_methods(nim, cls).items()):
            s = E.analyse(f, cls)
            rep.count('entry_points')
            if s.ret is not None and name not in VIEWING:
                returned(rep, nim, cls, dcls, name, f, s)
            captured(rep, nim, cls, dcls, name, f, s)
    rep.floor('entry_points', 1000)
    for cls in nim.concrete:
        f = cls.lookup('__init__')
        if f is None:
            raise AnalysisError('no constructor of %s' % cls.name)
        if cls in nim.views:
            continue
        for raw in RAW[cls.name]:
            s = E.analyse(f, cls, consts={'reuseData': False},
                          types={'data': [raw]})
            rep.count('constructors')
            for (root, path, src), site in s.captures.items():
                if root != f.method_self or path[:1] != ('_data',):
                    continue
                if src[0] != 'data':
                    continue
                if tail(path) in STORES[cls.name] and \
                        len(src[1]) < (2 if raw == 'list' else 1):
                    rep.add('constructor-shares', '%s(%s)' % (cls.name, raw),
                            '%s(reuseData=False) keeps the %s it is given: '
                            '%s' % (cls.name, RAWNAMES[raw], site.desc),
                            site.loc, site.chain())
    f = nim.base.lookup('__init__')
    for cls in nim.concrete:
        s = E.analyse(f, cls)
        for (root, path, src), site in s.captures.items():
            if root == f.method_self and path == ('_dims',) and \
                    src[1] == () and src[0] != f.method_self:
                rep.add('dimensions-shared', site.func.qual,
                        'the dimension record of a new object is the list '
                        'it was given', site.loc, site.chain())
    n = 0
    for f, label in sorted(module_functions(rep).items(),
                           key=lambda x: x[1]):
        kw = {}
        if 'copyData' in f.params:
            kw = {'consts': {'copyData': True}}
        s = E.analyse(f, None, **kw)
        n += 1
        if s.ret is None:
            continue
        datas = s.ret.types and any(
            t.lstrip('=') in nim.data_names for t in s.ret.types)
        for root, path in sorted(s.ret.reach):
            if root.startswith('G:') or root not in f.params:
                continue
            if '_dims' in path and path[-1] == '_dims':
                # dimensions are copied by the constructor (checked above)
                continue
            if storage(nim, None, path) or (
                    path == () and (root, path) in s.ret.refs and
                    (datas or (not s.ret.types and label.startswith(
                        ('nimble.fill.', 'nimble.calculate.'))))):
                rep.add('result-shares', '%s:%s' % (label, root),
                        'the result of %s may share storage with its '
                        'argument %s (%s)' % (label, root, '.'.join(path)),
                        f.loc(), [f.short])
    rep.count('module_functions', n)
    rep.floor('module_functions', 60)
    rep.count('functions_summarised', len(E.I.cache))


# what each constructor accepts
RAW = {'Matrix': ('nd',), 'List': ('list', 'nd'),
       'DataFrame': ('df', 'nd', 'list'),
       'Sparse': ('coo', 'csr', 'csc', 'nd', 'list')}
RAWNAMES = {'nd': 'array', 'list': 'list', 'df': 'data frame',
            'coo': 'coo matrix', 'csr': 'csr matrix', 'csc': 'csc matrix'}
FORMATS = ('pythonlist', 'numpyarray', 'numpymatrix', 'scipycsr', 'scipycsc',
           'scipycoo', 'pandasdataframe')


def copies(rep, E, nim):
    """the storage specific part of copy, per requested format"""
    hooks = ('_copy_implementation',)
    for cls in nim.concrete:
        for hook in hooks:
            f = cls.lookup(hook)
            if f is None or 'to' not in f.params:
                raise AnalysisError('%s has no %s(to)' % (cls.name, hook))
            for to in tuple(b.name for b in nim.backends) + FORMATS:
                s = E.analyse(f, cls, consts={'to': to})
                rep.count('copy_formats')
                if s.ret is None:
                    continue
                for root, path in sorted(s.ret.reach):
                    if root == f.method_self and (
                            path == () or storage(nim, cls, path)):
                        rep.add('copy-shares', '%s:%s' % (cls.name, to),
                                'copying %s to %s may share %s with the '
                                'object' % (cls.name, to,
                                            '.'.join(path) or 'everything'),
                                f.loc(), [f.short])


def returned(rep, nim, cls, dcls, name, f, s):
    roots = {f.method_self} | set(f.params)
    for root, path in sorted(s.ret.reach):
        if root not in roots:
            continue
        if root == f.method_self and path == ():
            continue        # the object itself
        if root == f.method_self:
            if not storage(nim, dcls, path):
                continue
        elif not path or not storage(nim, None, path):
            continue
        rep.count('shared_paths_examined')
        rep.add('result-shares', '%s.%s' % (cls.name, name),
                'the result of %s.%s may share %s with %s' % (
                    cls.name, name, '.'.join(path),
                    'the object' if root == f.method_self else
                    'argument ' + root), f.loc(), [f.short])


def captured(rep, nim, cls, dcls, name, f, s):
    back = nim.backend_of(dcls)
    for (root, path, src), site in s.captures.items():
        if root != f.method_self or src[0] == f.method_self or \
                src[0].startswith('G:'):
            continue
        if '_dims' in path:
            if src[1][-1:] == ('_dims',):
                rep.add('dimensions-shared', '%s:%s' % (
                    site.func.qual, site.desc),
                    '%s.%s makes the dimensions of %s its own' % (
                        cls.name, name, src[0]), site.loc, site.chain())
            continue
        t = tail(path)
        if t is None or t not in STORES[back.name]:
            continue
        rep.count('stores_examined')
        st = tail(src[1])
        if st is None:
            continue
        if st not in LEVELS[back.name]:
            continue
        chain = [fn.name for fn, _ in site.via] + [site.func.name]
        if '_merge_implementation' in chain and back.name == 'List':
            # rows of the result are concatenations of lists, which the
            # nested containers of the merge hide from the alias model
            rep.count('exempt_rebuilt_rows')
            continue
        rep.add('argument-kept', '%s:%s' % (site.func.qual, site.desc),
                '%s.%s keeps %s of %s as its own storage' % (
                    cls.name, name, '.'.join(src[1]), src[0]), site.loc,
                site.chain())
