"""C01 views are read-only windows onto their source"""
from .effects import Effects, public_methods, CONTENT

EXPLANATION = """
For every concrete view class of every storage type and the points / features
classes of those views, every public method, operator, property and property
setter is analysed by an interprocedural flow-sensitive effect analysis with
the view as the exact receiver class. (1) An in-place operation must have no
normal exit: every path through it ends in an exception. (2) No operation at
all may contain a write that can reach the data, dimensions or names of the
view or of its source."""

ASSUMPTIONS = [
    'sa/lib.py describes which Python/numpy/pandas/scipy calls write to or '
    'alias their operands; calls that are not listed neither write nor alias',
    'the documented in-place operations are those listed in sa/nim.py; '
    'operators named __i<op>__, __setitem__ and __delitem__ always count',
]


def setters(cls):
    out = {}
    for c in cls.mro():
        for name, f in c.setters.items():
            out.setdefault(name, f)
    return out


def run(rep):
    E = Effects(rep)
    nim = rep.nim
    views = nim.views + [c for c in nim.axis_concrete
                         if c.issub(nim.pointsview)
                         or c.issub(nim.featuresview)]
    rep.count('view_classes', len(views))
    for cls in nim.views:
        for part, root in (('points', nim.pointsview),
                           ('features', nim.featuresview)):
            rep.count('axis_classes_of_views')
            ax = nim.axis_of[cls, part]
            if not ax.issub(root):
                rep.add('view-axis', '%s.%s' % (cls.name, part),
                        'the %s of %s are %s, which allows changes' % (
                            part, cls.name, ax.name),
                        cls.lookup('_get' + part.capitalize()).loc)
    for cls in nim.concrete:
        for name in ('view', 'pointView', 'featureView'):
            f = cls.lookup(name)
            if f is None:
                continue
            s = E.analyse(f, cls)
            rep.count('view_factories')
            t = s.ret.types if s.ret is not None else ()
            rep.sample('view_types', '%s.%s -> %s' % (cls.name, name,
                                                      sorted(t)))
            for x in t:
                c = nim.names.get(x.lstrip('='))
                if c is None or not (c.issub(nim.baseview)
                                     or c is nim.base):
                    rep.add('not-a-view', '%s.%s' % (cls.name, name),
                            '%s.%s may return %s, which is not a view' % (
                                cls.name, name, x), f.loc(), [f.short])
    for cls in views:
        for name, f in sorted(public_methods(nim, cls).items()):
            s = E.analyse(f, cls)
            rep.count('entry_points')
            rep.count('writes_examined', len(s.writes))
            if nim.mutating(cls, name) and name not in ('__setattr__',):
                rep.count('in_place_operations')
                if s.facts is not None:
                    rep.add('not-refused', '%s.%s' % (cls.name, name),
                            '%s.%s can complete without an exception on a '
                            'view' % (cls.name, name), f.loc(), [f.short])
            writes(rep, E, nim, cls, name, f, s)
        for name, f in sorted(setters(cls).items()):
            s = E.analyse(f, cls)
            rep.count('property_setters')
            writes(rep, E, nim, cls, name + ' (setter)', f, s)
    rep.floor('in_place_operations', 120)
    rep.floor('entry_points', 700)
    rep.count('functions_summarised', len(E.I.cache))


def writes(rep, E, nim, cls, name, f, s):
    for (root, path, kind), site in s.writes.items():
        if root != f.method_self or not CONTENT & set(path):
            continue
        if E.exempt(path, kind, site):
            continue
        rep.add('view-write', '%s:%s' % (site.func.qual, site.desc),
                '%s.%s writes %s through a view: %s' % (
                    cls.name, name, '.'.join(path), site.desc),
                site.loc, site.chain())
