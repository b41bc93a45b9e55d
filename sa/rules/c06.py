"""C06 sparse objects never answer from stale positions"""
import ast
from ..absint import Interp, Domain, Val
from ..model import AnalysisError, walk_own
from .effects import public_methods

EXPLANATION = """
Typestate analysis of the remembered ordering of sparse objects (the sorted
axis and the start positions, two cells), on top of the interprocedural alias
and effect analysis.  Every store or in-place library call that can move, add
or remove coordinates (`_data` itself, its row/col arrays, eliminate_zeros and
the like) makes both cells stale; storing a cell makes it fresh again.
Function summaries say which cells of which argument may be left stale and
which are refreshed on every path.  Every public operation of the sparse class
and of its points and features must end, on every normal path, with nothing
stale; a helper that relies on the remembered ordering must not be called
while it is stale; and no object may be given the ordering record of another
object (only a copy of it)."""

ASSUMPTIONS = [
    'the helper that sorts establishes the order it remembers',
    'changing the stored values in place (not the coordinates) keeps the '
    'ordering valid',
]

ATTR = '_sorted'
CELLS = ('axis', 'indices')
PATHS = ((), ('_base',), ('_source',), ('_base', '_source'))
MOVING_CALLS = {'eliminate_zeros', 'sum_duplicates', 'resize', 'reshape',
                'setdiag', 'sort', 'sort_indices'}


class Order(Domain):
    def __init__(self, cells, stores):
        self.cells, self.stores = cells, stores

    def entry(self, I, fr):
        f = fr.func
        roots = list(f.params) + [x for x in (f.vararg, f.kwarg) if x]
        return frozenset(('keep', c, (r, p)) for r in roots for p in PATHS
                         for c in self.cells)

    def entry_refs(self, roots):
        return [(r, p) for r in roots for p in PATHS]

    # -- direct stores
    def on_store(self, I, fr, st, target, comp, kind, node, held):
        for r, p in target.refs:
            path = I.norm(fr, r, p + comp)
            if ATTR in path:
                i = path.index(ATTR)
                owner = (r, path[:i])
                cells = self.cells
                if path[i + 1:]:
                    k = self.key(node)
                    if k is not None:
                        cells = [k]
                srcs = set() if held is None or path[i + 1:] else {
                    (q[0], q[1][:q[1].index(ATTR)]) for q in held.refs
                    if ATTR in q[1]}
                if len(target.refs) == 1:
                    gone = {f for f in st.facts if f[0] in ('bad', 'keep')
                            and f[1] in cells and f[2] == owner}
                    st.facts = (st.facts - gone) | {
                        f[:2] + (owner,) + f[3:] for f in st.facts
                        if f[0] in ('bad', 'keep') and f[2] in srcs}
            elif '_data' in path:
                i = path.index('_data')
                if self.moves(path[i + 1:], kind):
                    owner = (r, path[:i])
                    st.facts = st.facts | frozenset(
                        ('bad', c, owner, (fr.func.loc(node), fr.func.qual))
                        for c in self.cells)

    @staticmethod
    def moves(rest, kind):
        if kind.startswith('call:'):
            return kind[5:] in MOVING_CALLS and rest[:1] != ('data', '[]') \
                or kind[5:] in ('eliminate_zeros', 'sum_duplicates')
        if not rest:
            return True
        return rest[0] in ('row', 'col', 'coords', '_shape', 'shape')

    @staticmethod
    def key(node):
        for n in ast.walk(node) if isinstance(node, ast.AST) else ():
            if isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, ast.Store) and isinstance(n.slice, ast.Constant):
                return n.slice.value
        if isinstance(node, ast.Subscript) and isinstance(
                node.slice, ast.Constant):
            return node.slice.value
        return None

    def on_load(self, I, fr, st, v, attr, node):
        if attr == ATTR and id(node) not in self.stores:
            new = set()
            for r, p in v.refs:
                new.add(('reads', None, (r, I.norm(fr, r, p)),
                         (fr.func.loc(node), fr.func.qual)))
            st.facts = st.facts | new

    # -- calls
    def exit_facts(self, I, fr, b, pre, callee):
        cleaned = set()
        for ref in self.entry_refs(b):
            mapped = I.mapref(fr, b, *ref)
            if len(mapped) != 1:
                continue
            for c in self.cells:
                if ('keep', c, ref) not in callee:
                    cleaned.update((c, m) for m in mapped)
        out = set()
        bad = {f[2]: f for f in pre if f[0] == 'bad'}
        for f in pre:
            if f[0] in ('bad', 'keep') and (f[1], f[2]) in cleaned:
                continue
            out.add(f)
        for f in callee:
            if f[0] == 'bad':
                for m in I.mapref(fr, b, *f[2]):
                    out.add(('bad', f[1], m, f[3]))
            elif f[0] == 'reads':
                for m in I.mapref(fr, b, *f[2]):
                    out.add(('reads', None, m, f[3]))
                    if m in bad and not any((c, m) in cleaned
                                            for c in self.cells):
                        out.add(('stale', fr.func.qual, bad[m][3], f[3]))
            elif f[0] == 'stale':
                out.add(f)
        return frozenset(out)


def run(rep):
    prog, nim = rep.prog, rep.nim
    classes = [c for c in nim.concrete if declares(c)]
    if not classes:
        raise AnalysisError('no storage type remembers an ordering (%s)'
                            % ATTR)
    cells, stores = set(), set()
    for f in prog.funcs:
        for n in walk_own(f.node):
            if isinstance(n, ast.Subscript) and isinstance(
                    n.value, ast.Attribute) and n.value.attr == ATTR:
                if isinstance(n.slice, ast.Constant):
                    cells.add(n.slice.value)
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    stores.add(id(n.value))
    dom = Order(sorted(cells) or list(CELLS), stores)
    I = Interp(prog, nim, dom, contracts=True)
    I.keep_consts = ('opName', 'forceSort', 'setIndices')
    seen = set()
    for cls in classes:
        for ctx, base in [(cls, ())] + [
                (nim.axis_of[cls, a], ('_base',))
                for a in ('points', 'features')]:
            rep.count('classes')
            for name, f in sorted(public_methods(nim, ctx).items()):
                rep.count('operations')
                s = I.analyse(f, ctx)
                root = (f.method_self, base)
                bad = sorted({(x[3], x[1]) for x in s.facts or ()
                              if x[0] == 'bad' and x[2] == root})
                for _, fn, b, r in sorted(x for x in s.facts or ()
                                          if x[0] == 'stale'):
                    k = ('stale-read', b[1], r[1])
                    if k in seen:
                        continue
                    seen.add(k)
                    rep.add('stale-read', '%s:%s' % (b[1], r[1]),
                            '%s relies on the remembered ordering (%s) after '
                            'the data was changed and before the ordering is '
                            'discarded' % (fn, r[0]), b[0], [f.short])
                for (r, p, src), site in s.captures.items():
                    if p[-1:] == (ATTR,) == src[1][-1:] and (r, p) != src and \
                            ('shared', site.func) not in seen:
                        seen.add(('shared', site.func))
                        rep.add('shared-order', site.func.qual, '%s.%s makes '
                                'two objects share one ordering record: '
                                'sorting one makes the other believe it is '
                                'sorted' % (ctx.name, name), site.loc,
                                site.chain())
                if s.ret is not None and any(
                        p[-1:] == (ATTR,) for r, p in s.ret.inner):
                    rep.add('shared-order', f.qual, 'the result of %s.%s '
                            'shares the ordering record of the object'
                            % (ctx.name, name), f.loc(), [f.short])
                moving = any(k[0] == root[0] and '_data' in k[1]
                             for k in s.writes)
                if moving:
                    rep.count('operations_changing_the_storage')
                for (loc, qual), cell in bad:
                    if (qual, cell) in seen:
                        continue
                    seen.add((qual, cell))
                    rep.add('stale-order', '%s:%s' % (qual, cell),
                            'after %s.%s the remembered ordering (%s) still '
                            'describes the data before the change'
                            % (ctx.name, name, cell), loc, [f.short])
    rep.floor('operations', 150)
    rep.floor('operations_changing_the_storage', 20)
    rep.count('functions_summarised', len(I.cache))


def declares(cls):
    for c in cls.mro():
        if c.name.endswith('View'):
            return False
        for f in c.methods.values():
            for n in walk_own(f.node):
                if isinstance(n, ast.Attribute) and n.attr == ATTR and \
                        isinstance(n.ctx, ast.Store) and isinstance(
                        n.value, ast.Name) and n.value.id == f.method_self:
                    return True
    return False
