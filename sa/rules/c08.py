"""C08 temporary changes are undone on every exit, files are closed"""
import ast
from ..flow import Flow, parents
from ..model import Func, Cls, Ext, Module, Var, walk_own, dotted
from ..paths import Walk, TooManyPaths, calls_in
from .effects import is_contextmanager

EXPLANATION = """
Every function of the package is walked path-sensitively, following the
exceptional exit of every statement that calls, subscripts, compares or
computes (and of `yield` in a context manager). Four typestates are tracked.
(1) save/modify/restore: a local holds the value (or a copy) of an attribute
path of self, an argument, an enclosing variable or a module, and some
statement puts it back: if the restoration is on the fall-through path of the
modification (or in a finally), the path must be restored at every normal and
exceptional exit; if it is only in exception handlers it must be restored at
every exceptional exit. (2) context managers and functions that store to
attributes of functions, of other libraries' modules or classes, or that call
a known switch of global state (warnings filters outside catch_warnings,
numpy error state and print options, pandas options, matplotlib interactive
mode, working directory, locale, import path, ...): saved first and restored
at every exit. (3) the axis labels of a stored pandas frame are set to the
default again at every exit. (4) every file, archive or connection that is
opened is entered with `with`, closed at every exit, returned to the caller,
or kept in an attribute of an object whose class closes it. The position of a
file object passed in is treated like an attribute (tell/seek). The state of
the random generators is C07's."""

ASSUMPTIONS = [
    'module level registries of nimble itself (available interfaces, active '
    'logger, open figures, caches) are meant to persist',
    'raising attribute loads and failing restorations are not followed',
    'the position of a stream is only required back when the operation ends '
    'normally',
]

OPENERS = {'open', 'io.open', 'builtins.open', 'codecs.open', 'os.fdopen',
           'gzip.open', 'gzip.GzipFile', 'bz2.open', 'bz2.BZ2File',
           'lzma.open', 'lzma.LZMAFile', 'zipfile.ZipFile',
           'tarfile.open', 'tarfile.TarFile', 'tarfile.TarFile.open',
           'sqlite3.connect', 'sqlite3.Connection',
           'tempfile.TemporaryFile', 'tempfile.NamedTemporaryFile',
           'tempfile.SpooledTemporaryFile', 'tempfile.TemporaryDirectory',
           'urllib.request.urlopen', 'socket.socket', 'shelve.open',
           'dbm.open', 'mmap.mmap', 'h5py.File', 'pandas.HDFStore',
           'pandas.ExcelWriter', 'subprocess.Popen'}
MAKE_CLOSED = {'contextlib.closing'}

# switches of global state: call name -> (group, None | getter names)
SWITCHES = {
    'os.chdir': ('working directory', ('os.getcwd',)),
    'os.umask': ('umask', ('os.umask',)),
    'os.putenv': ('environment', ()),
    'numpy.seterr': ('numpy error state', ('numpy.geterr', 'numpy.seterr')),
    'numpy.seterrcall': ('numpy error state', ('numpy.geterrcall',
                                               'numpy.seterrcall')),
    'numpy.set_printoptions': ('numpy print options',
                               ('numpy.get_printoptions',)),
    'pandas.set_option': ('pandas options', ('pandas.get_option',)),
    'pandas.reset_option': ('pandas options', ('pandas.get_option',)),
    'warnings.simplefilter': ('warnings filters', ('warnings.filters',)),
    'warnings.filterwarnings': ('warnings filters', ('warnings.filters',)),
    'warnings.resetwarnings': ('warnings filters', ('warnings.filters',)),
    'locale.setlocale': ('locale', ('locale.getlocale',
                                    'locale.setlocale')),
    'sys.setrecursionlimit': ('recursion limit',
                              ('sys.getrecursionlimit',)),
    'sys.settrace': ('trace function', ('sys.gettrace',)),
    'sys.setprofile': ('profile function', ('sys.getprofile',)),
    'csv.field_size_limit': ('csv field size limit',
                             ('csv.field_size_limit',)),
    'gc.disable': ('garbage collection', ('gc.isenabled',)),
    'gc.enable': ('garbage collection', ('gc.isenabled',)),
    'logging.disable': ('logging', ()),
    'signal.signal': ('signal handlers', ('signal.getsignal',
                                          'signal.signal')),
    'socket.setdefaulttimeout': ('socket timeout',
                                 ('socket.getdefaulttimeout',)),
    'decimal.setcontext': ('decimal context', ('decimal.getcontext',)),
    'matplotlib.pyplot.ioff': ('interactive mode of matplotlib',
                               ('matplotlib.pyplot.isinteractive',
                                'matplotlib.is_interactive')),
    'matplotlib.pyplot.ion': ('interactive mode of matplotlib',
                              ('matplotlib.pyplot.isinteractive',
                               'matplotlib.is_interactive')),
    'matplotlib.interactive': ('interactive mode of matplotlib',
                               ('matplotlib.pyplot.isinteractive',
                                'matplotlib.is_interactive')),
    'matplotlib.use': ('matplotlib backend', ('matplotlib.get_backend',)),
    'matplotlib.pyplot.switch_backend': ('matplotlib backend',
                                         ('matplotlib.get_backend',)),
}
TOGGLES = {('matplotlib.pyplot.ioff', 'matplotlib.pyplot.ion'),
           ('matplotlib.pyplot.ion', 'matplotlib.pyplot.ioff'),
           ('gc.disable', 'gc.enable'), ('gc.enable', 'gc.disable')}
MUTATORS = {'append', 'insert', 'extend', 'remove', 'pop', 'clear', 'update',
            'setdefault', 'sort', 'reverse', 'popitem'}
GLOBAL_OBJECTS = {'sys.path', 'sys.modules', 'sys.argv', 'sys.meta_path',
                  'sys.path_hooks', 'os.environ', 'warnings.filters',
                  'matplotlib.rcParams', 'matplotlib.pyplot.rcParams'}
COPIES = {'copy', 'deepcopy', 'list', 'dict', 'tuple', 'set'}

# permanent shims: they define what another package misses in a library the
# package was not written for; nothing is temporarily changed
SHIMS = {'numpy.distutils'}

# registries and caches of nimble's own classes and modules persist
POSITION = '<position>'


def text(n):
    try:
        return ast.unparse(n)
    except Exception:       # pragma: no cover
        return None


def target_text(t):
    """text of an attribute/subscript path, whole-slice stores stripped"""
    if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice) and \
            t.slice.lower is None and t.slice.upper is None:
        t = t.value
    if isinstance(t, (ast.Attribute, ast.Subscript)):
        return text(t)
    return None


def base_name(t):
    while isinstance(t, (ast.Attribute, ast.Subscript)):
        t = t.value
    return t.id if isinstance(t, ast.Name) else None


def flat_targets(s):
    if isinstance(s, ast.Assign):
        tg = list(s.targets)
    elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
        tg = [s.target]
    elif isinstance(s, ast.Delete):
        tg = list(s.targets)
    else:
        return []
    out = []
    while tg:
        t = tg.pop()
        if isinstance(t, (ast.Tuple, ast.List)):
            tg += t.elts
        else:
            out.append(t)
    return out


def pairs(s):
    """(target, value) of an assignment, tuple assignments taken apart"""
    if isinstance(s, ast.Assign):
        for t in s.targets:
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(
                    s.value, (ast.Tuple, ast.List)) and \
                    len(t.elts) == len(s.value.elts):
                yield from zip(t.elts, s.value.elts)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    yield e, None
            else:
                yield t, s.value
    elif isinstance(s, ast.AnnAssign) and s.value is not None:
        yield s.target, s.value
    elif isinstance(s, ast.AugAssign):
        yield s.target, None
    elif isinstance(s, ast.Delete):
        for t in s.targets:
            yield t, None


class World:
    def __init__(self, rep):
        self.rep, self.p = rep, rep.prog
        self.flow = Flow(rep.prog)

    def ext(self, f, node):
        """dotted name of a library entity, or None"""
        e = self.flow.entity(f, node)
        if isinstance(e, Ext):
            return e.name
        if e is None and isinstance(node, ast.Name) and node.id == 'open' \
                and self.flow.scope_of(f, 'open') is None:
            return 'open'
        return None

    def holder(self, f, t):
        """what kind of thing is stored to by the target t:
        'library', 'function', 'class', 'module', 'shared' (self, arguments,
        outer variables, things derived from them) or None (own local)"""
        if not isinstance(t, (ast.Attribute, ast.Subscript)):
            return None
        owner = t.value
        e = self.flow.entity(f, owner)
        while e is None and isinstance(owner, (ast.Attribute,
                                               ast.Subscript)):
            owner = owner.value
            e = self.flow.entity(f, owner)
        if isinstance(e, Ext):
            n = base_name(t)
            sc = self.flow.scope_of(f, n) if n else None
            if sc is not None and not self._alias_of_ext(f, n):
                e = None
            else:
                return 'library'
        if isinstance(e, Func):
            return 'function' if e.parent is None else None
        if isinstance(e, Cls):
            return 'class'
        if isinstance(e, (Module, Var)):
            return 'module'
        n = base_name(t)
        if n is None:
            return None
        return 'shared' if self.shared(f, n) else None

    def _alias_of_ext(self, f, n):
        vals = self.flow.assigns(f).get(n, ())
        return any(isinstance(v, (ast.Attribute, ast.Name)) for v in vals
                   if isinstance(v, ast.AST)) or n in self._imported(f)

    def _imported(self, f):
        out = set()
        for n in walk_own(f.node):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add(a.asname or a.name.split('.')[0])
        return out

    def shared(self, f, n, seen=()):
        """does local name n denote something that outlives the call"""
        if n in f.params:
            return True
        if n not in self.flow.local_names(f):
            return True
        if n in seen:
            return False
        for x in walk_own(f.node):
            if isinstance(x, (ast.For, ast.comprehension)) and any(
                    isinstance(y, ast.Name) and y.id == n
                    for y in ast.walk(x.target)):
                b = base_name(x.iter)
                if b and self.shared(f, b, seen + (n,)):
                    return True
            for t, v in pairs(x):
                if isinstance(t, ast.Name) and t.id == n and v is not None:
                    for w in alternatives(v):
                        b = base_name(w)
                        if b and self.shared(f, b, seen + (n,)):
                            return True
        return False


def alternatives(v):
    if isinstance(v, ast.IfExp):
        return alternatives(v.body) + alternatives(v.orelse)
    if isinstance(v, ast.BoolOp):
        return [y for x in v.values for y in alternatives(x)]
    return [v]


def saved_paths(v):
    """attribute paths whose value (or copy) the expression v is"""
    out = []
    for w in alternatives(v):
        if isinstance(w, ast.Call):
            last = w.func.attr if isinstance(w.func, ast.Attribute) else \
                getattr(w.func, 'id', None)
            if last in COPIES:
                if w.args:
                    w = w.args[0]
                elif isinstance(w.func, ast.Attribute):
                    w = w.func.value
            elif last == 'getattr' and len(w.args) >= 2 and isinstance(
                    w.args[1], ast.Constant) and isinstance(
                        w.args[1].value, str):
                b = text(w.args[0])
                if b:
                    out.append(b + '.' + w.args[1].value)
                continue
        elif isinstance(w, ast.Subscript) and isinstance(w.slice, ast.Slice):
            if w.slice.lower is None and w.slice.upper is None:
                w = w.value
        if isinstance(w, (ast.Attribute, ast.Subscript)) and base_name(w):
            out.append(text(w))
    return out


class Plan:
    """what one function saves, changes and restores"""

    def __init__(self, world, f):
        self.w, self.f = world, f
        self.saves = {}        # statement -> {(local, path)}
        self.stores = {}       # statement -> [(path, holder, value name)]
        self.switch = {}       # call -> (group, restores from local?)
        self.getters = {}      # statement -> {(local, group)}
        self.muts = {}         # call -> path
        self.par = None
        self.collect()

    def stmts(self):
        for n in walk_own(self.f.node):
            if isinstance(n, ast.stmt):
                yield n

    def collect(self):
        w, f = self.w, self.f
        self.file_saves = set()
        saved_locals = {}
        for s in self.stmts():
            for t, v in pairs(s):
                if isinstance(t, ast.Name) and v is not None:
                    for path in saved_paths(v):
                        self.saves.setdefault(s, set()).add((t.id, path))
                        saved_locals.setdefault(t.id, set()).add(path)
                    for a in alternatives(v):
                        if isinstance(a, ast.Call) and isinstance(
                                a.func, ast.Attribute) and \
                                a.func.attr == 'tell' and text(a.func.value):
                            path = text(a.func.value) + POSITION
                            self.saves.setdefault(s, set()).add(
                                (t.id, path))
                            saved_locals.setdefault(t.id, set()).add(path)
                            self.file_saves.add(text(a.func.value))
                        if isinstance(a, (ast.Call, ast.Attribute)):
                            nm = w.ext(f, a.func if isinstance(a, ast.Call)
                                       else a)
                            for c, (g, getters) in SWITCHES.items():
                                if nm in getters:
                                    self.getters.setdefault(s, set()).add(
                                        (t.id, g))
        self.saved_locals = saved_locals
        self.saved_groups = {n for v in self.getters.values() for n in v}
        for s in self.stmts():
            for t, v in pairs(s):
                path = target_text(t)
                if path is None:
                    continue
                h = w.holder(f, t)
                if h is None:
                    continue
                src = restored_from(v, saved_locals, path)
                self.stores.setdefault(s, []).append((path, h, src))
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call):
                continue
            nm = w.ext(f, n.func)
            if nm in SWITCHES:
                self.switch[n] = (nm, SWITCHES[nm][0])
            if isinstance(n.func, ast.Attribute):
                if n.func.attr in MUTATORS:
                    path = text(n.func.value)
                    on = w.ext(f, n.func.value)
                    if on in GLOBAL_OBJECTS or any(
                            path in v for v in saved_locals.values()):
                        self.muts[n] = (path, 'library' if on in
                                        GLOBAL_OBJECTS else 'shared')
            if isinstance(n.func, ast.Name) and n.func.id in (
                    'setattr', 'delattr') and len(n.args) >= 2 and \
                    isinstance(n.args[1], ast.Constant):
                b = text(n.args[0])
                fake = ast.Attribute(value=n.args[0],
                                     attr=str(n.args[1].value),
                                     ctx=ast.Store())
                h = w.holder(f, fake)
                if h:
                    path = '%s.%s' % (b, n.args[1].value)
                    src = restored_from(n.args[2] if len(n.args) > 2
                                        else None, saved_locals, path)
                    self.muts[n] = (path, h, src)

    # ------------------------------------------------------ which regions
    def restores(self):
        """path -> [statements that put a saved value back]"""
        out = {}
        for s, lst in self.stores.items():
            for path, h, src in lst:
                if src is not None:
                    out.setdefault(path, []).append(s)
        for c, v in self.muts.items():
            if len(v) == 3 and v[2] is not None:
                out.setdefault(v[0], []).append(self.stmt_of(c))
        for c in self.seeks():
            out.setdefault(text(c.func.value) + POSITION, []).append(
                self.stmt_of(c))
        return out

    def seeks(self):
        for n in walk_own(self.f.node):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr == 'seek' and \
                    n.args and isinstance(n.args[0], ast.Name) and \
                    text(n.func.value) in self.file_saves and \
                    text(n.func.value) + POSITION in self.saved_locals.get(
                        n.args[0].id, ()):
                yield n

    def parents(self):
        if self.par is None:
            self.par = parents(self.f.node)
        return self.par

    def stmt_of(self, n):
        par = self.parents()
        while n is not None and not isinstance(n, ast.stmt):
            n = par.get(n)
        return n

    def changes(self, path):
        for s, lst in self.stores.items():
            for p, h, src in lst:
                if p == path and src is None:
                    yield s
        for c, v in self.muts.items():
            if v[0] == path and (len(v) == 2 or v[2] is None):
                yield self.stmt_of(c)

    def chain(self, s):
        """blocks around a statement: [(parent, field)], outermost last"""
        out = []
        par = self.parents()
        while s in par:
            p = par[s]
            for fld in ('body', 'orelse', 'finalbody', 'handlers', 'items'):
                v = getattr(p, fld, None)
                if isinstance(v, list) and s in v:
                    out.append((p, fld))
            s = p
        return out

    def falls_through(self, change, restore):
        """is the restoration reached from the change without a decision
        (same block, an enclosing block, or a finally around it)"""
        ch = self.chain(change)
        rc = self.chain(restore)
        if not rc:
            return False
        # drop the plain containers of the restoration: with, try body,
        # finally
        i = 0
        while i < len(rc):
            p, fld = rc[i]
            if (p, fld) in ch:
                return True
            if isinstance(p, ast.Try) and fld in ('finalbody', 'body',
                                                  'orelse'):
                i += 1
                continue
            if isinstance(p, (ast.With,)) and fld == 'body':
                i += 1
                continue
            if isinstance(p, ast.If) and fld == 'body' and \
                    self.same_test(change, p):
                i += 1
                continue
            return False
        return False

    def same_test(self, change, iff):
        """the change is under an `if` with the same condition, or the
        condition is `saved is not None`"""
        t = ast.dump(iff.test)
        for p, fld in self.chain(change):
            if isinstance(p, ast.If) and fld == 'body' and \
                    ast.dump(p.test) == t:
                return True
        for x in ast.walk(iff.test):
            if isinstance(x, ast.Name) and x.id in self.saved_locals:
                return True
        return False

    def in_finally(self, s):
        return any(isinstance(p, ast.Try) and fld == 'finalbody'
                   for p, fld in self.chain(s))

    def in_handler(self, s):
        return any(isinstance(p, ast.ExceptHandler)
                   for p, _ in self.chain(s))


def restored_from(v, saved, path):
    """local whose saved value is put back into path by value v, or None"""
    if v is None:
        return None
    for a in alternatives(v):
        if isinstance(a, ast.Call) and a.args and len(a.args) == 1 and (
                getattr(a.func, 'attr', None) or getattr(
                    a.func, 'id', None)) in COPIES:
            a = a.args[0]
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) \
                and a.func.attr == 'copy' and not a.args:
            a = a.func.value
        if isinstance(a, ast.Name) and path in saved.get(a.id, ()):
            return a.id
    return None


SAFE_CALLS = {'len', 'isinstance', 'hasattr', 'issubclass', 'callable', 'id',
              'type', 'bool', 'repr', 'range'}
SAFE_METHODS = {'setstate', 'set_state', 'getstate', 'get_state',
                'isinteractive', 'ion', 'ioff'}


def fallible(node):
    """may evaluating the node raise"""
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in SAFE_CALLS:
                continue
            if isinstance(n.func, ast.Attribute) and \
                    n.func.attr in SAFE_METHODS:
                continue
            return True
        if isinstance(n, ast.Compare) and all(isinstance(o, (
                ast.Is, ast.IsNot)) for o in n.ops):
            continue
        if isinstance(n, ast.Compare) and all(
                atom(x) for x in [n.left] + n.comparators):
            continue
        if isinstance(n, (ast.Subscript, ast.BinOp, ast.Await, ast.Compare,
                          ast.Assert, ast.Yield, ast.YieldFrom)):
            if isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, ast.Store) and isinstance(n.slice, ast.Slice):
                continue
            return True
    return False


def atom(x):
    """a constant or the length of something: comparing those cannot fail"""
    return isinstance(x, ast.Constant) or (
        isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
        x.func.id == 'len')


class Region(Walk):
    """state: (saved paths/groups, dirty paths/groups)"""

    def __init__(self, plan, watch, groups, always):
        self.plan, self.watch = plan, watch
        self.groups = groups
        self.always = always        # paths tracked without a save
        self.where = {}
        self.seekset = {id(c) for c in plan.seeks()}
        par = plan.parents()
        self.with_calls = {id(i.context_expr) for n in walk_own(plan.f.node)
                           if isinstance(n, (ast.With, ast.AsyncWith))
                           for i in n.items}
        self.shielded = set()
        for n in walk_own(plan.f.node):
            if isinstance(n, ast.With) and any(
                    isinstance(i.context_expr, ast.Call) and
                    (plan.w.ext(plan.f, i.context_expr.func) or '').endswith(
                        'catch_warnings') for i in n.items):
                for x in ast.walk(n):
                    self.shielded.add(id(x))

    def simple(self, node, state):
        saved, dirty = state
        pl = self.plan
        for c in calls_in(node):
            if id(c) in self.seekset:
                p = text(c.func.value) + POSITION
                dirty = dirty - {p}
                continue
            if c in pl.switch and id(c) not in self.with_calls:
                nm, g = pl.switch[c]
                if g == 'warnings filters' and id(c) in self.shielded:
                    continue
                if self.puts_back(c, nm, g, dirty, saved):
                    dirty = frozenset(d for d in dirty if d != g and not (
                        isinstance(d, tuple) and d[0] == g))
                else:
                    dirty = dirty | {(g, nm)}
                    self.where.setdefault(g, c)
            if c in pl.muts:
                v = pl.muts[c]
                dirty = self.store(v[0], v[2] if len(v) == 3 else None,
                                   saved, dirty, c)
            for a in moved(pl, c):
                p = a + POSITION
                if p in self.watch and p in saved:
                    dirty = dirty | {p}
                    self.where.setdefault(p, c)
        for path, h, src in pl.stores.get(node, ()):
            dirty = self.store(path, src, saved, dirty, node)
        for loc, path in pl.saves.get(node, ()):
            if path in self.watch and path not in dirty:
                saved = saved | {path}
        for loc, g in pl.getters.get(node, ()):
            saved = saved | {g}
        return [(saved, dirty)]

    def store(self, path, src, saved, dirty, node):
        if path not in self.watch:
            return dirty
        if src is not None:
            return dirty - {path}
        if path in saved or path in self.always:
            self.where.setdefault(path, node)
            return dirty | {path}
        return dirty

    def puts_back(self, c, nm, g, dirty, saved):
        old = [d for d in dirty if isinstance(d, tuple) and d[0] == g]
        if not old:
            return False
        if any((d[1], nm) in TOGGLES for d in old):
            return True
        names = {n for n, gg in self.plan.saved_groups if gg == g}
        for a in list(c.args) + [k.value for k in c.keywords]:
            for x in ast.walk(a):
                if isinstance(x, ast.Name) and x.id in names:
                    return True
        return False

    def branch(self, test, state):
        """`if wasOn:` with wasOn saved from the getter of a group: where it
        is false the switch changed nothing"""
        saved, dirty = state
        neg = False
        t = test
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            neg, t = not neg, t.operand
        if isinstance(t, ast.Name):
            gs = {g for n, g in self.plan.saved_groups if n == t.id}
            if gs:
                kept = frozenset(d for d in dirty if not (
                    isinstance(d, tuple) and d[0] in gs))
                off = (saved, kept)
                return ([off], [state]) if neg else ([state], [off])
        # `if saved is not None:` guards the restoration
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.left, ast.Name) and isinstance(
                    t.comparators[0], ast.Constant) and \
                t.comparators[0].value is None and \
                t.left.id in self.plan.saved_locals:
            paths = self.plan.saved_locals[t.left.id]
            clean = (saved, frozenset(d for d in dirty if d not in paths))
            isnone = isinstance(t.ops[0], ast.Is) != neg
            return ([clean], [state]) if isnone else ([state], [clean])
        return [state], [state]

    def during(self, node, state):
        # a restoration that fails itself is not held against the function
        for c in calls_in(node):
            if id(c) in self.seekset or (
                    c in self.plan.switch and self.puts_back(
                        c, *self.plan.switch[c], state[1], state[0])):
                return self.simple(node, state)
            if c in self.plan.muts and len(self.plan.muts[c]) == 3 and \
                    self.plan.muts[c][2] is not None:
                return self.simple(node, state)
        if any(src is not None for _, _, src in
               self.plan.stores.get(node, ())):
            return self.simple(node, state)
        return [state]

    def raises(self, node):
        return fallible(node)


def moved(plan, c):
    """file objects whose position the call changes"""
    if isinstance(c.func, ast.Attribute) and c.func.attr in (
            'read', 'readline', 'readlines', 'seek', 'readinto', 'write',
            'truncate', '__next__'):
        t = text(c.func.value)
        return [t] if t in plan.file_saves else []
    if isinstance(c.func, ast.Name) and c.func.id == 'next' or \
            plan.w.ext(plan.f, c.func) == 'zipfile.is_zipfile':
        return [text(a) for a in c.args if text(a) in plan.file_saves]
    return []


def regions(rep, w):
    for f in w.p.funcs:
        if isinstance(f.node, ast.Lambda):
            continue
        plan = Plan(w, f)
        cm = is_contextmanager(f)
        back = plan.restores()
        watch, toggle, rollback = set(), set(), set()
        position = set()
        for path, rs in back.items():
            if path.endswith(POSITION):
                uses = [plan.stmt_of(c) for c in walk_own(f.node)
                        if isinstance(c, ast.Call) and path[:-len(
                            POSITION)] in moved(plan, c)]
                if any(plan.falls_through(c, r) for c in uses for r in rs):
                    watch.add(path)
                    toggle.add(path)
                    position.add(path)
                continue
            ch = list(plan.changes(path))
            if not ch:
                continue
            watch.add(path)
            if any(plan.falls_through(c, r) or plan.in_finally(r)
                   for c in ch for r in rs if not plan.in_handler(r)):
                toggle.add(path)
            elif all(plan.in_handler(r) for r in rs):
                rollback.add(path)
        always = set()
        for s, lst in plan.stores.items():
            for path, h, src in lst:
                if h in ('library', 'function') and \
                        not shim(w, f, s) and not path.startswith('self.'):
                    watch.add(path)
                    toggle.add(path)
                    always.add(path)
                    rep.count('stores_to_functions_and_libraries')
                elif cm and h == 'shared' and src is None:
                    watch.add(path)
                    toggle.add(path)
                    always.add(path)
        for c, v in plan.muts.items():
            if v[1] in ('library', 'function') or (
                    cm and v[1] == 'shared'):
                watch.add(v[0])
                toggle.add(v[0])
                always.add(v[0])
        if not watch and not plan.switch:
            continue
        rep.count('functions_with_temporary_changes')
        rep.count('regions', len(watch) + len(plan.switch))
        rep.sample('regions_in', f.short, 12)
        walk = Region(plan, watch, plan.switch, always)
        try:
            out = walk.run(f.node.body, {(frozenset(), frozenset())})
        except TooManyPaths:
            rep.count('functions_too_large')
            continue
        ends = [('normally', st) for st in out.normal] + \
            [('by return', st) for st, _ in out.ret] + \
            [('by an exception', st) for st in out.exc]
        for how, (saved, dirty) in ends:
            for d in dirty:
                if isinstance(d, tuple):
                    g = d[0]
                    rep.add('switch', '%s:%s' % (f.short, g),
                            'changes the %s and can end %s without putting '
                            'it back' % (g, how), f.loc(walk.where[g]))
                    continue
                if d in position and how == 'by an exception':
                    continue
                if d in rollback and how != 'by an exception':
                    continue
                if d not in toggle and d not in rollback:
                    continue
                what = 'the position of %s' % d[:-len(POSITION)] if \
                    d.endswith(POSITION) else d
                if d in back:
                    m = 'changes %s temporarily and can end %s without ' \
                        'putting it back' % (what, how)
                else:
                    m = 'changes %s and never puts it back' % what
                rep.add('not-restored', '%s:%s' % (f.short, d), m,
                        f.loc(walk.where.get(d, f.node)))


def shim(w, f, s):
    for t in flat_targets(s):
        n = text(t) or ''
        full = w.ext(f, t) or ''
        b = w.flow.entity(f, t.value) if isinstance(t, ast.Attribute) else \
            None
        for k in SHIMS:
            if full.startswith(k) or (isinstance(b, Ext) and
                                      b.name.startswith(k)):
                return True
    return False


# --------------------------------------------------------------- labels

class Labels(Walk):
    """state: frozenset of label paths that are not the default"""

    def __init__(self, paths):
        self.paths = paths

    def simple(self, node, state):
        for t, v in pairs(node) if isinstance(node, ast.stmt) else ():
            p = target_text(t)
            if p in self.paths:
                if v is not None and default_labels(v):
                    state = state - {p}
                else:
                    state = state | {p}
        return [state]

    def during(self, node, state):
        return [frozenset(state)]


def default_labels(v):
    return isinstance(v, ast.Call) and (
        dotted(v.func) or '').split('.')[-1] in ('RangeIndex', 'range')


def labels(rep, w):
    for f in w.p.funcs:
        if isinstance(f.node, ast.Lambda) or f.cls is None or not (
                rep.nim.is_data(f.cls) or rep.nim.is_axis(f.cls)):
            continue
        paths = set()
        for s in walk_own(f.node):
            for t, v in pairs(s) if isinstance(s, ast.stmt) else ():
                if isinstance(t, ast.Attribute) and t.attr in (
                        'index', 'columns') and w.holder(f, t) and \
                        stored_frame(w, f, t.value):
                    paths.add(target_text(t))
        if not paths:
            continue
        rep.count('functions_setting_labels')
        out = Labels(paths).run(f.node.body, {frozenset()})
        ends = [('normally', st) for st in out.normal] + \
            [('by return', st) for st, _ in out.ret] + \
            [('by an exception', st) for st in out.exc]
        for how, st in ends:
            for p in st:
                rep.add('labels', '%s:%s' % (f.short, p),
                        'labels the stored frame (%s) and can end %s without '
                        'the default labels' % (p, how), f.loc())


def stored_frame(w, f, e):
    """is e the frame stored in a data object: x._data, or a local for it"""
    if isinstance(e, ast.Attribute):
        return e.attr == '_data'
    if isinstance(e, ast.Name) and e.id in w.flow.local_names(f):
        return any(isinstance(v, ast.Attribute) and v.attr == '_data'
                   for v in w.flow.assigns(f).get(e.id, ())
                   if isinstance(v, ast.AST))
    return False


# ---------------------------------------------------------------- files

class Opened(Walk):
    """state: frozenset of open resources (local names)"""

    def __init__(self, w, f, opens, closers):
        self.w, self.f, self.opens = w, f, opens
        self.where = {}

    def simple(self, node, state):
        for c in calls_in(node):
            if isinstance(c.func, ast.Attribute) and c.func.attr in (
                    'close', 'shutdown', 'cleanup', 'terminate') and \
                    isinstance(c.func.value, ast.Name):
                state = state - {c.func.value.id}
        if isinstance(node, ast.stmt):
            for t, v in pairs(node):
                if isinstance(t, ast.Name) and v is not None:
                    for a in alternatives(v):
                        if id(a) in self.opens:
                            state = state | {t.id}
                            self.where[t.id] = a
                elif isinstance(t, (ast.Attribute, ast.Subscript)) and \
                        isinstance(v, ast.Name):
                    state = state - {v.id}      # kept elsewhere
        return [state]

    def enter(self, node, state):
        for i in node.items:
            e = i.context_expr
            if isinstance(e, ast.Call) and (
                    self.w.ext(self.f, e.func) or '') in MAKE_CLOSED and \
                    e.args:
                e = e.args[0]
            if isinstance(e, ast.Name):
                state = state - {e.id}          # closed by the with
        return [state]

    def during(self, node, state):
        # a failing close is not held against the function
        for c in calls_in(node):
            if isinstance(c.func, ast.Attribute) and \
                    c.func.attr == 'close':
                return self.simple(node, state)
        return [state]

    def branch(self, test, state):
        t, neg = test, False
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            neg, t = not neg, t.operand
        name = None
        if isinstance(t, ast.Name):
            name = t.id
        elif isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) \
                and len(t.ops) == 1 and isinstance(
                    t.comparators[0], ast.Constant) and \
                t.comparators[0].value is None:
            name = t.left.id
            if isinstance(t.ops[0], ast.Is):
                neg = not neg
        if name and name in state:
            off = state - {name}
            return ([off], [state]) if neg else ([state], [off])
        return [state], [state]


def opened(rep, w):
    for f in w.p.funcs:
        opens = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                nm = w.ext(f, n.func)
                if nm in OPENERS or (nm or '').endswith(
                        ('ZipFile', 'TarFile.open')) and nm not in (
                            'zipfile.is_zipfile',):
                    opens[id(n)] = (n, nm)
                elif not nm and isinstance(n.func, ast.Name) and \
                        n.func.id in w.flow.local_names(f) and any(
                            w.ext(f, a) in OPENERS
                            for v in w.flow.assigns(f).get(n.func.id, ())
                            if isinstance(v, ast.AST)
                            for a in alternatives(v)):
                    opens[id(n)] = (n, n.func.id)
        if not opens:
            continue
        par = parents(f.node)
        locs = set()
        for i, (n, nm) in opens.items():
            rep.count('opened')
            rep.sample('opened_in', '%s %s' % (f.short, nm), 12)
            p = par.get(n)
            while isinstance(p, (ast.IfExp, ast.BoolOp)):
                n2, p = p, par.get(p)
            if isinstance(p, ast.withitem):
                continue
            if isinstance(p, ast.Call) and (
                    w.ext(f, p.func) in MAKE_CLOSED or
                    getattr(p.func, 'attr', '') in ('enter_context',
                                                    'push')):
                continue
            if isinstance(p, (ast.Return, ast.Yield)):
                rep.count('returned_open')
                continue
            if isinstance(p, ast.Assign):
                t = p.targets[0]
                if isinstance(t, ast.Name):
                    locs.add(t.id)
                    continue
                if isinstance(t, ast.Attribute) and isinstance(
                        t.value, ast.Name) and t.value.id == f.method_self:
                    if closes_attr(w, f.cls, t.attr):
                        rep.count('kept_and_closed_by_class')
                        continue
                    rep.add('never-closed', '%s:%s' % (f.short, t.attr),
                            '%s is kept in self.%s, which no method of the '
                            'class closes' % (nm, t.attr), f.loc(n))
                    continue
            rep.add('not-closed', '%s:%s' % (f.short, nm),
                    'what %s opens here is not closed' % nm, f.loc(n))
        if locs and not isinstance(f.node, ast.Lambda):
            walk = Opened(w, f, opens, None)
            out = walk.run(f.node.body, {frozenset()})
            ends = [('normally', st) for st in out.normal] + \
                [('by return', st - returned(n)) for st, n in out.ret] + \
                [('by an exception', st) for st in out.exc]
            for how, st in ends:
                for x in st:
                    rep.add('not-closed', '%s:%s' % (f.short, x),
                            '%s is opened and can still be open when the '
                            'function ends %s' % (x, how),
                            f.loc(walk.where.get(x, f.node)))


def returned(node):
    if node.value is None:
        return frozenset()
    return frozenset(n.id for n in ast.walk(node.value)
                     if isinstance(n, ast.Name) and not isinstance(
                         node.value, ast.Compare))


def closes_attr(w, cls, attr):
    if cls is None:
        return False
    for c in list(cls.mro()) + list(cls.all_subs()):
        for m in c.methods.values():
            for n in walk_own(m.node):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr == 'close' \
                        and dotted(n.func.value) == '%s.%s' % (
                            m.method_self, attr):
                    return True
    return False


def run(rep):
    w = World(rep)
    regions(rep, w)
    labels(rep, w)
    opened(rep, w)
    rep.floor('functions_with_temporary_changes', 3)
    rep.floor('opened', 5)
