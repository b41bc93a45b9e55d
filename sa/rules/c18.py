"""C18 archives cannot write outside of their folder"""
import ast
from ..flow import Flow, parents, terminates
from ..model import Func, Ext, walk_own, dotted

EXPLANATION = """
Every call in the package that unpacks an archive to disk (extractall,
extract of a zip or tar object, shutil.unpack_archive) and every file opened
for writing at a path made from a member name is an obligation. It is
discharged when on every path to it the member names of that same archive -
all of them, for each archive format the object can have - have been tested
and the archive refused when one is absolute and when one contains a parent
reference (directly, in a loop over all names, or in a helper), or when the
members given to the extraction are filtered by such a test; for tar archives
the targets of link members as well, or the extraction uses tarfile's own
data filter. A test that looks at only some names, only one of the two
criteria, or that comes after the extraction does not discharge it."""

ASSUMPTIONS = [
    'os.path.isabs recognises absolute member names on the platform in use',
    'nothing else changes the destination folder during the extraction',
]

NAMES = {'namelist', 'getnames', 'getmembers', 'infolist'}
EXTRACT = {'extractall', 'extract', '_extract_member'}


class C18:
    def __init__(self, rep):
        self.rep, self.p = rep, rep.prog
        self.flow = Flow(rep.prog)

    def ext(self, f, node):
        e = self.flow.entity(f, node)
        return e.name if isinstance(e, Ext) else None

    # ------------------------------------------------- archive objects
    def formats(self, f, node, depth=0):
        """formats {'zip','tar'} of the archive the expression opens"""
        out = set()
        if node is None or depth > 6:
            return out
        nm = self.ext(f, node) or ''
        if nm.startswith('zipfile.') and 'ZipFile' in nm:
            return {'zip'}
        if nm.startswith('tarfile.') and ('TarFile' in nm or
                                          nm.endswith('.open')):
            return {'tar'}
        if isinstance(node, ast.Call):
            out |= self.formats(f, node.func, depth + 1)
            for t in self.flow.targets(f, node):
                if t.exact:
                    for n in walk_own(t.func.node):
                        if isinstance(n, ast.Return) and n.value is not None:
                            out |= self.formats(t.func, n.value, depth + 1)
        elif isinstance(node, ast.Name):
            g = self.flow.scope_of(f, node.id)
            if g is not None:
                for v in self.flow.assigns(g).get(node.id, ()):
                    if isinstance(v, ast.AST):
                        out |= self.formats(g, v, depth + 1)
                for n in walk_own(g.node):
                    if isinstance(n, ast.withitem) and isinstance(
                            n.optional_vars, ast.Name) and \
                            n.optional_vars.id == node.id:
                        out |= self.formats(g, n.context_expr, depth + 1)
                if node.id in g.params:
                    for h, call, t in self.flow.callers(g):
                        a = self.flow.value(t, call, node.id)
                        if isinstance(a, ast.AST):
                            out |= self.formats(h, a, depth + 1)
        elif isinstance(node, ast.IfExp):
            out |= self.formats(f, node.body, depth + 1)
            out |= self.formats(f, node.orelse, depth + 1)
        return out

    def obligations(self):
        for f in self.p.funcs:
            for n in walk_own(f.node):
                if not isinstance(n, ast.Call):
                    continue
                nm = self.ext(f, n.func) or ''
                if nm == 'shutil.unpack_archive':
                    yield f, n, {'zip', 'tar'}, None
                    continue
                attr, obj = None, None
                if isinstance(n.func, ast.Attribute):
                    attr, obj = n.func.attr, n.func.value
                elif isinstance(n.func, ast.Call) and isinstance(
                        n.func.func, ast.Name) and \
                        n.func.func.id == 'getattr' and \
                        len(n.func.args) >= 2:
                    obj = n.func.args[0]
                    c = n.func.args[1]
                    attr = c.value if isinstance(c, ast.Constant) else None
                if attr in EXTRACT and obj is not None:
                    fm = self.formats(f, obj)
                    if fm:
                        yield f, n, fm, obj
                    elif attr == 'extractall':
                        yield f, n, {'zip', 'tar'}, obj

    # -------------------------------------------------------- the tests
    def whole_names(self, f, e, depth=0):
        """does the expression denote all member names: returns the set of
        things it covers: 'name' and/or 'link', or empty"""
        if depth > 6 or e is None:
            return set()
        if isinstance(e, ast.Name):
            vals = self.flow.assigns(f).get(e.id, ()) if \
                e.id in self.flow.local_names(f) else ()
            vals = [v for v in vals if isinstance(v, ast.AST)]
            if e.id in f.params:
                got = None
                for h, call, t in self.flow.callers(f):
                    a = self.flow.value(t, call, e.id)
                    g = self.whole_names(h, a, depth + 1) if isinstance(
                        a, ast.AST) else set()
                    got = g if got is None else got & g
                return got or set()
            if not vals:
                return set()
            got = self.whole_names(f, vals[0], depth + 1)
            for v in vals[1:]:
                got &= self.whole_names(f, v, depth + 1)
            return got
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in NAMES:
                return {'name'} if e.func.attr in ('namelist', 'getnames') \
                    else {'members'}
            if isinstance(e.func, ast.Call) and isinstance(
                    e.func.func, ast.Name) and e.func.func.id == 'getattr' \
                    and len(e.func.args) >= 2:
                vals = self.strings(f, e.func.args[1])
                if vals and vals <= {'namelist', 'getnames'}:
                    return {'name'}
                if vals and vals <= {'getmembers', 'infolist'}:
                    return {'members'}
            if isinstance(e.func, ast.Name) and e.func.id in (
                    'list', 'tuple', 'set', 'sorted', 'iter',
                    'enumerate') and e.args:
                return self.whole_names(f, e.args[0], depth + 1)
            for t in self.flow.targets(f, e):
                if t.exact:
                    rets = [n.value for n in walk_own(t.func.node)
                            if isinstance(n, ast.Return)]
                    if rets and all(r is not None for r in rets):
                        got = self.whole_names(t.func, rets[0], depth + 1)
                        for r in rets[1:]:
                            got &= self.whole_names(t.func, r, depth + 1)
                        return got
            return set()
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.whole_names(f, e.left, depth + 1) | \
                self.whole_names(f, e.right, depth + 1)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and \
                len(e.generators) == 1 and not e.generators[0].ifs:
            src = self.whole_names(f, e.generators[0].iter, depth + 1)
            t = e.generators[0].target
            if isinstance(e.elt, ast.Name) and isinstance(t, ast.Name) and \
                    e.elt.id == t.id:
                return src
            if isinstance(e.elt, ast.Attribute) and 'members' in src:
                if e.elt.attr in ('name', 'filename', 'path'):
                    return {'name'}
                if e.elt.attr in ('linkname', 'linkpath'):
                    return {'link'}
            # the path a member is written to: join(location, name)
            if 'name' in src and isinstance(e.elt, ast.Call) and (
                    self.ext(f, e.elt.func) or '').startswith('os.path.'):
                return {'name'}
        return set()

    def strings(self, f, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return {e.value}
        if isinstance(e, ast.Name):
            out = set()
            for v in self.flow.assigns(f).get(e.id, ()):
                g = self.strings(f, v) if isinstance(v, ast.AST) else set()
                if not g:
                    return set()
                out |= g
            return out
        if isinstance(e, ast.IfExp):
            a, b = self.strings(f, e.body), self.strings(f, e.orelse)
            return a | b if a and b else set()
        return set()

    def false_means(self, f, e, env, depth=0):
        """facts (what, criterion) known to be absent when e is false.
        env: loop variable -> what it ranges over ('name','link','members')
        what in 'name','link'; criterion in 'abs','parent','outside'"""
        if depth > 8:
            return set()
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
            out = set()
            for v in e.values:
                out |= self.false_means(f, v, env, depth + 1)
            return out
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
            # `is a tar and ...`: the link test is only needed for tar
            vals = [v for v in e.values if not self.tar_test(f, v)]
            if len(vals) == 1:
                got = self.false_means(f, vals[0], env, depth + 1)
                return {x for x in got if x[0] == 'link'} \
                    if len(vals) < len(e.values) else got
            return set()
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.true_means(f, e.operand, env, depth + 1)
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name) and fn.id == 'any' and e.args:
                return self.quantified(f, e.args[0], env, depth, False)
            if isinstance(fn, ast.Name) and fn.id == 'bool' and e.args:
                return self.false_means(f, e.args[0], env, depth + 1)
            nm = self.ext(f, fn) or ''
            if nm.endswith('path.isabs') and e.args:
                return {(w, 'abs') for w in self.about(f, e.args[0], env)}
            if isinstance(fn, ast.Attribute) and fn.attr == 'startswith' \
                    and e.args and any(
                        isinstance(c, ast.Constant) and c.value in
                        ('/', '\\') for c in ast.walk(e.args[0])):
                return {(w, 'abs') for w in self.about(f, fn.value, env)}
            if isinstance(fn, ast.Attribute) and fn.attr == 'is_absolute':
                return {(w, 'abs') for w in self.about(f, fn.value, env)}
            if isinstance(fn, ast.Name) and fn.id in (
                    'len', 'list', 'set', 'tuple') and e.args:
                return self.false_means(f, e.args[0], env, depth + 1)
            if isinstance(fn, ast.Name) and fn.id == 'next' and \
                    len(e.args) == 2 and isinstance(
                        e.args[1], ast.Constant) and not e.args[1].value:
                return self.selected(f, e.args[0], env, depth)
            return self.helper(f, e, env, depth, False)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.selected(f, e, env, depth)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op, l, r = e.ops[0], e.left, e.comparators[0]
            if isinstance(op, (ast.Gt, ast.NotEq, ast.IsNot)) and isinstance(
                    r, ast.Constant) and not r.value and isinstance(
                        l, (ast.Call, ast.Name)):
                got = self.false_means(f, l, env, depth + 1)
                if got:
                    return got
            if isinstance(op, ast.In) and isinstance(l, ast.Constant) and \
                    isinstance(l.value, str) and l.value.strip('/\\') == \
                    '..':
                if l.value != '..':
                    return set()
                b = r
                # the parts of a name
                if isinstance(b, ast.Call) and isinstance(
                        b.func, ast.Attribute) and b.func.attr == 'split':
                    b = b.func.value
                if isinstance(b, ast.Attribute) and b.attr == 'parts':
                    b = b.value
                return {(w, 'parent') for w in self.about(f, b, env)}
            if isinstance(op, (ast.NotEq,)) and self.resolved(f, l) | \
                    self.resolved(f, r):
                return {(w, c) for x in (l, r)
                        for w in self.about_deep(f, x, env)
                        for c in ('abs', 'parent')}
        if isinstance(e, ast.Name):
            vals = [v for v in self.flow.assigns(f).get(e.id, ())
                    if isinstance(v, ast.AST)]
            if len(vals) == 1:
                return self.false_means(f, vals[0], env, depth + 1)
            # flag set to True in a loop over all names
            return self.flag(f, e.id, env, depth)
        return set()

    def true_means(self, f, e, env, depth=0):
        """facts known to be absent when e is true"""
        if depth > 8:
            return set()
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
            out = set()
            for v in e.values:
                out |= self.true_means(f, v, env, depth + 1)
            return out
        if isinstance(e, ast.BoolOp):
            return set()
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.false_means(f, e.operand, env, depth + 1)
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name) and fn.id == 'all' and e.args:
                return self.quantified(f, e.args[0], env, depth, True)
            if isinstance(fn, ast.Attribute) and fn.attr in (
                    'startswith', 'is_relative_to') and \
                    self.resolved(f, fn.value):
                return {(w, c) for w in self.about_deep(f, fn.value, env)
                        for c in ('abs', 'parent')}
            return self.helper(f, e, env, depth, True)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op, l, r = e.ops[0], e.left, e.comparators[0]
            if isinstance(op, (ast.Eq, ast.Is)) and isinstance(
                    r, ast.Constant) and not r.value and isinstance(
                        l, (ast.Call, ast.Name)):
                got = self.false_means(f, l, env, depth + 1)
                if got:
                    return got
            if isinstance(op, ast.NotIn):
                return self.false_means(f, ast.Compare(
                    left=l, ops=[ast.In()], comparators=[r]), env, depth + 1)
            if isinstance(op, ast.Eq) and self.resolved(f, l) | \
                    self.resolved(f, r):
                return {(w, c) for x in (l, r)
                        for w in self.about_deep(f, x, env)
                        for c in ('abs', 'parent')}
        if isinstance(e, ast.Name):
            vals = [v for v in self.flow.assigns(f).get(e.id, ())
                    if isinstance(v, ast.AST)]
            if len(vals) == 1:
                return self.true_means(f, vals[0], env, depth + 1)
        return set()

    def resolved(self, f, e):
        """is the path made absolute (realpath, abspath, resolve,
        commonpath) before it is compared"""
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                d = (dotted(n.func) or getattr(n.func, 'attr', '') or
                     '').split('.')[-1]
                if d in ('realpath', 'abspath', 'resolve', 'commonpath'):
                    return True
            if isinstance(n, ast.Name):
                for v in self.flow.assigns(f).get(n.id, ()):
                    if isinstance(v, ast.AST) and not any(
                            isinstance(m, ast.Name) and m.id == n.id
                            for m in ast.walk(v)) and self.resolved(f, v):
                        return True
        return False

    def about(self, f, e, env):
        """which of 'name'/'link' the expression is, in a loop"""
        if isinstance(e, ast.Name):
            w = env.get(e.id)
            if w:
                return w & {'name', 'link'}
            vals = [v for v in self.flow.assigns(f).get(e.id, ())
                    if isinstance(v, ast.AST)]
            if len(vals) == 1 and not (isinstance(vals[0], ast.Name) and
                                       vals[0].id == e.id):
                return self.about(f, vals[0], env)
            return set()
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) \
                and 'members' in env.get(e.value.id, ()):
            if e.attr in ('name', 'filename', 'path'):
                return {'name'}
            if e.attr in ('linkname', 'linkpath'):
                return {'link'}
        if isinstance(e, ast.Call):
            d = (dotted(e.func) or '').split('.')[-1]
            if d in ('normpath', 'normcase', 'Path', 'PurePath', 'str',
                     'PurePosixPath', 'fspath') and e.args:
                if d == 'normpath':
                    # a/../b has no parent reference any more
                    pass
                return self.about(f, e.args[0], env)
            if isinstance(e.func, ast.Attribute) and e.func.attr in (
                    'replace', 'strip', 'lower', 'casefold'):
                return self.about(f, e.func.value, env)
        return set()

    def about_deep(self, f, e, env):
        out = set()
        for n in ast.walk(e):
            if isinstance(n, (ast.Name, ast.Attribute)):
                out |= self.about(f, n, env)
                if isinstance(n, ast.Name) and n.id not in env:
                    for v in self.flow.assigns(f).get(n.id, ()):
                        if isinstance(v, ast.AST):
                            for m in ast.walk(v):
                                if isinstance(m, (ast.Name, ast.Attribute)):
                                    out |= self.about(f, m, env)
        return out

    def selected(self, f, g, env, depth):
        """nothing is selected by [n for n in names if bad(n)]"""
        if isinstance(g, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) and \
                len(g.generators) == 1 and len(g.generators[0].ifs) == 1 \
                and isinstance(g.generators[0].target, ast.Name):
            c = g.generators[0]
            src = self.whole_names(f, c.iter)
            if src:
                env2 = dict(env)
                env2[c.target.id] = src
                return self.false_means(f, c.ifs[0], env2, depth + 1)
        return set()

    def quantified(self, f, g, env, depth, positive):
        if isinstance(g, (ast.GeneratorExp, ast.ListComp)) and \
                len(g.generators) == 1 and not g.generators[0].ifs and \
                isinstance(g.generators[0].target, ast.Name):
            src = self.whole_names(f, g.generators[0].iter)
            if not src:
                return set()
            env2 = dict(env)
            env2[g.generators[0].target.id] = src
            fn = self.true_means if positive else self.false_means
            return fn(f, g.elt, env2, depth + 1)
        if isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and \
                g.func.id == 'map' and len(g.args) == 2:
            src = self.whole_names(f, g.args[1])
            if src:
                call = ast.Call(func=g.args[0], args=[ast.Name(
                    id='<item>', ctx=ast.Load())], keywords=[])
                env2 = dict(env)
                env2['<item>'] = src
                fn = self.true_means if positive else self.false_means
                return fn(f, call, env2, depth + 1)
        return set()

    def bound(self, f, call, e, env):
        """what the parameters of e are when called like this"""
        ts = [t for t in self.flow.targets(f, call) if t.func is e]
        env2 = {}
        for p in e.params:
            a = None
            if ts:
                a = self.flow.value(ts[0], call, p)
            elif p in e.pos and e.pos.index(p) < len(call.args):
                a = call.args[e.pos.index(p)]
            if isinstance(a, ast.Name) and a.id in env:
                env2[p] = env[a.id]
            elif isinstance(a, ast.AST):
                w = self.about(f, a, env)
                if w:
                    env2[p] = w
        return env2

    def helper(self, f, call, env, depth, value):
        """a package function returning a truth value about names: facts
        absent when it returns `value`"""
        e = self.flow.entity(f, call.func)
        if not isinstance(e, Func):
            return set()
        env2 = self.bound(f, call, e, env)
        if isinstance(e.node, ast.Lambda):
            fn = self.true_means if value else self.false_means
            return fn(e, e.node.body, env2, depth + 1)
        # every `return` that can produce `value`
        got = None
        for n in walk_own(e.node):
            if not isinstance(n, ast.Return):
                continue
            if n.value is None or isinstance(n.value, ast.Constant):
                v = bool(n.value.value) if n.value is not None else False
                if v != value:
                    continue
                fact = self.before(e, n, env2, depth + 1)
            else:
                fn = self.true_means if value else self.false_means
                fact = fn(e, n.value, env2, depth + 1) | \
                    self.before(e, n, env2, depth + 1)
            got = fact if got is None else got & fact
        return got or set()

    def flag(self, f, name, env, depth):
        """`bad = False; for n in names: if unsafe(n): bad = True`"""
        par = parents(f.node)
        out = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.For) and isinstance(n.target, ast.Name):
                src = self.whole_names(f, n.iter)
                if not src:
                    continue
                env2 = dict(env)
                env2[n.target.id] = src
                for s in n.body:
                    if isinstance(s, ast.If) and any(
                            isinstance(x, ast.Assign) and any(
                                isinstance(t, ast.Name) and t.id == name
                                for t in x.targets) and isinstance(
                                    x.value, ast.Constant) and x.value.value
                            is True for x in s.body):
                        out |= self.false_means(f, s.test, env2, depth + 1)
                    if any(isinstance(x, ast.Continue)
                           for x in ast.walk(s)):
                        break
        return out

    def tar_test(self, f, e):
        """is e a test of the archive being a tar file"""
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(
                e.ops[0], (ast.Is, ast.Eq)):
            return any('tarfile' in (self.ext(f, x) or '')
                       for x in [e.left] + e.comparators)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id in ('isinstance', 'hasattr'):
            return True
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(
                e.ops[0], (ast.IsNot, ast.NotEq)):
            return any('zipfile' in (self.ext(f, x) or '')
                       for x in [e.left] + e.comparators)
        if isinstance(e, ast.Name):
            return 'tar' in e.id.lower()
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return 'zip' in ast.unparse(e.operand).lower()
        return False

    def before(self, f, node, env=None, depth=0):
        """facts established on every path to the node: guards around it and
        earlier statements that leave when a test is true"""
        env = env or {}
        par = parents(f.node)
        facts = set()
        child, cur = node, par.get(node)
        while cur is not None and child is not f.node:
            for fld in ('body', 'orelse', 'finalbody'):
                blk = getattr(cur, fld, None)
                if isinstance(blk, list) and child in blk:
                    i = blk.index(child)
                    for s in blk[:i]:
                        facts |= self.after(f, s, env, depth)
                    if isinstance(cur, ast.If) and fld == 'body':
                        facts |= self.true_means(f, cur.test, env, depth)
                    elif isinstance(cur, ast.If) and fld == 'orelse':
                        facts |= self.false_means(f, cur.test, env, depth)
            if isinstance(cur, ast.IfExp):
                if child is cur.body:
                    facts |= self.true_means(f, cur.test, env, depth)
                elif child is cur.orelse:
                    facts |= self.false_means(f, cur.test, env, depth)
            child, cur = cur, par.get(cur)
        return facts

    def after(self, f, s, env, depth):
        """facts that hold once statement s has completed normally"""
        if isinstance(s, ast.If):
            out = set()
            if terminates(s.body):
                out |= self.false_means(f, s.test, env, depth)
                # elif chains
                if s.orelse:
                    for x in s.orelse:
                        out |= self.after(f, x, env, depth)
            elif s.orelse and terminates(s.orelse):
                out |= self.true_means(f, s.test, env, depth)
            elif self.tar_test(f, s.test) and not s.orelse:
                for x in s.body:
                    out |= {y for y in self.after(f, x, env, depth)
                            if y[0] == 'link'}
            return out
        if isinstance(s, ast.Assert):
            return set()
        if isinstance(s, ast.For) and isinstance(s.target, ast.Name):
            src = self.whole_names(f, s.iter)
            if not src or s.orelse:
                return set()
            env2 = dict(env)
            env2[s.target.id] = src
            out = set()
            for x in s.body:
                if any(isinstance(y, (ast.Break, ast.Continue))
                       for y in ast.walk(x)):
                    break
                out |= self.after(f, x, env2, depth)
            return out
        if isinstance(s, (ast.With,)):
            out = set()
            for x in s.body:
                out |= self.after(f, x, env, depth)
            return out
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            # a helper that raises for unsafe names
            e = self.flow.entity(f, s.value.func)
            if isinstance(e, Func) and not isinstance(e.node, ast.Lambda) \
                    and depth < 4:
                out = set()
                env2 = self.bound(f, s.value, e, env)
                for x in e.node.body:
                    if any(isinstance(y, ast.Return)
                           for y in ast.walk(x)):
                        break
                    out |= self.after(e, x, env2, depth + 1)
                return out
        return set()

    def run(self):
        rep = self.rep
        for f, call, fm, obj in self.obligations():
            rep.count('extractions')
            rep.sample('extraction_sites', f.loc(call))
            fm = self.narrowed(f, call, fm)
            facts = self.before(f, call)
            facts |= self.filtered(f, call)
            flt = next((k.value for k in call.keywords
                        if k.arg == 'filter'), None)
            safe_filter = isinstance(flt, ast.Constant) and flt.value in (
                'data', 'tar') or (
                    flt is not None and (self.ext(f, flt) or '') in (
                        'tarfile.data_filter', 'tarfile.tar_filter'))
            need = set()
            if 'zip' in fm:
                need |= {('name', 'abs'), ('name', 'parent')}
            if 'tar' in fm and not safe_filter:
                need |= {('name', 'abs'), ('name', 'parent'),
                         ('link', 'abs'), ('link', 'parent')}
            words = {('name', 'abs'): 'an absolute member name',
                     ('name', 'parent'): 'a member name with a parent '
                                         'reference',
                     ('link', 'abs'): 'a link member with an absolute target',
                     ('link', 'parent'): 'a link member whose target has a '
                                         'parent reference'}
            rep.count('criteria_checked', len(need))
            for n in sorted(need - facts):
                rep.add('unchecked', '%s:%s-%s' % (f.short, n[0], n[1]),
                        '%s extracts an archive although %s may be in it '
                        '(not refused for every member on every path)' % (
                            f.short, words[n]), f.loc(call))
        self.writes()
        rep.floor('extractions', 1)

    def narrowed(self, f, call, fm):
        """formats left under `archive is tar` tests around the call"""
        par = parents(f.node)
        child, cur = call, par.get(call)
        while cur is not None and child is not f.node:
            if isinstance(cur, ast.If) and child is not cur.test:
                kind = self.strict_test(f, cur.test)
                if kind is not None:
                    other = {'zip': 'tar', 'tar': 'zip'}[kind]
                    left = {kind} if child in cur.body else {other}
                    fm = fm & left or fm
            child, cur = cur, par.get(cur)
        return fm

    def strict_test(self, f, e):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(
                e.ops[0], (ast.Is, ast.Eq)):
            exprs = [e.left] + e.comparators
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == 'isinstance' and len(e.args) == 2:
            exprs = [e.args[1]]
        else:
            return None
        for x in exprs:
            nm = self.ext(f, x) or ''
            if nm.startswith('tarfile.'):
                return 'tar'
            if nm.startswith('zipfile.'):
                return 'zip'
        return None

    def filtered(self, f, call):
        """members=[m for m in names if safe(m)]"""
        m = next((k.value for k in call.keywords if k.arg == 'members'),
                 None)
        if m is None and len(call.args) > 1:
            m = call.args[1]
        if isinstance(m, ast.Name):
            vals = [v for v in self.flow.assigns(f).get(m.id, ())
                    if isinstance(v, ast.AST)]
            m = vals[0] if len(vals) == 1 else None
        if isinstance(m, (ast.ListComp, ast.GeneratorExp)) and \
                len(m.generators) == 1 and isinstance(
                    m.generators[0].target, ast.Name):
            g = m.generators[0]
            src = self.whole_names(f, g.iter)
            out = set()
            for i in g.ifs:
                out |= self.true_means(f, i, {g.target.id: src})
            return out
        return set()

    def writes(self):
        """files written at paths made of member names"""
        rep = self.rep
        for f in self.p.funcs:
            for n in walk_own(f.node):
                if not (isinstance(n, ast.For) and isinstance(
                        n.target, ast.Name)):
                    continue
                src = self.whole_names(f, n.iter)
                if not src:
                    continue
                for c in ast.walk(n):
                    if not (isinstance(c, ast.Call) and isinstance(
                            c.func, ast.Name) and c.func.id == 'open' and
                            len(c.args) > 1 and isinstance(
                                c.args[1], ast.Constant) and set(
                                    str(c.args[1].value)) & set('wax')):
                        continue
                    if not any(isinstance(x, ast.Name) and
                               x.id == n.target.id
                               for x in ast.walk(c.args[0])):
                        continue
                    rep.count('member_writes')
                    facts = self.before(f, c, {n.target.id: src})
                    for need in (('name', 'abs'), ('name', 'parent')):
                        if need not in facts:
                            rep.add('unchecked', '%s:write-%s' % (
                                f.short, need[1]),
                                '%s writes a member of an archive at a path '
                                'that may lead outside' % f.short, f.loc(c))


def run(rep):
    C18(rep).run()
