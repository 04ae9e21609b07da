"""Abstract interpreter for the Python subset (nearly all of the language)
used by a library like sqlpuzzle.  It walks the syntax trees of the current
source; every branch whose condition is not determined by the abstract values
partitions the state (`Ctx.choose`), and the explorer covers all partitions.
Nothing of the analysed package is imported or executed.
"""
import ast
import inspect
import os
import itertools

from . import values as V
from .values import *  # noqa: F401,F403
from .values import Raise, Unsupported, SStr, Sym, Seq, PyDict, PySet, PyObj, PyClass, Module, PyFunc, Bound, Builtin
from .values import Prop, ClassM, StaticM, Super, Iter, Atom, Choice, NOTIMPL, ELLIPSIS, mk, segs, is_strlike


def _unsupported(what):
    raise Unsupported(what)


class PathInfeasible(Exception):
    """The path contradicts an assumption of the obligation."""


class Restart(Exception):
    """A helper turned out to have side effects: analyse the partition again
    with that helper inlined instead of summarised."""


INLINE = set()        # functions that must not be summarised
SUMMARIES = {}        # (function, arguments, facts, global state) -> outcomes
_RELPATH = {}


def labels_of(k, _memo={}):
    """Input labels that a fact key talks about."""
    try:
        return _memo[k]
    except KeyError:
        pass
    out = set()
    _labels(k, out)
    out = _memo[k] = frozenset(out)
    return out


def _labels(k, out):
    if isinstance(k, (Atom, Sym)):
        if isinstance(k.label, tuple):
            _labels(k.label, out)
        out.add(k.label)
    elif isinstance(k, SStr):
        for s in k.segs:
            _labels(s, out)
    elif isinstance(k, Choice):
        for a in k.args:
            _labels(a, out)
    elif isinstance(k, (tuple, frozenset)):
        for x in k:
            _labels(x, out)


class Ctx:
    """One partition: the decisions taken so far and the facts they imply."""

    def __init__(self, prefix=(), facts=None, subst=None, parent=None):
        self.prefix = list(prefix)
        self.trace = []               # (n, choice, key, site)
        self.facts = dict(facts or {})
        self.subst = dict(subst or {})
        self.bounds = dict(parent.bounds) if parent else {}
        self.ranks = parent.ranks if parent else {}
        self.maybe_equal = parent.maybe_equal if parent else set()

    def choose(self, key, n, site):
        if key in self.facts:
            return self.facts[key]
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((n, c, key, site))
        self.facts[key] = c
        return c


def next_prefix(trace):
    t = [(n, c) for n, c, _, _ in trace]
    while t:
        n, c = t.pop()
        if c + 1 < n:
            return [x[1] for x in t] + [c + 1]
    return None


class Frame:
    __slots__ = ('locals', 'parent', 'module', 'func', 'kind', 'globals_decl', 'nonlocal_decl', 'lineno', 'localnames', 'holder', 'excs')

    def __init__(self, kind, module, parent=None, func=None):
        self.kind = kind              # module | class | func | comp
        self.locals = {}
        self.parent = parent
        self.module = module
        self.func = func
        self.globals_decl = ()
        self.nonlocal_decl = ()
        self.localnames = None
        self.lineno = 0
        self.holder = None
        self.excs = None


_AST = {}
_FINFO = {}
_FREE = {}


def free_names(node):
    if node not in _FREE:
        _FREE[node] = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name)})
    return _FREE[node]


def parse_file(path):
    if path not in _AST:
        with open(path, 'rb') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _AST[path] = ast.parse(src, path)
    return _AST[path]


class _Scope(ast.NodeVisitor):
    def __init__(self):
        self.names = set()
        self.globals = set()
        self.nonlocals = set()
        self.isgen = False

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # walrus targets inside comprehensions bind in the function
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.names.add(x.target.id)
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                self.isgen = True
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_Yield(self, n):
        self.isgen = True
        self.generic_visit(n)
    visit_YieldFrom = visit_Yield

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_MatchAs(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.names.add(n.name)


def finfo(node):
    k = id(node)
    if k not in _FINFO:
        s = _Scope()
        body = node.body if isinstance(node.body, list) else [node.body]
        for st in body:
            s.visit(st)
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            s.names.add(x.arg)
        if a.vararg:
            s.names.add(a.vararg.arg)
        if a.kwarg:
            s.names.add(a.kwarg.arg)
        s.names -= s.globals | s.nonlocals
        _FINFO[k] = (node, s)
    return _FINFO[k][1]


class Args(list):
    """Positional arguments; `many` = an unknown number more like these."""
    many = False


MAXSTEPS = 6000000


class Poison:
    """A module-level name whose definition is outside the analysed subset:
    undecided when it is used, and only then."""

    def __init__(self, reason):
        self.reason = reason


def bound_names(st):
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return [st.name]
    if isinstance(st, (ast.Import, ast.ImportFrom)):
        return [(a.asname or a.name).split('.')[0] for a in st.names if a.name != '*']
    if isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) for t in st.targets):
        return [t.id for t in st.targets]
    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
        return [st.target.id]
    return []


class Interp:
    def __init__(self, root='/repo', ctx=None, package='sqlpuzzle'):
        V._serial = itertools.count(1)
        self.root = root
        self.package = package
        self.ctx = ctx or Ctx()
        self.modules = {}
        self.steps = 0
        self.stack = []
        self.writes = []
        self.reached = set()
        self.lines = set()
        self.branches = set()
        self.in_summary = 0
        self.nosum = False
        self.counter = itertools.count(1)
        from . import lib
        self.lib = lib
        self.builtins = lib.make_builtins(self)
        self.raise_sites = []
        self.import_mark = -1
        self.state = None

    # ------------------------------------------------------------ utilities

    def site(self):
        for fr in reversed(self.stack):
            if fr.module and fr.module.file:
                f = _RELPATH.get(fr.module.file)
                if f is None:
                    f = _RELPATH[fr.module.file] = os.path.relpath(fr.module.file, self.root)
                q = fr.func.qualname if fr.func else '<%s>' % fr.kind
                return '%s:%d (%s)' % (f, fr.lineno, q)
        return '<entry>'

    def log_write(self, obj, what):
        self.writes.append((obj, what, self.site()))
        if obj.serial <= self.import_mark:
            # global state changed: summaries made before do not apply
            v = None
            if isinstance(obj, PyObj):
                v = obj.attrs.get(what)
            elif isinstance(obj, (PyClass, Module)):
                v = obj.ns.get(what)
            elif not isinstance(obj, PyFunc):
                self.state = None
            if isinstance(v, V.Cell) and not isinstance(v, (PyClass, PyFunc)):
                self.state = None
            if self.state is not None:
                self.state = self.state + ((obj.serial, what, self.canon(v)),)

    def load(self):
        """Import the package under analysis (abstractly)."""
        m = self.import_module(self.package)
        self.import_mark = next(V._serial)
        self.state = ()
        self.nw_import = len(self.writes)
        return m

    def decide(self, key):
        """Partition on an undetermined condition; True is explored first."""
        return self.ctx.choose(key, 2, self.site()) == 0

    def exc(self, name, msg=''):
        """Build and raise a builtin exception of the analysed program."""
        cls = self.builtins[name]
        obj = PyObj(cls)
        obj.attrs['args'] = Seq('tuple', [msg])
        raise Raise(obj, self.site())

    def bounds(self, v):
        lo, hi = self.ctx.bounds.get(v.label, (None, None))
        if v.lo is not None and (lo is None or v.lo > lo):
            lo = v.lo
        return lo, hi

    def set_bounds(self, v, lo, hi):
        self.ctx.bounds[v.label] = (lo, hi)
        if lo is not None and lo == hi:
            self.ctx.subst[v] = lo

    def ctx_distinct(self, a, b):
        """Different inputs are different values unless the obligation says
        that they may coincide."""
        m = self.ctx.maybe_equal
        return a != b and isinstance(a, str) and isinstance(b, str) and not (a in m and b in m)

    def ctx_rank(self, seg):
        if isinstance(seg, (Atom, Sym)) and not getattr(seg, 'xf', ()):
            return self.ctx.ranks.get(seg.label)
        return None

    def charmap(self, v, fn):
        """Per-character mapping of an abstract string: analyse `fn` on a
        generic character, partitioned by the constants it is compared with."""
        out = []
        for s in segs(v):
            if isinstance(s, str):
                out.extend(fn(c) for c in s)
                continue
            char = Atom(('char', repr(s)), 'char')
            table = {}
            outer = self.ctx
            prefix = []
            seen_default = False
            while prefix is not None:
                sub = Ctx(prefix, outer.facts, outer.subst, outer)
                self.ctx = sub
                try:
                    r = fn(SStr((char,)))
                    r = self.resolve(r)
                finally:
                    self.ctx = outer
                if char in sub.subst:
                    if not isinstance(r, str):
                        raise Unsupported('character mapping')
                    table[sub.subst[char]] = r
                elif r == SStr((char,)) and not seen_default:
                    seen_default = True
                else:
                    raise Unsupported('character mapping')
                prefix = next_prefix(sub.trace)
            out.append(mk([V.add_xf(s, ('hom', tuple(sorted((k, x) for k, x in table.items() if k != x))))]))
        return out

    # ------------------------------------------------------------ modules

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name == self.package or name.startswith(self.package + '.'):
            if '.' in name:
                parent = self.import_module(name.rsplit('.', 1)[0])
                if name in self.modules:
                    return self.modules[name]
            base = os.path.join(self.root, *name.split('.'))
            if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
                file, ispkg = os.path.join(base, '__init__.py'), True
            elif os.path.exists(base + '.py'):
                file, ispkg = base + '.py', False
            else:
                self.exc('ModuleNotFoundError', "No module named '%s'" % name)
            m = Module(name, file, ispkg)
            self.modules[name] = m
            m.ns['__file__'] = file
            m.ns['__package__'] = name if ispkg else name.rpartition('.')[0]
            fr = Frame('module', m)
            fr.locals = m.ns
            self.stack.append(fr)
            try:
                tree = parse_file(file)
                m.ns['__doc__'] = ast.get_docstring(tree)
                for st in tree.body:
                    try:
                        self.run(self.exec_block([st], fr))
                    except Unsupported as e:
                        names = bound_names(st)
                        if not names:
                            raise
                        for n in names:
                            m.ns[n] = Poison(str(e))
            except Raise:
                self.modules.pop(name, None)
                raise
            finally:
                self.stack.pop()
            if '.' in name:
                parent.ns[name.rsplit('.', 1)[1]] = m
            return m
        m = self.lib.stub_module(self, name)
        if m is None:
            self.exc('ModuleNotFoundError', "No module named '%s'" % name)
        self.modules[name] = m
        return m

    def run(self, gen):
        try:
            next(gen)
        except StopIteration as e:
            return e.value
        raise Unsupported('yield outside generator')

    # ------------------------------------------------------------ statements

    def exec_block(self, stmts, fr):
        for st in stmts:
            sig = yield from self.exec_stmt(st, fr)
            if sig is not None:
                return sig
        return None

    def exec_stmt(self, st, fr):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Unsupported('no termination within the step budget')
        fr.lineno = st.lineno
        self.lines.add((fr.module.file, st.lineno))
        k = type(st).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            g = getattr(self, 'g_' + k, None)
            if g is None:
                raise Unsupported('statement %s at %s' % (k, self.site()))
            return (yield from g(st, fr))
        return m(st, fr)

    def g_Expr(self, st, fr):
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            yield from self.do_yield(st.value, fr)
            return None
        self.eval(st.value, fr)
        return None

    def do_yield(self, node, fr):
        if isinstance(node, ast.Yield):
            v = self.eval(node.value, fr) if node.value else None
            r = yield v
            return r
        v = self.eval(node.value, fr)
        if isinstance(v, Iter) and v.kind == 'generator' and inspect.isgenerator(v.it):
            self.log_write(v, 'next')
            return (yield from v.it)
        for x in self.iterate(v):
            yield x
        return None

    def s_Pass(self, st, fr):
        return None

    def g_Assign(self, st, fr):
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            v = yield from self.do_yield(st.value, fr)
        else:
            v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)
        return None

    def s_AnnAssign(self, st, fr):
        if fr.kind == 'class' and isinstance(st.target, ast.Name):
            if 'ClassVar' not in ast.dump(st.annotation):
                fr.locals.setdefault('__annotations_order__', []).append(st.target.id)
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)
        return None

    def s_AugAssign(self, st, fr):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr)
            self.store_name(t.id, self.augop(op, cur, self.eval(st.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(op, cur, self.eval(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.augop(op, cur, self.eval(st.value, fr)))
        else:
            raise Unsupported('augassign')
        return None

    def s_Delete(self, st, fr):
        for t in st.targets:
            self.delete(t, fr)
        return None

    def delete(self, t, fr):
        if isinstance(t, ast.Name):
            ns = fr.module.ns if (fr.kind == 'module' or t.id in fr.globals_decl) else fr.locals
            if t.id not in ns:
                self.exc('NameError', t.id)
            del ns[t.id]
        elif isinstance(t, ast.Attribute):
            self.delattr(self.eval(t.value, fr), t.attr)
        elif isinstance(t, ast.Subscript):
            self.delitem(self.eval(t.value, fr), self.eval_index(t.slice, fr))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.delete(e, fr)
        else:
            raise Unsupported('del')

    def g_Return(self, st, fr):
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            v = yield from self.do_yield(st.value, fr)
        else:
            v = self.eval(st.value, fr) if st.value is not None else None
        return ('return', v)

    def s_Break(self, st, fr):
        return ('break', None)

    def s_Continue(self, st, fr):
        return ('continue', None)

    def g_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            return (yield from self.exec_block(st.body, fr))
        return (yield from self.exec_block(st.orelse, fr))

    def g_While(self, st, fr):
        n = 0
        while self.truth(self.eval(st.test, fr)):
            n += 1
            if n > 5000:
                raise Unsupported('loop bound at ' + self.site())
            sig = yield from self.exec_block(st.body, fr)
            if sig is not None:
                if sig[0] == 'break':
                    return None
                if sig[0] == 'return':
                    return sig
            fr.lineno = st.lineno
        return (yield from self.exec_block(st.orelse, fr))

    def g_For(self, st, fr):
        it = self.eval(st.iter, fr)
        for x in self.iterate(it):
            fr.lineno = st.lineno
            self.assign(st.target, x, fr)
            sig = yield from self.exec_block(st.body, fr)
            if sig is not None:
                if sig[0] == 'break':
                    return None
                if sig[0] == 'return':
                    return sig
        return (yield from self.exec_block(st.orelse, fr))

    def g_With(self, st, fr):
        return (yield from self._with(st.items, st.body, fr))

    def _with(self, items, body, fr):
        if not items:
            return (yield from self.exec_block(body, fr))
        it = items[0]
        mgr = self.eval(it.context_expr, fr)
        v = self.call_method(mgr, '__enter__')
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            sig = yield from self._with(items[1:], body, fr)
        except Raise as e:
            if self.truth(self.call_method(mgr, '__exit__', e.obj.cls, e.obj, None)):
                return None
            raise
        self.call_method(mgr, '__exit__', None, None, None)
        return sig

    def s_Raise(self, st, fr):
        if st.exc is None:
            f = fr
            while f is not None:
                if f.excs:
                    raise f.excs[-1]
                f = f.parent
            for f in reversed(self.stack):
                if f.excs:
                    raise f.excs[-1]
            self.exc('RuntimeError', 'No active exception to reraise')
        v = self.eval(st.exc, fr)
        if isinstance(v, PyClass):
            v = self.call(v, [])
        if not isinstance(v, PyObj) or not self.issub(v.cls, self.builtins['BaseException']):
            self.exc('TypeError', 'exceptions must derive from BaseException')
        if st.cause is not None:
            c = self.eval(st.cause, fr)
            v.attrs['__cause__'] = self.call(c, []) if isinstance(c, PyClass) else c
        for f in reversed(self.stack):
            if f.excs:
                if f.excs[-1].obj is not v:
                    v.attrs.setdefault('__context__', f.excs[-1].obj)
                break
        s = self.site()
        self.raise_sites.append((v.cls, s))
        raise Raise(v, s)

    def g_Try(self, st, fr):
        try:
            try:
                sig = yield from self.exec_block(st.body, fr)
            except Raise as e:
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ok = self.exc_matches(e.obj, self.eval(h.type, fr))
                    if ok:
                        fr.lineno = h.lineno
                        if h.name:
                            self.store_name(h.name, e.obj, fr)
                        if fr.excs is None:
                            fr.excs = []
                        fr.excs.append(e)
                        try:
                            sig = yield from self.exec_block(h.body, fr)
                        finally:
                            fr.excs.pop()
                        if h.name:
                            (fr.module.ns if fr.kind == 'module' else fr.locals).pop(h.name, None)
                        break
                else:
                    raise
            else:
                if sig is None and st.orelse:
                    sig = yield from self.exec_block(st.orelse, fr)
        except (Raise,) as e:
            s2 = yield from self.exec_block(st.finalbody, fr)
            if s2 is not None:
                return s2
            raise e
        s2 = yield from self.exec_block(st.finalbody, fr)
        if s2 is not None:
            return s2
        return sig

    def exc_matches(self, obj, t):
        if isinstance(t, Seq):
            return any(self.exc_matches(obj, x) for x in t.items)
        return self.issub(obj.cls, t)

    def s_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            self.exc('AssertionError', self.eval(st.msg, fr) if st.msg else '')
        return None

    def s_Import(self, st, fr):
        for a in st.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m, fr)
            else:
                self.store_name(a.name.split('.')[0], self.import_module(a.name.split('.')[0]), fr)
        return None

    def s_ImportFrom(self, st, fr):
        if st.module == '__future__':
            return None
        name = st.module or ''
        if st.level:
            pkg = fr.module.ns['__package__']
            parts = pkg.split('.')
            if st.level > 1:
                parts = parts[:-(st.level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        m = self.import_module(name)
        for a in st.names:
            if a.name == '*':
                allv = m.ns.get('__all__')
                names = allv.items if allv is not None else [n for n in m.ns if not n.startswith('_')]
                for n in names:
                    self.store_name(n, m.ns[n], fr)
                continue
            if a.name in m.ns:
                v = m.ns[a.name]
            elif m.ispkg:
                try:
                    v = self.import_module(name + '.' + a.name)
                except Raise:
                    self.exc('ImportError', "cannot import name '%s'" % a.name)
            elif m.stub:
                # matters only if it is used
                v = Builtin(a.name, lambda i, b, k, n='%s.%s' % (name, a.name): _unsupported(n))
            else:
                self.exc('ImportError', "cannot import name '%s' from '%s'" % (a.name, name))
            self.store_name(a.asname or a.name, v, fr)
        return None

    def s_Global(self, st, fr):
        return None

    def s_Nonlocal(self, st, fr):
        return None

    def s_FunctionDef(self, st, fr):
        f = self.make_func(st, fr, st.name)
        v = f
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, fr), [v])
        self.store_name(st.name, v, fr)
        return None

    def make_func(self, node, fr, name):
        f = PyFunc()
        f.name = name
        q = name
        if fr.kind == 'class':
            q = fr.locals['__qualname__'] + '.' + name
        elif fr.kind in ('func', 'comp') and fr.func:
            q = fr.func.qualname + '.<locals>.' + name
        f.qualname = q
        f.node = node
        f.module = fr.module
        f.frame = fr
        f.defaults = [self.eval(d, fr) for d in node.args.defaults]
        f.kwdefaults = {a.arg: self.eval(d, fr) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        for d in f.defaults + list(f.kwdefaults.values()):
            if isinstance(d, V.Cell) and not isinstance(d, (PyClass, PyFunc)) and d.origin is None:
                d.origin = 'default:%s' % q
        f.info = finfo(node)
        f.isgen = f.info.isgen
        f.cls = fr.holder if fr.kind == 'class' else self._holder(fr)
        if isinstance(node, ast.FunctionDef):
            f.attrs['__doc__'] = ast.get_docstring(node)
        return f

    def _holder(self, fr):
        while fr is not None:
            if fr.kind == 'func' and fr.func is not None and fr.func.cls:
                return fr.func.cls
            fr = fr.parent
        return None

    def s_ClassDef(self, st, fr):
        bases = []
        for b in st.bases:
            v = self.eval(b, fr)
            if isinstance(v, Seq):
                bases.extend(v.items)
            else:
                bases.append(v)
        kw = {k.arg: self.eval(k.value, fr) for k in st.keywords}
        meta = kw.pop('metaclass', None)
        named = any(isinstance(b, Builtin) and b.name == 'NamedTuple' for b in bases)
        bases = [b for b in bases if not (isinstance(b, Builtin) and (b.name.startswith('typing.') or b.name == 'NamedTuple'))]
        if not bases:
            bases = [self.builtins['object']]
        cf = Frame('class', fr.module, parent=fr, func=fr.func)
        cf.holder = [None]
        q = st.name
        if fr.kind == 'class':
            q = fr.locals['__qualname__'] + '.' + st.name
        cf.locals['__qualname__'] = q
        cf.locals['__module__'] = fr.module.name
        cf.locals['__doc__'] = ast.get_docstring(st)
        self.stack.append(cf)
        cf.lineno = st.lineno
        try:
            self.run(self.exec_block(st.body, cf))
        finally:
            self.stack.pop()
        ns = cf.locals
        if named:
            from .stubs import make_namedtuple
            order = ns.pop('__annotations_order__', [])
            defaults = [ns.pop(x) for x in order if x in ns]
            c = make_namedtuple(self, st.name, order, defaults, ns)
            cf.holder[0] = c
            self.store_name(st.name, c, fr)
            return None
        if meta is None:
            meta = next((b.meta for c in bases for b in c.mro or () if b.meta is not None), None)
        if isinstance(meta, PyClass) and meta.real is None:
            c = self.meta_class(meta, st.name, bases, ns, fr.module, q, kw, cf)
        elif isinstance(meta, (PyClass, Builtin)) or meta is None:
            if isinstance(meta, Builtin) and meta.name == 'ABCMeta':
                ns['__isabc__'] = True
            c = self.new_class(st.name, bases, ns, fr.module, q, kw)
        else:
            raise Unsupported('metaclass')
        cf.holder[0] = c
        v = c
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, fr), [v])
        self.store_name(st.name, v, fr)
        return None

    def meta_class(self, meta, name, bases, ns, module, q, kw, cf):
        args = [name, Seq('tuple', list(bases)), PyDict(list(ns.items()))]
        new = self.type_lookup(meta, '__new__')
        nf = new.func if isinstance(new, StaticM) else new
        if isinstance(nf, PyFunc):
            c = self.call(nf, [meta] + args, kw)
        else:
            c = self.new_class(name, bases, ns, module, q, kw)
        if not isinstance(c, PyClass):
            return c
        c.meta = meta
        c.module = module
        c.qualname = q
        cf.holder[0] = c
        init = self.type_lookup(meta, '__init__')
        if isinstance(init, PyFunc):
            self.call(init, [c] + args, kw)
        return c

    def new_class(self, name, bases, ns, module, q, kw=None):
        if '__eq__' in ns and '__hash__' not in ns:
            ns['__hash__'] = None
        c = PyClass(name, bases, ns, module, None, q)
        for val in ns.values():
            if isinstance(val, V.Cell) and not isinstance(val, (PyClass, PyFunc, Module)):
                val.origin = val.origin or 'class:%s' % q
        c.mro = self.c3(c)
        for b in bases:
            if b.real is None:
                b.subs.append(c)
        for n, val in list(ns.items()):
            if isinstance(val, PyObj):
                sn = self.type_lookup(val.cls, '__set_name__')
                if sn is not None:
                    self.call(self.bind(sn, val, val.cls), [c, n])
            if isinstance(val, Prop) and val.cached and val.name is None:
                val.name = n
        for b in c.mro[1:]:
            if '__init_subclass__' in b.ns:
                f = b.ns['__init_subclass__']
                f = f.func if isinstance(f, ClassM) else f
                self.call(f, [c], dict(kw or {}))
                break
        return c

    def c3(self, c):
        seqs = [list(b.mro) for b in c.bases] + [list(c.bases)]
        res = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                self.exc('TypeError', 'MRO conflict')
            res.append(h)
            for s in seqs:
                if s[0] is h:
                    del s[0]

    # match statement (value, or, class, sequence, wildcard, capture)
    def g_Match(self, st, fr):
        v = self.eval(st.subject, fr)
        for case in st.cases:
            if self.match_pat(case.pattern, v, fr) and (case.guard is None or self.truth(self.eval(case.guard, fr))):
                return (yield from self.exec_block(case.body, fr))
        return None

    def match_pat(self, p, v, fr):
        k = type(p).__name__
        if k == 'MatchValue':
            return self.eq(v, self.eval(p.value, fr))
        if k == 'MatchSingleton':
            return v is p.value
        if k == 'MatchAs':
            if p.pattern is not None and not self.match_pat(p.pattern, v, fr):
                return False
            if p.name:
                self.store_name(p.name, v, fr)
            return True
        if k == 'MatchOr':
            return any(self.match_pat(x, v, fr) for x in p.patterns)
        if k == 'MatchClass':
            c = self.eval(p.cls, fr)
            if not self.isinstance(v, c):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and c.real in (str, int, float, bool, bytes, list, tuple, dict, set):
                    if not self.match_pat(p.patterns[0], v, fr):
                        return False
                else:
                    ma = self.getattr(c, '__match_args__')
                    for n, sp in zip(ma.items, p.patterns):
                        if not self.match_pat(sp, self.getattr(v, n), fr):
                            return False
            for n, sp in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.hasattr(v, n) or not self.match_pat(sp, self.getattr(v, n), fr):
                    return False
            return True
        if k == 'MatchSequence':
            if not isinstance(v, Seq):
                return False
            pats = p.patterns
            star = [i for i, x in enumerate(pats) if isinstance(x, ast.MatchStar)]
            items = v.items
            if not star:
                if len(items) != len(pats):
                    return False
                return all(self.match_pat(sp, x, fr) for sp, x in zip(pats, items))
            i = star[0]
            after = len(pats) - i - 1
            if len(items) < i + after:
                return False
            for sp, x in zip(pats[:i], items[:i]):
                if not self.match_pat(sp, x, fr):
                    return False
            if pats[i].name:
                self.store_name(pats[i].name, Seq('list', list(items[i:len(items) - after])), fr)
            for sp, x in zip(pats[i + 1:], items[len(items) - after:]):
                if not self.match_pat(sp, x, fr):
                    return False
            return True
        if k == 'MatchMapping':
            if not isinstance(v, PyDict):
                return False
            keys = [self.eval(x, fr) for x in p.keys]
            vals = []
            for x in keys:
                j = self.lib.dict_find(self, v, x)
                if j is None:
                    return False
                vals.append(v.vals[j])
            if not all(self.match_pat(sp, x, fr) for sp, x in zip(p.patterns, vals)):
                return False
            if p.rest:
                rest = PyDict([(a, b) for a, b in self.dict_pairs(v) if not any(self.lib.eq(self, a, x) for x in keys)])
                self.store_name(p.rest, rest, fr)
            return True
        raise Unsupported('match pattern ' + k)

    # ------------------------------------------------------------ names

    def load_name(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if f.kind == 'module':
                break
            if f.kind == 'class' and not first:
                f = f.parent
                continue
            if name in f.globals_decl:
                break
            if name in f.locals:
                return f.locals[name]
            if f.kind == 'func' and f.localnames and name in f.localnames:
                self.exc('UnboundLocalError', name)
            if f.kind != 'comp':
                first = False
            f = f.parent
        ns = fr.module.ns
        if name in ns:
            if isinstance(ns[name], Poison):
                raise Unsupported(ns[name].reason)
            return ns[name]
        if name in self.builtins:
            return self.builtins[name]
        self.exc('NameError', "name '%s' is not defined" % name)

    def store_name(self, name, v, fr):
        f = fr
        while f.kind == 'comp':
            f = f.parent
        if f.kind == 'module' or name in f.globals_decl:
            m = f.module
            if f.kind != 'module':
                self.log_write(m, name)
            elif isinstance(v, V.Cell) and not isinstance(v, (PyClass, PyFunc, Module)) and v.origin is None:
                v.origin = 'module:%s.%s' % (m.name, name)
            m.ns[name] = v
            return
        if name in f.nonlocal_decl:
            g = f.parent
            while g is not None:
                if g.kind == 'func' and name in g.locals:
                    g.locals[name] = v
                    return
                g = g.parent
            raise Unsupported('nonlocal ' + name)
        f.locals[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if fr.kind == 'comp':
                fr.locals[t.id] = v
            else:
                self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < i + after:
                    self.exc('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, Seq('list', items[i:len(items) - after], many=self.is_many(v)), fr)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
            else:
                if len(items) != len(t.elts):
                    self.exc('ValueError', 'unpack: expected %d values, got %d' % (len(t.elts), len(items)))
                for e, x in zip(t.elts, items):
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported('assign target')

    # ------------------------------------------------------------ expressions

    def eval(self, n, fr):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Unsupported('no termination within the step budget')
        return getattr(self, 'e_' + type(n).__name__)(n, fr)

    def __getattr__(self, name):
        if name.startswith('e_'):
            raise Unsupported('expression %s' % name[2:])
        raise AttributeError(name)

    def e_Constant(self, n, fr):
        return ELLIPSIS if n.value is ... else n.value

    def e_Name(self, n, fr):
        return self.load_name(n.id, fr)

    def e_Attribute(self, n, fr):
        return self.getattr(self.eval(n.value, fr), n.attr)

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.store_name(n.target.id, v, fr)
        return v

    def e_BoolOp(self, n, fr):
        v = None
        isand = isinstance(n.op, ast.And)
        for i, x in enumerate(n.values):
            v = self.eval(x, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand != t:
                return v
        return v

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        return self.unop(type(n.op).__name__, v)

    def e_BinOp(self, n, fr):
        a = self.eval(n.left, fr)
        b = self.eval(n.right, fr)
        return self.binop(type(n.op).__name__, a, b)

    def e_Compare(self, n, fr):
        a = self.eval(n.left, fr)
        r = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            b = self.eval(c, fr)
            r = self.compare(type(op).__name__, a, b)
            if i < len(n.ops) - 1:
                if not self.truth(r):
                    return r
            a = b
        return r

    def e_IfExp(self, n, fr):
        return self.eval(n.body if self.truth(self.eval(n.test, fr)) else n.orelse, fr)

    def e_Lambda(self, n, fr):
        return self.make_func(n, fr, '<lambda>')

    def e_List(self, n, fr):
        items, many = self.elts(n.elts, fr)
        return Seq('list', items, many)

    def e_Tuple(self, n, fr):
        items, many = self.elts(n.elts, fr)
        return Seq('tuple', items, many)

    def e_Set(self, n, fr):
        items, many = self.elts(n.elts, fr)
        s = PySet('set', [], many=many)
        for x in items:
            self.set_add(s, x)
        return s

    def elts(self, elts, fr):
        out = []
        many = False
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, fr)
                many |= self.is_many(v)
                out.extend(self.iterate(v))
            else:
                out.append(self.eval(e, fr))
        return out, many

    def e_Dict(self, n, fr):
        d = PyDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v, fr)
                self.dict_update(d, src)
            else:
                kk = self.eval(k, fr)
                self.dict_set(d, kk, self.eval(v, fr))
        return d

    def comp_iter(self, gens, fr, body, top=True, manyflag=None):
        """Host generator over a comprehension."""
        g = gens[0]
        it = self.eval(g.iter, fr.parent if top else fr)
        if manyflag is not None and self.is_many(it):
            manyflag[0] = True
        for x in self.iterate(it):
            self.assign(g.target, x, fr)
            if all(self.truth(self.eval(c, fr)) for c in g.ifs):
                if len(gens) > 1:
                    yield from self.comp_iter(gens[1:], fr, body, False, manyflag)
                else:
                    yield body(fr)

    def comp_chars(self, n, cf, fr, v=None):
        """Comprehension over the characters of an abstract string."""
        g = n.generators[0]
        if v is None:
            if not isinstance(g.iter, (ast.Name, ast.Attribute)):
                return None
            v = self.resolve(self.eval(g.iter, fr))
            if not isinstance(v, SStr) and not (isinstance(v, Sym) and v.kind == 'bytes'):
                return None
        if len(n.generators) > 1 or g.ifs:
            raise Unsupported('filtering the characters of an abstract string')

        def fn(c):
            self.assign(g.target, c, cf)
            return self.eval(n.elt, cf)
        if isinstance(v, Sym):
            return self.bytemap(v, fn)
        return self.charmap(v, fn)

    def bytemap(self, v, fn):
        """Per-byte mapping of abstract bytes: the function is analysed on
        each of the 256 bytes; the two-digit hexadecimal maps are known."""
        table = [self.resolve(fn(b)) for b in range(256)]
        for spec, xf in (('%02x', None), ('%02X', ('upper',))):
            if table == [spec % b for b in range(256)]:
                h = Atom(v.label, 'hex')
                return [mk([V.add_xf(h, xf) if xf else h])]
        raise Unsupported('iteration over abstract bytes')

    def comp_frame(self, fr):
        f = Frame('comp', fr.module, parent=fr, func=fr.func)
        return f

    def e_ListComp(self, n, fr):
        cf = self.comp_frame(fr)
        mf = [False]
        cm = self.comp_chars(n, cf, fr)
        if cm is not None:
            return Seq('list', cm)
        items = list(self.comp_iter(n.generators, cf, lambda f: self.eval(n.elt, f), manyflag=mf))
        return Seq('list', items, mf[0])

    def e_SetComp(self, n, fr):
        cf = self.comp_frame(fr)
        mf = [False]
        s = PySet('set', [])
        for x in self.comp_iter(n.generators, cf, lambda f: self.eval(n.elt, f), manyflag=mf):
            self.set_add(s, x)
        s.many = mf[0]
        return s

    def e_DictComp(self, n, fr):
        cf = self.comp_frame(fr)
        mf = [False]
        d = PyDict()
        for k, v in self.comp_iter(n.generators, cf, lambda f: (self.eval(n.key, f), self.eval(n.value, f)), manyflag=mf):
            self.dict_set(d, k, v)
        d.many = mf[0]
        return d

    def e_GeneratorExp(self, n, fr):
        cf = self.comp_frame(fr)
        # the first iterable is evaluated eagerly, as in Python
        first = self.eval(n.generators[0].iter, fr)
        rf = self.resolve(first)
        if isinstance(rf, SStr) or isinstance(rf, Sym) and rf.kind == 'bytes':
            return Iter(iter(self.comp_chars(n, cf, fr, rf)), 'generator')
        mf = [self.is_many(first)]
        src = self.iterate(first)

        def gen():
            g = n.generators[0]
            for x in src:
                self.assign(g.target, x, cf)
                if all(self.truth(self.eval(c, cf)) for c in g.ifs):
                    if len(n.generators) > 1:
                        yield from self.comp_iter(n.generators[1:], cf, lambda f: self.eval(n.elt, f), False, mf)
                    else:
                        yield self.eval(n.elt, cf)
        it = Iter(gen(), 'generator')
        it.label = mf
        return it

    def e_JoinedStr(self, n, fr):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                out.append(self.e_FormattedValue(v, fr))
        return mk(out)

    def e_FormattedValue(self, v, fr):
        x = self.eval(v.value, fr)
        spec = ''
        if v.format_spec is not None:
            spec = self.eval(v.format_spec, fr)
        conv = {-1: None, 115: 's', 114: 'r', 97: 'a'}[v.conversion]
        return self.lib.format_value(self, x, spec, conv)

    def e_Starred(self, n, fr):
        raise Unsupported('starred expression')

    def eval_index(self, n, fr):
        return self.eval(n, fr)

    def e_Slice(self, n, fr):
        return slice(self.eval(n.lower, fr) if n.lower else None,
                     self.eval(n.upper, fr) if n.upper else None,
                     self.eval(n.step, fr) if n.step else None)

    def e_Subscript(self, n, fr):
        return self.getitem(self.eval(n.value, fr), self.eval_index(n.slice, fr))

    def e_Call(self, n, fr):
        f = self.eval(n.func, fr)
        if f is self.builtins.get('super') and not n.args:
            return self.make_super(fr)
        if isinstance(f, Builtin) and f.name in ('locals', 'globals', 'vars') and not n.args:
            ns = fr.locals if f.name != 'globals' else fr.module.ns
            return PyDict([(k, v) for k, v in ns.items()])
        args = Args()
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                if self.is_many(v):
                    args.many = True
                args.extend(self.iterate(v))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                for kk, vv in self.dict_pairs(d):
                    if not is_strlike(kk):
                        self.exc('TypeError', 'keywords must be strings')
                    if kk in kw:
                        self.exc('TypeError', 'multiple values for keyword')
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    self.exc('TypeError', 'multiple values for keyword argument')
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw)

    def make_super(self, fr):
        f = fr
        while f is not None and not (f.kind == 'func' and f.func.cls):
            f = f.parent
        if f is None:
            self.exc('RuntimeError', 'super(): no arguments')
        start = f.func.cls[0]
        node = f.func.node
        a = node.args.posonlyargs + node.args.args
        if a:
            self_ = f.locals[a[0].arg]
        else:
            self_ = f.locals[node.args.vararg.arg].items[0]
        return Super(self_ if isinstance(self_, PyClass) else self_.cls, self_, start)

    def e_Yield(self, n, fr):
        raise Unsupported('yield in expression position')
    e_YieldFrom = e_Yield

    def e_Await(self, n, fr):
        raise Unsupported('await')

    # ------------------------------------------------------------ calls

    def call_method(self, obj, name, *args, **kw):
        return self.call(self.getattr(obj, name), list(args), kw)

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, PyFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            a = Args([f.self])
            a.extend(args)
            a.many = getattr(args, 'many', False)
            return self.call(f.func, a, kw)
        if isinstance(f, Builtin):
            try:
                return f.fn(self, args, kw)
            except (ArithmeticError, UnicodeError) as e:
                # an operation on constants of the analysed program
                obj = PyObj(self.lib.bclass(type(e)))
                obj.attrs['args'] = Seq('tuple', [str(e)])
                raise Raise(obj, self.site()) from None
        if isinstance(f, PyClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, PyObj):
            c = self.type_lookup(f.cls, '__call__')
            if c is not None:
                return self.call(self.bind(c, f, f.cls), args, kw)
        if isinstance(f, (ClassM, StaticM)):
            return self.call(f.func, args, kw)
        self.exc('TypeError', "object is not callable: %r" % (f,))

    def bind_args(self, f, args, kw):
        node = f.node
        a = node.args
        loc = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        npos = len(pos)
        if len(args) > npos and not a.vararg:
            if getattr(args, 'many', False):
                args = args[:npos]
            else:
                self.exc('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, npos, len(args)))
        for n, v in zip(pos, args):
            loc[n] = v
        if a.vararg:
            rest = list(args[npos:])
            loc[a.vararg.arg] = Seq('tuple', rest, many=getattr(args, 'many', False) and len(rest) > 0)
        posonly = {x.arg for x in a.posonlyargs}
        kwonly = {x.arg for x in a.kwonlyargs}
        extra = PyDict()
        extra.many = isinstance(kw, ManyKw)
        for k, v in kw.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in loc:
                    self.exc('TypeError', "%s() got multiple values for argument '%s'" % (f.name, k))
                loc[k] = v
            elif a.kwarg:
                extra.keys.append(k)
                extra.vals.append(v)
            else:
                self.exc('TypeError', "%s() got an unexpected keyword argument %r" % (f.name, k))
        if a.kwarg:
            loc[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in loc:
                j = i - (npos - nd)
                if j >= 0:
                    loc[n] = f.defaults[j]
                else:
                    self.exc('TypeError', "%s() missing required argument '%s'" % (f.name, n))
        for n in kwonly:
            if n not in loc:
                if n in f.kwdefaults:
                    loc[n] = f.kwdefaults[n]
                else:
                    self.exc('TypeError', "%s() missing keyword argument '%s'" % (f.name, n))
        return loc

    def call_func(self, f, args, kw):
        loc = self.bind_args(f, args, kw)
        if f.isgen:
            fr = self.func_frame(f, loc)
            return Iter(self.gen_body(f, fr), 'generator')
        if self.summarisable(f, loc):
            return self.summarise(f, loc)
        return self.run_body(f, loc)

    def func_frame(self, f, loc):
        fr = Frame('func', f.module, parent=f.frame, func=f)
        fr.locals = loc
        fr.globals_decl = f.info.globals
        fr.nonlocal_decl = f.info.nonlocals
        fr.localnames = f.info.names
        fr.lineno = f.node.lineno
        return fr

    def gen_body(self, f, fr):
        self.reached.add((f.module.name, f.qualname))
        self.stack.append(fr)
        g = self.exec_block(f.node.body, fr)
        step = None
        while True:
            try:
                v = next(g) if step is None else step()
            except StopIteration as e:
                self.stack.pop() if self.stack and self.stack[-1] is fr else None
                return e.value[1] if e.value is not None else None
            except BaseException:
                if self.stack and self.stack[-1] is fr:
                    self.stack.pop()
                raise
            if self.stack and self.stack[-1] is fr:
                self.stack.pop()
            step = None
            try:
                sent = yield v
                if sent is not None:
                    step = lambda sent=sent: g.send(sent)
            except Raise as e:
                step = lambda e=e: g.throw(e)
            self.stack.append(fr)

    def run_body(self, f, loc):
        fr = self.func_frame(f, loc)
        self.reached.add((f.module.name, f.qualname))
        if len(self.stack) > 400:
            self.exc('RecursionError', 'maximum recursion depth exceeded')
        self.stack.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            sig = self.run(self.exec_block(f.node.body, fr))
            if sig is None:
                return None
            return sig[1]
        finally:
            self.stack.pop()

    def summarisable(self, f, loc):
        if self.nosum:
            return False
        if (f.module.name, f.qualname) in INLINE:
            return False
        abstract = False
        for v in loc.values():
            if isinstance(v, (SStr, Sym)):
                abstract = True
            elif v is None or isinstance(v, (str, int, float, bytes, PyClass)):
                pass
            else:
                return False
        return abstract and self.closure_key(f) is not None

    def closure_key(self, f, active=()):
        """What the result of `f` may depend on beyond its arguments: its
        definition site and the values of the variables it captures.  None
        when a captured value has no canonical form."""
        frames = []
        fr = f.frame
        while fr is not None and fr.kind != 'module':
            if fr.kind != 'class':
                frames.append(fr)
            fr = fr.parent
        if not frames:
            return () if not isinstance(f.node, ast.Lambda) else (f.node.lineno, f.node.col_offset)
        out = [f.node.lineno, f.node.col_offset]
        for name in free_names(f.node):
            for fr in frames:
                if name in fr.locals:
                    k = self.closure_canon(fr.locals[name], active + (f,))
                    if k is None:
                        return None
                    out.append((name, k))
                    break
        return tuple(out)

    def closure_canon(self, v, active):
        if isinstance(v, PyFunc):
            if v in active:
                return ('rec', v.qualname)
            if len(active) > 4:
                return None
            k = self.closure_key(v, active)
            return None if k is None else ('func', v.module.name, v.qualname, k)
        if isinstance(v, V.Builtin):
            return ('builtin', v.name)
        if v is None or isinstance(v, (SStr, Sym, str, bytes, bool, int, float, PyClass)):
            return self.canon(v)
        if isinstance(v, Seq):
            items = [self.closure_canon(x, active) for x in v.items]
            return None if None in items else ('seq', v.kind, tuple(items), v.many)
        if isinstance(v, PyDict):
            items = [(self.closure_canon(a, active), self.closure_canon(b, active))
                     for a, b in zip(v.keys, v.vals)]
            return None if any(None in x for x in items) else ('dict', tuple(items))
        if isinstance(v, Module):
            return ('module', v.name)
        return None

    def summarise(self, f, loc):
        """Interprocedural summary of a call on scalars: analyse the callee in
        isolation on every partition, then merge the outcomes."""
        outer = self.ctx
        if outer.subst:
            loc = {k: self.resolve(v) if isinstance(v, (SStr, Sym)) else v for k, v in loc.items()}
        args_key = tuple((k, self.canon(v)) for k, v in sorted(loc.items()))
        ck = self.closure_key(f)
        if ck:
            args_key += (('<closure>', ck),)
        memo = None
        if self.state is not None:
            labels = labels_of(args_key)
            memo = (f.module.name, f.qualname, args_key, self.state,
                    frozenset((k, c) for k, c in outer.facts.items() if not labels.isdisjoint(labels_of(k))),
                    frozenset((k, v) for k, v in outer.subst.items() if k.label in labels),
                    frozenset((k, v) for k, v in outer.bounds.items() if k in labels),
                    tuple(sorted(outer.ranks.items())), tuple(sorted(outer.maybe_equal)))
            if memo in SUMMARIES:
                return self.merge(f, loc, args_key, SUMMARIES[memo])
        outcomes = []
        prefix = []
        first = True
        clean = True
        while True:
            sub = Ctx(prefix, outer.facts, outer.subst, outer)
            self.ctx = sub
            mark = next(V._serial)
            nw = len(self.writes)
            state = self.state
            try:
                r = ('ret', self.run_body(f, dict(loc)))
            except Raise as e:
                r = ('exc', e)
                clean = False
            finally:
                self.ctx = outer
            if any(o.serial <= mark for o, _, _ in self.writes[nw:]) or self.state != state:
                if first and not sub.trace:
                    outer.facts.update(sub.facts)
                    outer.subst.update(sub.subst)
                    outer.bounds.update(sub.bounds)
                    if r[0] == 'exc':
                        raise r[1]
                    return r[1]
                INLINE.add((f.module.name, f.qualname))
                raise Restart()
            if isinstance(r[1], (V.Cell, Bound)):
                if sub.trace:
                    INLINE.add((f.module.name, f.qualname))
                    return self.run_body(f, loc)
                return r[1]
            if first and not sub.trace and r[0] == 'exc':
                outer.facts.update(sub.facts)
                outer.subst.update(sub.subst)
                outer.bounds.update(sub.bounds)
                raise r[1]
            first = False
            delta = frozenset((k, c) for _, c, k, _ in sub.trace)
            d = lambda x, y: {k: v for k, v in x.items() if k not in y or y[k] != v}
            outcomes.append((r, delta, (d(sub.facts, outer.facts), d(sub.subst, outer.subst), d(sub.bounds, outer.bounds))))
            prefix = next_prefix(sub.trace)
            if prefix is None:
                break
            if len(outcomes) > 3000:
                raise Unsupported('too many partitions in %s' % f.qualname)
        rets = [o for o in outcomes if o[0][0] == 'ret']
        if len(rets) == len(outcomes) and all(is_strlike(o[0][1]) for o in outcomes):
            if len({o[0][1] for o in outcomes}) == 1:
                merged = ('one', outcomes[0][0][1], outcomes[0][2] if len(outcomes) == 1 else ({}, {}, {}))
            else:
                alts = frozenset((o[1], self.resolve_with(o[0][1], o[2][1])) for o in outcomes)
                arg = tuple(v for _, v in sorted(loc.items()) if isinstance(v, (SStr, Sym)))
                merged = ('one', SStr((Choice(f.name, arg, alts),)), ({}, {}, {}))
        else:
            groups = {}
            for r, delta, d in outcomes:
                if r[0] == 'exc':
                    k = ('exc', r[1].obj.cls.qualname)
                else:
                    k = ('ret', self.canon(r[1]))
                groups.setdefault(k, []).append((r, d))
            keys = sorted(groups, key=repr)
            merged = ('split', [(groups[k][0][0], groups[k][0][1] if len(groups[k]) == 1 else ({}, {}, {})) for k in keys])
        if memo is not None and clean:
            SUMMARIES[memo] = merged
        return self.merge(f, loc, args_key, merged)

    def merge(self, f, loc, args_key, merged):
        outer = self.ctx
        if merged[0] == 'one':
            r, d = ('ret', merged[1]), merged[2]
        else:
            alts = merged[1]
            i = 0
            if len(alts) > 1:
                # one disjunct per distinct result
                i = outer.choose(('call', f.qualname, args_key), len(alts), self.site())
            r, d = alts[i]
        outer.facts.update(d[0])
        outer.subst.update(d[1])
        outer.bounds.update(d[2])
        if r[0] == 'exc':
            raise r[1]
        return r[1]

    def resolve_with(self, v, delta):
        if not delta:
            return v
        sub = Ctx()
        sub.subst = dict(self.ctx.subst)
        sub.subst.update(delta)
        return self.resolve(v, sub)

    # ------------------------------------------------------------ classes

    def refuse_abstract(self, cls):
        """TypeError for a class of ABCMeta with an abstract method left."""
        if not any('__isabc__' in c.ns for c in cls.mro):
            return
        seen = set()
        for c in cls.mro:
            for n, v in c.ns.items():
                if n not in seen:
                    seen.add(n)
                    f = v.fget if isinstance(v, Prop) else v.func if isinstance(v, (ClassM, StaticM)) else v
                    if isinstance(f, PyFunc) and f.abstract:
                        self.exc('TypeError', "Can't instantiate abstract class %s" % cls.name)

    def instantiate(self, cls, args, kw, bare=False):
        if cls.real is not None:
            return self.lib.construct(self, cls, args, kw)
        if not bare:
            meta = next((b.meta for b in cls.mro if b.meta is not None), None)
            mc = self.type_lookup(meta, '__call__') if meta is not None else None
            if isinstance(mc, PyFunc):
                return self.call(mc, Args([cls] + list(args)), kw)
        self.refuse_abstract(cls)
        new = self.type_lookup(cls, '__new__')
        if isinstance(new, (PyFunc, StaticM)):
            nf = new.func if isinstance(new, StaticM) else new
            o = self.call(nf, Args([cls] + list(args)), kw)
            if not (isinstance(o, PyObj) and self.issub(o.cls, cls)):
                return o
        else:
            o = self.raw_new(cls, args, kw)
        init = self.type_lookup(cls, '__init__')
        a = Args([o])
        a.extend(args)
        a.many = getattr(args, 'many', False)
        if isinstance(init, Builtin):
            init.fn(self, a, kw)
        elif init is not None:
            self.call(init, a, kw)
        return o

    def raw_new(self, cls, args, kw):
        o = PyObj(cls)
        for c in cls.mro:
            if c.real in (list, tuple, dict, set, frozenset, str, int, float, bytes, self.lib.decimal.Decimal):
                if c.real is list:
                    o.payload = Seq('list', [])
                elif c.real is dict or c.name in ('OrderedDict', 'defaultdict'):
                    o.payload = PyDict(kind=c.name if c.name != 'dict' else 'dict')
                elif c.real is set:
                    o.payload = PySet('set', [])
                else:
                    o.payload = self.lib.construct(self, c, args, kw)
                break
            if c.real is not None and issubclass(c.real, BaseException):
                o.attrs['args'] = Seq('tuple', list(args))
                break
        return o

    def type_lookup(self, cls, name):
        for c in cls.mro:
            if name in c.ns:
                return c.ns[name]
            if c.real is not None:
                b = self.lib.builtin_slot(self, c.real, name)
                if b is not None:
                    return b
        return None

    def bind(self, v, obj, cls):
        if isinstance(v, (PyFunc, Builtin)):
            return Bound(v, obj)
        if isinstance(v, ClassM):
            return Bound(v.func, cls)
        if isinstance(v, StaticM):
            return v.func
        if isinstance(v, Prop):
            return self.call(v.fget, [obj])
        if isinstance(v, PyObj):
            g = self.type_lookup(v.cls, '__get__')
            if g is not None:
                return self.call(self.bind(g, v, v.cls), [obj, cls])
        return v

    _MISSING = object()

    def getattr(self, o, name, default=_MISSING):
        v = self._getattr(o, name)
        if v is self._MISSING:
            if default is not self._MISSING:
                return default
            self.exc('AttributeError', "%s has no attribute '%s'" % (self.type_of(o).name, name))
        return v

    def hasattr(self, o, name):
        try:
            return self._getattr(o, name) is not self._MISSING
        except Raise as e:
            if self.issub(e.obj.cls, self.builtins['AttributeError']):
                return False
            raise

    def _getattr(self, o, name):
        M = self._MISSING
        if isinstance(o, PyObj):
            cv = self.type_lookup(o.cls, name)
            if isinstance(cv, Prop):
                if cv.cached:
                    if name in o.attrs:
                        return o.attrs[name]
                    v = self.call(cv.fget, [o])
                    o.attrs[name] = v
                    self.log_write(o, name)
                    return v
                if cv.fget is None:
                    self.exc('AttributeError', 'unreadable attribute')
                return self.call(cv.fget, [o])
            if isinstance(cv, PyObj) and self.type_lookup(cv.cls, '__set__') is not None:
                return self.bind(cv, o, o.cls)
            if name in o.attrs:
                return o.attrs[name]
            if cv is not None or self._in_ns(o.cls, name):
                return self.bind(cv, o, o.cls) if cv is not None else None
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return V.LiveDict(o)
            if name in ('__cause__', '__context__', '__traceback__') and self.issub(o.cls, self.builtins['BaseException']):
                return None
            ga = self.type_lookup(o.cls, '__getattr__')
            if ga is not None:
                try:
                    return self.call(self.bind(ga, o, o.cls), [name])
                except Raise as e:
                    if self.issub(e.obj.cls, self.builtins['AttributeError']):
                        return M
                    raise
            if o.payload is not None:
                return self.lib.builtin_getattr(self, o.payload, name)
            return M
        if isinstance(o, Super):
            mro = o.cls.mro
            i = mro.index(o.start)
            for c in mro[i + 1:]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(o.self, PyClass):
                        if isinstance(v, ClassM):
                            return Bound(v.func, o.self)
                        if isinstance(v, StaticM):
                            return v.func
                        return v
                    return self.bind(v, o.self, o.cls)
                if c.real is not None:
                    b = self.lib.builtin_slot(self, c.real, name)
                    if b is not None:
                        if name == '__new__':
                            return b
                        return Bound(b, o.self)
            return M
        if isinstance(o, PyClass):
            if name in ('__name__', '__qualname__', '__module__') and name not in o.ns and o.real is None:
                return o.name if name == '__name__' else o.qualname if name == '__qualname__' else o.module.name if o.module else None
            for c in o.mro:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, ClassM):
                        return Bound(v.func, o)
                    if isinstance(v, StaticM):
                        return v.func
                    if isinstance(v, PyObj):
                        g = self.type_lookup(v.cls, '__get__')
                        if g is not None:
                            return self.call(self.bind(g, v, v.cls), [None, o])
                    return v
                if c.real is not None:
                    v = self.lib.class_attr(self, c, name)
                    if v is not None:
                        return v
            if name == '__name__':
                return o.name
            if name == '__qualname__':
                return o.qualname
            if name == '__mro__':
                return Seq('tuple', list(o.mro))
            if name == '__bases__':
                return Seq('tuple', list(o.bases))
            if name == '__dict__':
                return PyDict([(k, v) for k, v in o.ns.items()])
            if name == '__class__':
                return self.builtins['type']
            if name == '__subclasses__':
                return Builtin('__subclasses__', lambda i, a, k: Seq('list', list(o.subs)))
            if name == 'mro':
                return Builtin('mro', lambda i, a, k: Seq('list', list(o.mro)))
            if name in ('__module__', '__doc__'):
                return o.module.name if (name == '__module__' and o.module) else None
            return M
        if isinstance(o, Module):
            if name in o.ns:
                if isinstance(o.ns[name], Poison):
                    raise Unsupported(o.ns[name].reason)
                return o.ns[name]
            if o.stub:
                raise Unsupported('%s.%s' % (o.name, name))
            if '__getattr__' in o.ns:
                return self.call(o.ns['__getattr__'], [name])
            return M
        if isinstance(o, PyFunc):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__class__':
                return self.type_of(o)
            if name == '__name__':
                return o.name
            if name == '__qualname__':
                return o.qualname
            if name == '__module__':
                return o.module.name
            if name == '__dict__':
                return PyDict([(k, v) for k, v in o.attrs.items()])
            if name == '__get__':
                return Builtin('__get__', lambda i, a, k: o if a[0] is None else Bound(o, a[0]))
            if name == '__defaults__':
                return Seq('tuple', list(o.defaults))
            return M
        if isinstance(o, Builtin):
            if name in o.attrs:
                return o.attrs[name]
            if name in ('__name__', '__qualname__'):
                return o.name
            if name in ('__doc__', '__module__'):
                return None
            return M
        if isinstance(o, Bound):
            if name == '__func__':
                return o.func
            if name == '__self__':
                return o.self
            return self._getattr(o.func, name)
        if isinstance(o, Prop):
            if name in ('setter', 'getter', 'deleter'):
                i = ('getter', 'setter', 'deleter').index(name)

                def mkp(interp, a, k):
                    f = [o.fget, o.fset, o.fdel]
                    f[i] = a[0]
                    return Prop(*f)
                return Builtin('property.' + name, mkp)
            if name in ('fget', 'fset', 'fdel'):
                return getattr(o, name)
            return M
        if isinstance(o, (ClassM, StaticM)):
            if name in ('__func__', '__wrapped__'):
                return o.func
            return self._getattr(o.func, name)
        return self.lib.builtin_getattr(self, o, name)

    def _in_ns(self, cls, name):
        return any(name in c.ns for c in cls.mro)

    def setattr(self, o, name, v):
        if isinstance(o, PyObj):
            if name == '__class__':
                o.cls = v
                self.log_write(o, name)
                return
            if name == '__dict__':
                self.log_write(o, name)
                o.attrs = dict(zip(v.keys, v.vals))
                return
            cv = self.type_lookup(o.cls, name)
            if isinstance(cv, Prop) and not cv.cached:
                if cv.fset is None:
                    self.exc('AttributeError', "can't set attribute '%s'" % name)
                self.call(cv.fset, [o, v])
                return
            if isinstance(cv, PyObj):
                s = self.type_lookup(cv.cls, '__set__')
                if s is not None:
                    self.call(self.bind(s, cv, cv.cls), [o, v])
                    return
            sa = self.type_lookup(o.cls, '__setattr__')
            if isinstance(sa, PyFunc) or isinstance(sa, Builtin) and sa.name == '__setattr__':
                self.call(sa, [o, name, v])
                return
            self.raw_setattr(o, name, v)
            return
        if isinstance(o, PyClass):
            if o.real is not None:
                self.exc('TypeError', 'cannot set attribute of builtin type')
            o.ns[name] = v
            self.log_write(o, name)
            return
        if isinstance(o, Module):
            o.ns[name] = v
            self.log_write(o, name)
            return
        if isinstance(o, (PyFunc, Builtin)):
            o.attrs[name] = v
            if isinstance(o, PyFunc):
                self.log_write(o, name)
            return
        self.exc('AttributeError', "cannot set attribute '%s'" % name)

    def raw_setattr(self, o, name, v):
        o.attrs[name] = v
        self.log_write(o, name)

    def delattr(self, o, name):
        if isinstance(o, PyObj):
            if name in o.attrs:
                del o.attrs[name]
                self.log_write(o, name)
                return
            self.exc('AttributeError', name)
        if isinstance(o, PyClass) and name in o.ns:
            del o.ns[name]
            self.log_write(o, name)
            return
        raise Unsupported('delattr')

    # ------------------------------------------------------------ types

    def type_of(self, v):
        if isinstance(v, PyObj):
            return v.cls
        return self.lib.bclass(self.lib.real_type(v))

    def issub(self, c, d):
        if d in c.mro:
            return True
        if c.real is not None and d.real is not None:
            try:
                return issubclass(c.real, d.real)
            except TypeError:
                return False
        if d.real is not None:
            import collections.abc as cabc
            if getattr(d.real, '__module__', '') in ('collections.abc', 'numbers', '_collections_abc'):
                for m in c.mro:
                    if m.real is not None and m.real is not object and issubclass(m.real, d.real):
                        return True
                need = {cabc.Iterable: '__iter__', cabc.Sized: '__len__', cabc.Callable: '__call__',
                        cabc.Hashable: '__hash__', cabc.Container: '__contains__'}.get(d.real)
                if need:
                    return self.type_lookup(c, need) is not None
        return False

    def isinstance(self, v, c):
        if isinstance(c, Seq):
            return any(self.isinstance(v, x) for x in c.items)
        if isinstance(c, Builtin) and c.name.startswith('union:'):
            return any(self.isinstance(v, x) for x in c.attrs['members'])
        if c is None:
            return v is None
        if not isinstance(c, PyClass):
            self.exc('TypeError', 'isinstance() arg 2 must be a type')
        return self.issub(self.type_of(v), c)

    # ------------------------------------------------------------ facts

    def resolve(self, v, ctx=None):
        """Replace atoms known to equal a constant on this path."""
        sub = (ctx or self.ctx).subst
        if not sub:
            return v
        if isinstance(v, Sym):
            return sub.get(v, v)
        if isinstance(v, SStr):
            out = []
            for s in v.segs:
                if isinstance(s, Atom):
                    if s in sub:
                        s = sub[s]
                    else:
                        # longest known prefix of transformations
                        for n in range(len(s.xf) - 1, -1, -1):
                            b = Atom(s.label, s.kind, s.xf[:n]) if s.kind == 'str' or n else None
                            if b is not None and b in sub:
                                try:
                                    t = sub[b]
                                    for x in s.xf[n:]:
                                        t = V.apply_xf(t, x)
                                    s = t
                                except Unsupported:
                                    pass
                                break
                        else:
                            k = s.kind if s.kind in ('int', 'float', 'Decimal') else None
                            y = sub.get(Sym(s.label, k)) if k else None
                            if isinstance(y, Sym) and y.kind == k:
                                s = Atom(y.label, k, s.xf)
                            elif type(y) is int and k == 'int' and not s.xf:
                                s = str(y)
                            elif type(y) is float and k == 'float' and s.xf and s.xf[0][0] in ('fmt', 'str'):
                                try:
                                    t = format(y, s.xf[0][1]) if s.xf[0][0] == 'fmt' else str(y)
                                    for x in s.xf[1:]:
                                        t = V.apply_xf(t, x)
                                    s = t
                                except (Unsupported, ValueError):
                                    pass
                out.append(s)
            return mk(out)
        return v

    def canon(self, v):
        if isinstance(v, (SStr, Sym)):
            return v
        if v is None or isinstance(v, (str, bytes, bool, int, float)):
            return (type(v).__name__, v)
        if isinstance(v, PyClass):
            return ('class', v.qualname)
        if isinstance(v, Seq):
            return ('seq', v.kind, tuple(self.canon(x) for x in v.items), v.many)
        if isinstance(v, PyDict):
            return ('dict', tuple((self.canon(a), self.canon(b)) for a, b in zip(v.keys, v.vals)))
        if isinstance(v, V.Cell):
            return ('obj', v.serial)
        if isinstance(v, Bound):
            return ('bound', self.canon(v.func), self.canon(v.self))
        return ('other', repr(v))

    def is_many(self, v):
        if isinstance(v, (Seq, PySet, PyDict)):
            return v.many
        if isinstance(v, PyObj) and v.payload is not None:
            return self.is_many(v.payload)
        if isinstance(v, Iter):
            l = v.label
            return bool(l[0]) if isinstance(l, list) else False
        return False

    # ------------------------------------------------------------ delegations

    def truth(self, v):
        return self.lib.truth(self, v)

    def eq(self, a, b):
        return self.lib.eq(self, a, b)

    def compare(self, op, a, b):
        return self.lib.compare(self, op, a, b)

    def binop(self, op, a, b):
        return self.lib.binop(self, op, a, b)

    def augop(self, op, a, b):
        return self.lib.augop(self, op, a, b)

    def unop(self, op, v):
        return self.lib.unop(self, op, v)

    def iterate(self, v):
        return self.lib.iterate(self, v)

    def getitem(self, o, i):
        return self.lib.getitem(self, o, i)

    def setitem(self, o, i, v):
        return self.lib.setitem(self, o, i, v)

    def delitem(self, o, i):
        return self.lib.delitem(self, o, i)

    def set_add(self, s, x):
        return self.lib.set_add(self, s, x)

    def dict_set(self, d, k, v):
        return self.lib.dict_set(self, d, k, v)

    def dict_update(self, d, src):
        return self.lib.dict_update(self, d, src)

    def dict_pairs(self, d):
        return self.lib.dict_pairs(self, d)

    def tostr(self, v):
        return self.lib.to_str(self, v)


class ManyKw(dict):
    """Keyword arguments with an unknown number of further entries."""
