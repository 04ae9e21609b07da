"""Obligations and their exploration.

An obligation is a function of a `Scenario`: it makes abstract inputs, drives
the public API through the abstract interpreter and states what must hold of
the resulting shapes.  `explore` covers every partition of the abstract state.
An alarm counts as a violation only when it is reproduced after replacing the
abstract inputs by constants (constant propagation over the same source), which
also yields the witness; an alarm without witness is imprecision of the domain
and is reported as undecided.
"""
import ast
import collections
import datetime
import decimal
import functools
import itertools
import os
import random
import re
import time
import warnings

from . import interp as I
from . import values as V
from . import strlib as SL
from .interp import Interp, Ctx, next_prefix, PathInfeasible, Restart
from .values import (Atom, Choice, SStr, Sym, Seq, PyDict, PySet, PyObj, PyClass, Builtin, Iter, Raise, Unsupported,
                     mk, segs, is_strlike, show)


class Violation(Exception):
    pass


class NotDecided(Exception):
    """The obligation itself gives up (e.g. language outside the domain)."""


STR_POOL = ['abc', '', "it's", 'a\\b', 'x\ny', '"q"', 'a"b', 'a`b', '`q`', 'a.b', '*', ' pad ', '"t"."c"', '`t`.`c`', '%s', '{0}',
            '{', '%', 'NULL', 'a b', "''", 'é中', 'x' * 300, '0', ' "q" ', 'select', "\\'", 'A', '"a""b"', '?', ';-- ', '\t',
            '\r', '\x00', "'", '\\', '\n', '""', '``', '`a``b`', 'a.b.c', 'a.b.c.d', '.', '"a.b".c', 'DISTINCT', '$1', ':x',
            '"a"b"', 'a"."b', '\x1a', "a'; DROP", '1', 'null', 'true', '2020-01-01', '"q', 'q"', 'x"y"z', '"a"."b"."c"."d"', '*.*',
            '\u2028', "it''s", 'a\\\nb', "\n'\\", '(a)', ' ', 'İ', ' * ', 'e\u0301', '\ud800', 'ſ', '\xa0a', 'a\u3000']
PLAIN_POOL = ['alpha', 'beta', 'gamma', 'delta', 'epsilon', 'zeta', 'eta', 'theta', 'iota', 'kappa', 'lam', 'mu']
PLAIN_ALT = ['Upper', 'x', 'n' * 70, 'c3', '_x1', 'camelCase', 'id', 'zz9']
INT_POOL = [7, 0, 1, -1, 2, 3, 10, 100, 255, 256, 1000, 65536, 10 ** 12, -10 ** 9]
FLOAT_POOL = [1.5, 0.0, 1.500009, 1.6, 1.51, -2.25, 1e10, 0.1, 1234567.891, 1e-7, -0.0, 3.0, 2.5, 0.000005, 1.000015, 1e16, 1e22, 123456.7890123, -1e-6,
              0.125, 99999.999995, 1e300]
DEC_POOL = [decimal.Decimal('1.5'), decimal.Decimal('0'), decimal.Decimal('-12345678901234567890.123456'),
            decimal.Decimal('0.1'), decimal.Decimal('100'), decimal.Decimal('1E+3'),
            decimal.Decimal('1234567890123456789012345678901234567890.12345'), decimal.Decimal('0.0000049999'), decimal.Decimal('1E-10'),
            decimal.Decimal('-0.000001'), decimal.Decimal('99999.999995'), decimal.Decimal('1.000005'), decimal.Decimal('-0'),
            decimal.Decimal('0.12345'), decimal.Decimal('2.50000')]
BYTES_POOL = [b'ab', b'', b'\x00\xff', b"'", b'\\', bytes(range(256)), b'\n', b'0', b'\x0a\x0b', b'x' * 70, b'x' * 300]
DATE_POOL = [datetime.date(2020, 1, 2), datetime.date(1, 1, 1), datetime.date(9999, 12, 31)]
DT_POOL = [datetime.datetime(2020, 1, 2, 3, 4, 5), datetime.datetime(2020, 1, 2), datetime.datetime(1999, 12, 31, 23, 59, 59, 123456),
           datetime.datetime(2020, 1, 2, 3, 4, 5, tzinfo=datetime.timezone.utc),
           datetime.datetime(2020, 6, 7, 8, 9, 10, 500, tzinfo=datetime.timezone(datetime.timedelta(hours=-5, minutes=-30))),
           datetime.datetime(1, 1, 1), datetime.datetime(9999, 12, 31, 23, 59, 59, 999999), datetime.datetime(2020, 1, 2, 0, 0, 0, 1),
           datetime.datetime(2020, 1, 2, 12, 30)]
POOLS = {'str': STR_POOL, 'int': INT_POOL, 'float': FLOAT_POOL, 'Decimal': DEC_POOL, 'bytes': BYTES_POOL, 'date': DATE_POOL,
         'datetime': DT_POOL, 'bool': [True, False]}

REACHED = set()
LINES = set()


def show_const(v):
    return repr(v)


class Scenario:
    def __init__(self, ip, assign=None):
        self.ip = ip
        self.assign = assign            # None in abstract mode
        self.inputs = {}
        self.sp = ip.load()
        self.notes = []
        self.hints = []

    def precise(self):
        """Inline every call: the facts of each partition become visible."""
        self.ip.nosum = True

    def hint(self, label, value):
        """A value worth trying when an alarm of this partition is confirmed."""
        self.hints.append((label, value))

    # ------------------------------------------------------------ inputs

    @property
    def constant(self):
        return self.assign is not None

    def _input(self, label, kind, make, **opts):
        if self.inputs.get(label, (kind,))[0] != kind:
            label = '%s~%s' % (label, kind)         # the same name for inputs of two kinds
        self.inputs[label] = (kind, opts)
        if self.assign is not None:
            if label not in self.assign:
                self.assign[label] = default_for(kind, len(self.inputs), opts)
            return self.assign[label]
        return make()

    def str(self, label):
        """Any string."""
        return self._input(label, 'str', lambda: SStr((Atom(label, 'str'),)))

    def nstr(self, label):
        """Any nonempty string."""
        v = self._input(label, 'str', lambda: SStr((Atom(label, 'str'),)), nonempty=True)
        if self.assign is None:
            self.ip.ctx.facts[('nonempty', Atom(label, 'str'))] = 0
        elif v == '':
            raise PathInfeasible()
        return v

    def plain(self, label):
        """Any identifier-like string."""
        return self._input(label, 'plain', lambda: SStr((Atom(label, 'plain'),)))

    def int(self, label, lo=None):
        v = self._input(label, 'int', lambda: Sym(label, 'int', lo))
        if self.assign is not None and lo is not None and v < lo:
            raise PathInfeasible()
        return v

    def num(self, label, kind):
        return self._input(label, kind, lambda: Sym(label, kind))

    def scalar(self, kind, label):
        if kind == 'str':
            return self.str(label)
        if kind == 'plain':
            return self.plain(label)
        if kind == 'None':
            return None
        if kind in ('True', 'False'):
            return kind == 'True'
        return self._input(label, kind, lambda: Sym(label, kind))

    def maybe_equal(self, *labels):
        self.ip.ctx.maybe_equal = set(self.ip.ctx.maybe_equal) | set(labels)

    def list(self, *items, kind='list', many=False):
        return Seq(kind, list(items), many and self.assign is None)

    def tuple(self, *items):
        return Seq('tuple', list(items))

    def set(self, *items, kind='set'):
        s = PySet(kind, [])
        for x in items:
            self.ip.set_add(s, x)
        return s

    def dict(self, *pairs, kind='dict', **kw):
        d = PyDict(kind=kind)
        for k, v in list(pairs) + list(kw.items()):
            self.ip.dict_set(d, k, v)
        return d

    def gen(self, *items, many=False):
        return Iter(iter(list(items)), 'generator', label=[many and self.assign is None])

    def range(self, *a):
        return self.ip.call(self.ip.builtins['range'], list(a))

    def opaque(self):
        """Instance of a caller class the library knows nothing about."""
        c = PyClass('Opaque', [self.ip.builtins['object']], {}, None, None)
        c.mro = self.ip.c3(c)
        return PyObj(c)

    def sub(self, base, *args, text=None):
        """Instance of a caller-defined subclass of a builtin type (with a
        display form of its own, if one is given)."""
        b = self.ip.builtins.get(base) or self.ip.lib.bclass(getattr(datetime, base, None) or getattr(decimal, base, None) or getattr(collections, base))
        own = Builtin('__str__', lambda ip, a, k: text)
        c = PyClass('My' + base, [b], {} if text is None else {'__str__': own, '__repr__': own}, None, None)
        c.mro = self.ip.c3(c)
        return self.ip.call(c, list(args))

    # ------------------------------------------------------------ API

    def fn(self, name):
        o = self.sp
        for part in name.split('.'):
            o = self.ip.getattr(o, part)
        return o

    def call(self, f, /, *a, **k):
        if isinstance(f, str):
            f = self.fn(f)
        return self.ip.call(f, list(a), dict(k))

    def m(self, obj, name, /, *a, **k):
        return self.ip.call(self.ip.getattr(obj, name), list(a), dict(k))

    def chain(self, obj, *steps):
        for st in steps:
            name, a, k = norm_step(st)
            obj = self.m(obj, name, *a, **k)
        return obj

    def text(self, obj):
        return self.ip.tostr(obj)

    def repr(self, obj):
        return self.ip.call(self.ip.builtins['repr'], [obj])

    def eq(self, a, b):
        return self.ip.truth(self.ip.compare('Eq', a, b))

    def ne(self, a, b):
        return self.ip.truth(self.ip.compare('NotEq', a, b))

    def op(self, o, a, b):
        return self.ip.binop(o, a, b)

    def configure(self, name):
        if name != 'sql':
            self.call('configure', name)

    def V(self, x):
        return self.text(self.call('V', x))

    def R(self, x):
        return self.text(self.call('R', x))

    def rel(self, name, *a):
        return self.call('relations.' + name, *a)

    # ------------------------------------------------------------ outcomes

    def outcome(self, thunk):
        """('ok', value) or ('exc', class name, exception)"""
        try:
            return ('ok', thunk())
        except Raise as e:
            return ('exc', e)

    def is_exc(self, e, *names):
        for n in names:
            c = self.ip.builtins[n] if n in self.ip.builtins else self.fn('exceptions.' + n)
            if self.ip.issub(e.obj.cls, c):
                return True
        return False

    def expect_raise(self, thunk, *names, what=''):
        r = self.outcome(thunk)
        if r[0] == 'ok':
            v = r[1]
            raise Violation('%s: no exception; expected %s%s' % (what, '/'.join(names), (', got text ' + show(v)) if is_strlike(v) else ''))
        if not self.is_exc(r[1], *names):
            raise Violation('%s: raises %s at %s instead of %s' % (what, r[1].obj.cls.name, r[1].site, '/'.join(names)))
        return r[1]

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg)

    def norm(self, v):
        ip = self.ip
        for _ in range(8):
            v2 = ip.resolve(v)
            if isinstance(v2, SStr):
                v2 = mk([self._choice(s) for s in v2.segs])
            if v2 == v:
                return v2
            v = v2
        return v

    def _choice(self, s):
        if not isinstance(s, Choice):
            return s
        facts = self.ip.ctx.facts
        alts = []
        for fs, shape in s.alts:
            if any(k in facts and facts[k] != c for k, c in fs):
                continue
            alts.append((frozenset((k, c) for k, c in fs if k not in facts), shape))
        if len(alts) == 1 or len({a[1] for a in alts}) == 1 and alts:
            r = alts[0][1]
            for t in s.xf:
                r = mk([V.add_xf(x, t) for x in segs(r)])
            return r
        if len(alts) != len(s.alts):
            return Choice(s.name, s.args, frozenset(alts), s.xf)
        return s

    def same(self, got, want):
        want = mk(want) if isinstance(want, (list, tuple)) else want
        if got == want:
            return True
        if self.constant and isinstance(got, str) and isinstance(want, str) and want.endswith(' ') and got == want.strip():
            return True         # a name without any text at the end of a statement
        return self.norm(got) == self.norm(want)

    def expect(self, got, want, what=''):
        if isinstance(got, PyObj):
            got = self.text(got)
        want = mk(want) if isinstance(want, (list, tuple)) else want
        if not self.same(got, want):
            self.terms = (self.norm(got), self.norm(want))
            raise Violation('%s: renders  %s  expected  %s' % (what, show(self.norm(got)), show(self.norm(want))))


def norm_step(st):
    if isinstance(st, str):
        return st, (), {}
    name = st[0]
    a = st[1] if len(st) > 1 else ()
    k = st[2] if len(st) > 2 else {}
    if not isinstance(a, tuple):
        a = (a,)
    return name, a, k


def default_for(kind, i, opts):
    if kind == 'plain':
        return PLAIN_POOL[i % len(PLAIN_POOL)]
    pool = POOLS[kind]
    if kind == 'str':
        return ['abc', 'def', 'ghi', 'jkl', 'mno', 'pqr', 'stu'][i % 7]
    if kind == 'int':
        return 7 + i
    return pool[i % 2 if kind != 'bool' else 0]


# ------------------------------------------------------------ exploration

class Result:
    def __init__(self, name):
        self.name = name
        self.status = 'ok'          # ok | violation | undecided | vacuous
        self.paths = 0
        self.forks = 0
        self.detail = ''
        self.witness = None
        self.where = []
        self.seconds = 0.0
        self.instances = 0

    def to_json(self):
        d = {'obligation': self.name, 'status': self.status, 'partitions': self.paths, 'forks': self.forks, 'seconds': round(self.seconds, 3)}
        if self.instances:
            d['constant_instances'] = self.instances
        if self.detail:
            d['detail'] = self.detail
        if self.witness is not None:
            d['witness'] = self.witness
        if self.where:
            d['where'] = self.where
        return d


def one_path(fn, prefix, root, assign=None):
    for _ in range(60):
        ip = Interp(root=root, ctx=Ctx(prefix))
        try:
            S = Scenario(ip, dict(assign) if assign is not None else None)
            try:
                fn(S)
                return ('ok', None, ip, S)
            except Violation as e:
                return ('viol', str(e), ip, S)
            except Raise as e:
                args = [show(ip.resolve(x)) if is_strlike(x) else repr(x) for x in e.obj.attrs['args'].items] if 'args' in e.obj.attrs else []
                return ('viol', 'raises %s(%s) at %s' % (e.obj.cls.name, ', '.join(args)[:200], e.site), ip, S)
            except PathInfeasible:
                return ('skip', None, ip, S)
            except (Unsupported, NotDecided) as e:
                return ('undecided', '%s at %s' % (e, ip.site()), ip, S)
        except Restart:
            continue
        except Raise as e:
            return ('load', 'import of the package raises %s at %s' % (e.obj.cls.name, e.site), ip, None)
        except Unsupported as e:
            return ('load', 'import of the package: %s' % e, ip, None)
        finally:
            REACHED.update(ip.reached)
            LINES.update(ip.lines)
    raise Unsupported('restarts')


def trail(ip):
    """The places where the analysis went, innermost last."""
    out = []
    for n, c, k, site in ip.ctx.trace:
        out.append('%s: %s -> %s' % (site, short(k), c))
    return out[-12:]


def short(k):
    s = show(k) if isinstance(k, (tuple, SStr)) else repr(k)
    return s if len(s) < 160 else s[:157] + '...'


def literals(k, out):
    if isinstance(k, str):
        out.add(k)
    elif isinstance(k, bool) or k is None:
        pass
    elif isinstance(k, int):
        out.add(k)
    elif isinstance(k, (tuple, frozenset)):
        for x in k:
            literals(x, out)
    elif isinstance(k, SStr):
        for x in k.segs:
            literals(x, out)
    elif isinstance(k, Atom):
        for t in k.xf:
            literals(t, out)


def source_ints(root):
    """Integer constants of the analysed source: the sizes it can single out."""
    return source_constants(root)[0]


def source_strs(root):
    """Short string constants of the analysed source: the contents it can
    single out.  Those made of punctuation or blanks come first."""
    return source_constants(root)[1]


@functools.lru_cache(None)
def source_constants(root):
    out = set()
    strs = set()
    for d, _, files in os.walk(os.path.join(root, 'sqlpuzzle')):
        for f in files:
            if f.endswith('.py'):
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = ast.parse(open(os.path.join(d, f), encoding='utf-8').read())
                except (SyntaxError, ValueError):
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant):
                        if type(n.value) is int:
                            out.add(n.value)
                        elif type(n.value) is float:
                            out |= {int(n.value)} if abs(n.value) < 1e15 else set()
                        elif type(n.value) is str and 0 < len(n.value) <= 24:
                            strs.add(n.value)
    word = re.compile(r'[\w{}:%, ()]+\Z')
    return sorted(out), sorted((x for x in strs if not word.match(x) and len(x) <= 8), key=lambda x: (len(x), x)), \
        sorted((x for x in strs if word.match(x) and ' ' not in x and len(x) <= 12), key=lambda x: (len(x), x))


def source_words(root):
    return source_constants(root)[2]


SPECIAL = ["'", '\\', '\n', '"', '`', '.', ' ']


def recent(trace, slits):
    """The literals, those of the latest conditions first."""
    out = []
    for n, c, k, site in reversed(trace):
        got = set()
        literals(k, got)
        out += [x for x in sorted(y for y in got if isinstance(y, str)) if x in slits and x not in out]
    return out + [x for x in slits if x not in out]


def assignments(inputs, ip, rng, limit, hints=(), terms=()):
    """Constant instances of the abstract inputs, most telling first."""
    lits = set()
    literals(terms, lits)
    lits = {x for x in lits if not isinstance(x, str) or 1 < len(x) <= 16}
    for n, c, k, site in ip.ctx.trace:
        literals(k, lits)
    for k, v in ip.ctx.subst.items():
        literals(v, lits)
    for lo, hi in ip.ctx.bounds.values():
        for b in (lo, hi):
            if b is not None:
                lits.add(b)
    slits = sorted((x for x in lits if isinstance(x, str) and len(x) < 80), key=lambda s: (len(s), s))
    ilits = sorted(x for x in lits if isinstance(x, int))
    base = {}
    for i, (l, (kind, opts)) in enumerate(inputs.items()):
        base[l] = default_for(kind, i + 1, opts)
    eqpairs = sorted(ip.ctx.maybe_equal)
    seen = set()

    def emit(a):
        key = tuple(sorted((l, repr(v)) for l, v in a.items()))
        if key in seen:
            return None
        seen.add(key)
        return dict(a)
    pools = {}
    for l, (kind, opts) in inputs.items():
        if kind == 'plain':
            p = [base[l]] + PLAIN_ALT + [s for s in slits if s.isidentifier()]
        else:
            p = list(POOLS[kind])
        # values this partition says the input takes
        for k, v in ip.ctx.subst.items():
            if getattr(k, 'label', None) == l and not getattr(k, 'xf', ()) and (isinstance(v, str) or kind not in ('str', 'plain')) \
                    and not isinstance(v, (Sym, SStr)):
                p.insert(0, v)
        if kind == 'str':
            ex = []
            for s in slits:
                ex += [s, 'x' + s + 'y', s + 'y', 'x' + s, s * 2]
            for s in recent(ip.ctx.trace, slits)[:12]:
                ex += [s + c for c in SPECIAL[:5]] + [c + s for c in SPECIAL[:5]]
            for n in ilits:
                if 0 <= n <= 5000:
                    ex += ['z' * (n + 1), 'z' * n, 'z' * max(0, n - 1)]
                    if n > 1:
                        # what lies beyond a position the code singles out
                        ex += ['z' * (n + 1) + c for c in SPECIAL] + [c + 'z' * (n + 1) for c in SPECIAL]
            for n in source_ints(ip.root):
                if 1 < n <= 5000:
                    ex += [c * (n + 1) for c in SPECIAL] + ['z' * n + c for c in SPECIAL[:4]]
            for s in source_strs(ip.root):
                if s not in slits:
                    ex += ['x' + s + 'y'] if s in p else [s, 'x' + s + 'y']
            for s in source_strs(ip.root):
                if s not in slits and len(s) < 4 and not s.isalnum() and s.strip():
                    ex += [s + c for c in SPECIAL[:2]] + ["'" + s]
            p = p[:1] + [x for z in itertools.zip_longest(ex, p[1:]) for x in z if x is not None] + [s for s in source_words(ip.root)]
        if kind in ('int', 'float'):
            ex = []
            for n in ilits:
                ex += [n, n - 1, n + 1, -n]
            ty = int if kind == 'int' else float
            p = p[:1] + [ty(x) for x in ex] + p[1:]
            p += [ty(x + d) for x in source_ints(ip.root) for d in (0, -1, 1)]
        if kind == 'bytes':
            p = p + [b'z' * n for n in ilits if 0 < n < 5000]
        pools[l] = p
    out = []

    def add(a):
        r = emit(a)
        if r is not None:
            out.append(r)
    add(base)
    for l, v in hints:
        if l in base:
            add(dict(base, **{l: v}))
    for i in range(max(map(len, pools.values()), default=0)):
        for l in inputs:
            if i < len(pools[l]):
                a = dict(base)
                a[l] = pools[l][i]
                add(a)
    if len(eqpairs) > 1:
        for v in pools.get(eqpairs[0], [])[:8]:
            a = dict(base)
            for l in eqpairs:
                if l in a:
                    a[l] = v
            add(a)
            for x in eqpairs:
                for y in eqpairs:
                    if x < y and x in base and y in base:
                        b = dict(base)
                        b[x] = b[y] = v
                        add(b)
    labels = list(inputs)
    for _ in range(limit * 2):
        if len(out) >= limit or not labels:
            break
        a = {l: rng.choice(pools[l]) for l in labels}
        add(a)
    # distinct inputs stay distinct unless the obligation lets them coincide
    good = []
    for a in out:
        vals = {}
        ok = True
        for l, v in a.items():
            kk = (inputs[l][0] in ('str', 'plain'), repr(v))
            if kk in vals and not (l in ip.ctx.maybe_equal and vals[kk] in ip.ctx.maybe_equal) and inputs[l][0] in ('str', 'plain', 'int'):
                ok = False
                break
            vals[kk] = l
        if ok:
            good.append(a)
    return good[:limit]


def rounds(cands, rng, limit, step=50):
    """Constant instances for the alarms in turn, some of each at a time."""
    todo = [(msg, ip, assignments(S.inputs, ip, rng, limit, S.hints, getattr(S, 'terms', ()))) for msg, ip, S in cands if ip is not None and S is not None]
    for i in range(0, limit + step, step):
        for msg, ip, asg in todo:
            for a in asg[i:i + step]:
                yield msg, ip, a


def explore(name, fn, root='/repo', max_paths=600, budget=120.0, seed=1, limit=600, deadline=None):
    t0 = time.time()
    deadline = deadline or t0 + 3600
    res = Result(name)
    prefix = []
    alarms = []
    undecided = None
    last = None
    ok = 0
    while prefix is not None:
        try:
            kind, msg, ip, S = one_path(fn, prefix, root)
        except Unsupported as e:
            undecided = (str(e), None, None)
            break
        if kind == 'load':
            res.status, res.detail = 'load', msg
            return res
        res.paths += 1
        res.forks = max(res.forks, len(ip.ctx.trace))
        last = (ip, S)
        if kind == 'viol':
            alarms.append((msg, ip, S))
            if len(alarms) >= 8:
                break
        elif kind == 'undecided':
            if undecided is None:
                undecided = (msg, ip, S)
            break
        elif kind == 'ok':
            ok += 1
        prefix = next_prefix(ip.ctx.trace)
        if prefix is not None and (res.paths >= max_paths or time.time() - t0 > budget or time.time() > deadline):
            undecided = undecided or ('partition budget exhausted after %d partitions' % res.paths, ip, S)
            break
    rng = random.Random(seed)
    t1 = time.time()
    if alarms or undecided:
        cands = alarms or [undecided]
        confirmed = None
        inst = 0
        seen = set()
        for msg, ip, a in rounds(cands, rng, limit if alarms else 300):
            if time.time() > min(deadline + 60, t1 + (100 if alarms else 25)):
                break
            key = repr(sorted(a.items(), key=lambda x: x[0]))
            if key in seen:
                continue
            seen.add(key)
            inst += 1
            p2 = []
            n = 0
            while p2 is not None and n < 8:
                kind, m2, ip2, S2 = one_path(fn, p2, root, a)
                n += 1
                if kind == 'viol':
                    confirmed = (m2, S2, msg, ip)
                    break
                p2 = next_prefix(ip2.ctx.trace)
            if confirmed:
                break
        res.instances = inst
        if confirmed:
            m2, S2, msg, ip = confirmed
            res.status = 'violation'
            res.detail = m2
            if not alarms:
                msg = None
            if msg and msg != m2:
                res.detail += '  [abstract: %s]' % msg
            res.witness = {l: show_const(v) for l, v in S2.assign.items()}
            res.where = trail(ip)
        else:
            res.status = 'undecided'
            res.detail = ('alarm without witness: ' + alarms[0][0]) if alarms else undecided[0]
            if alarms:
                res.where = trail(alarms[0][1])
    elif ok == 0:
        res.status = 'vacuous'
        res.detail = 'no feasible partition'
    res.seconds = time.time() - t0
    return res
