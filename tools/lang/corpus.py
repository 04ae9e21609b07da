"""Python constructs a maintainer could use when restructuring the package.
Every f_* function is run by CPython and by the abstract interpreter (on
constants); the results have to agree (tools/langtest.py)."""
import abc
import collections
import contextlib
import copy
import dataclasses
import datetime
import decimal
import enum
import functools
import itertools
import operator
import re
import string
import types
import typing
from collections import OrderedDict, namedtuple, defaultdict, ChainMap, deque, Counter
from collections.abc import Iterable, Mapping, Sequence, Callable
from dataclasses import dataclass, field
from enum import Enum
from functools import lru_cache, partial, reduce, singledispatch, wraps, cached_property, total_ordering
from operator import attrgetter, itemgetter, methodcaller
from typing import Any, Optional, List, Dict, Union, NamedTuple, ClassVar, TYPE_CHECKING

if TYPE_CHECKING:
    import nothing_here


def f_fstrings():
    x, y = 5, 'a"b'
    d = {'k': 3.14159}
    return f'{x}', f'{y!r}', f'{x:>4d}|{x:<4}|{x:^5}|{x:05d}', f'{d["k"]:.2f}', f'{x=}', f'{{}}', f'{y}' f'{x + 1}', f'{"".join(c for c in y)}'


def f_percent():
    return '%s %r %d %5.2f %%' % ('a', 'b', 3, 2.5), '%(a)s-%(b)s' % {'a': 1, 'b': 'x'}, '%s' % ('t',), '%5s|%-5s|' % ('a', 'b'), '%x' % 255


def f_format():
    return '{} {}'.format(1, 'a'), '{0} {1} {0}'.format('x', 'y'), '{a} {b!r}'.format(a=1, b='z'), '{:>5}|{:<5}|{:^5}'.format(1, 2, 3), '{0[0]} {1.real}'.format([7], 3), '{:,}'.format(1234567), '{a}'.format_map({'a': 2})


def f_str_methods():
    s = ' Hello, World '
    return [s.strip(), s.lstrip(), s.rstrip(), s.upper(), s.lower(), s.title(), s.swapcase(), s.split(), s.split(','), s.partition(','), s.rpartition('o'), s.replace('l', 'L', 1),
            s.find('o'), s.rfind('o'), s.index('H'), s.count('l'), s.startswith((' H', 'x')), s.endswith(' '), 'abc'.removeprefix('a'), 'abc'.removesuffix('c'), 'a-b-c'.rsplit('-', 1),
            'x'.center(5, '*'), 'x'.ljust(3), 'x'.rjust(3), '7'.zfill(3), 'ab\ncd'.splitlines(), 'abc'[::-1], 'abc'[1:], 'abc'[-1], 'a' in 'abc', 'abc' * 2, ','.join(['a', 'b']),
            'aBc'.casefold(), 'abc'.isalpha(), '12'.isdigit(), 'a1'.isalnum(), 'a_1'.isidentifier(), ''.isspace(), 'abc'.capitalize(), 'a\tb'.expandtabs(4),
            'abc'.translate(str.maketrans({'a': 'X', 'b': None})), 'abc'.translate(str.maketrans('ab', 'yz')), 'abc'.encode('utf-8'), b'abc'.decode(), 'abc' < 'abd', ord('a'), chr(98), 'ß'.upper()]


def f_comprehensions():
    xs = [1, 2, 3, 4]
    return [x * 2 for x in xs if x % 2], {x: str(x) for x in xs}, sorted({x % 2 for x in xs}), list(x for x in xs if x > 1), [(a, b) for a in xs for b in 'xy' if a < 3], [[y for y in range(x)] for x in xs], [x if x > 2 else -x for x in xs]


def f_walrus():
    out = []
    if (n := len('abc')) > 2:
        out.append(n)
    while (m := len(out)) < 3:
        out.append(m)
    return out, [y for x in (1, 2, 3) if (y := x * 2) > 2]


def f_match():
    def kind(x):
        match x:
            case None:
                return 'none'
            case True | False:
                return 'bool'
            case int(n) if n > 10:
                return 'big'
            case int():
                return 'int'
            case str() as s:
                return 'str ' + s
            case [a, b]:
                return ('pair', a, b)
            case [first, *rest]:
                return ('seq', first, rest)
            case {'k': v, **rest}:
                return ('map', v, rest)
            case _:
                return 'other'
    return [kind(x) for x in (None, True, 20, 3, 'q', (1, 2), [1, 2, 3], {'k': 1, 'z': 2}, 1.5, [], {})]


class Base:
    registry = {}
    kind = 'base'

    def __init_subclass__(cls, tag=None, **kw):
        super().__init_subclass__(**kw)
        Base.registry[tag or cls.__name__] = cls

    def __init__(self, v=0):
        self._v = v

    @property
    def v(self):
        return self._v

    @v.setter
    def v(self, x):
        self._v = x * 2

    @classmethod
    def make(cls, *a, **k):
        return cls(*a, **k)

    @staticmethod
    def st(x):
        return x + 1

    def __eq__(self, other):
        if not isinstance(other, Base):
            return NotImplemented
        return self._v == other._v

    def __hash__(self):
        return hash(self._v)

    def __repr__(self):
        return '%s(%r)' % (type(self).__name__, self._v)

    def __bool__(self):
        return bool(self._v)

    def __len__(self):
        return 3

    def __getitem__(self, i):
        if i >= 3:
            raise IndexError(i)
        return i * 10

    def __contains__(self, x):
        return x == 7

    def __call__(self, *a):
        return ('called', a)

    def __add__(self, o):
        return self.make(self._v + (o._v if isinstance(o, Base) else o))

    __radd__ = __add__

    def __lt__(self, o):
        return self._v < o._v

    def __iter__(self):
        yield from (self._v, self._v + 1)


class Derived(Base, tag='der'):
    kind = 'derived'

    def __init__(self, v=0, w=1):
        super().__init__(v)
        self.w = w

    def __getattr__(self, name):
        if name.startswith('dyn_'):
            return lambda *a: (name, a)
        raise AttributeError(name)


def f_classes():
    a, b = Base(1), Derived.make(2, w=5)
    a.v = 4
    out = [a.v, b.w, Base.st(1), b.st(2), a == Base(8), a != b, a == 5, repr(b), bool(Base(0)), len(a), a[1], list(a), 7 in a, a(1, 2), (a + b).v, (1 + a).v, sorted([b, a])[0].v, b.dyn_x(3), Base.registry['der'].__name__]
    out += [isinstance(b, Base), issubclass(Derived, Base), type(b) is Derived, type(b).__mro__[1].__name__, b.__class__.__name__, hasattr(b, 'nope'), getattr(b, 'nope', 9), b.kind, vars(a), Derived.__bases__[0].__name__]
    setattr(a, 'zz', 3)
    del a.zz
    return out + [hasattr(a, 'zz'), {Base(1): 'x'}[Base(1)], callable(a), callable(3)]


@dataclass
class Point:
    x: int
    y: int = 2
    tags: List[str] = field(default_factory=list)
    N: ClassVar[int] = 5

    def total(self) -> int:
        return self.x + self.y


@dataclass(frozen=True)
class Frozen:
    a: str
    b: Optional[int] = None


def f_dataclass():
    p, q = Point(1), Point(x=1, y=2)
    p.tags.append('t')
    out = [p.total(), repr(p), p == q, q == Point(1), Point.N, repr(Frozen('q')), Frozen('q') == Frozen('q'), hash(Frozen('q')) == hash(Frozen('q')), dataclasses.replace(q, y=9).y]
    try:
        Frozen('a').a = 'b'
    except dataclasses.FrozenInstanceError:
        out.append('frozen')
    return out


class Color(Enum):
    RED = 'red'
    BLUE = 'blue'

    @property
    def nice(self):
        return self.value.upper()


class Flagged(str, Enum):
    A = 'aa'
    B = 'bb'


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2


def f_enum():
    return Color.RED.value, Color('blue').name, Color['RED'] is Color.RED, Color.RED == Color.BLUE, [c.nice for c in Color], Flagged.A == 'aa', Flagged.A.value, Num.ONE + 1, Color.RED in Color, len(Color)


Pair = namedtuple('Pair', 'k v')


class Row(NamedTuple):
    name: str
    value: Any = None

    def both(self):
        return (self.name, self.value)


def f_namedtuple():
    p, r = Pair(1, v=2), Row('n')
    k, v = p
    return p.k, v, p == (1, 2), p._replace(k=5).k, p._asdict(), repr(p), r.both(), r[0], len(p), Pair._fields, p + (3,), isinstance(p, tuple), Pair(*'ab').v


def f_functools():
    add = lambda a, b: a + b
    inc = partial(add, 1)

    @lru_cache(maxsize=None)
    def fib(n):
        return n if n < 2 else fib(n - 1) + fib(n - 2)

    @functools.cache
    def g(x):
        return [x]

    @singledispatch
    def show(x):
        return 'obj'

    @show.register(int)
    def _(x):
        return 'int'

    @show.register
    def _(x: str):
        return 'str'

    @show.register(list)
    @show.register(tuple)
    def _(x):
        return 'seq'

    def deco(f):
        @wraps(f)
        def inner(*a, **k):
            return ('w', f(*a, **k))
        return inner

    def deco_args(n):
        def d(f):
            @functools.wraps(f)
            def inner(*a, **k):
                return (n,) + (f(*a, **k),)
            return inner
        return d

    @deco
    @deco_args(3)
    def h(x, *, y=2):
        return x + y
    return inc(4), reduce(add, [1, 2, 3], 10), fib(12), g(1) is g(1), show(1), show('a'), show([]), show(()), show(1.5), show(True), h(1), h(1, y=5), h.__name__


class Lazy:
    def __init__(self):
        self.n = 0

    @cached_property
    def val(self):
        self.n += 1
        return self.n

    @functools.singledispatchmethod
    def go(self, x):
        return 'o'

    @go.register(int)
    def _(self, x):
        return 'i'

    m = functools.partialmethod(lambda self, a, b: (a, b), 1)


def f_lazy():
    l = Lazy()
    return l.val, l.val, l.n, l.go(1), l.go('x'), l.m(2)


def f_itertools():
    return (list(itertools.chain([1], (2, 3))), list(itertools.chain.from_iterable([[1], [2]])), list(itertools.islice(itertools.count(5), 3)), list(itertools.product('ab', [1, 2])), list(itertools.permutations([1, 2, 3], 2))[:3],
            list(itertools.combinations('abc', 2)), [(k, list(g)) for k, g in itertools.groupby('aabc')], list(itertools.zip_longest([1, 2], ['a'], fillvalue=None)), list(itertools.starmap(pow, [(2, 3)])),
            list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])), list(itertools.dropwhile(lambda x: x < 3, [1, 2, 3, 1])), list(itertools.repeat('x', 2)), list(itertools.accumulate([1, 2, 3])), list(itertools.filterfalse(None, [0, 1])),
            list(itertools.compress('abc', [1, 0, 1])), [next(itertools.cycle('ab')) for _ in range(2)], [list(t) for t in itertools.tee([1, 2])], list(itertools.pairwise([1, 2, 3])))


def f_operator():
    P = Pair(1, 2)
    return itemgetter(1)([5, 6]), itemgetter('a', 'b')({'a': 1, 'b': 2}), attrgetter('v')(P), methodcaller('upper')('a'), operator.add(1, 2), operator.eq(1, 1), operator.contains([1], 1), operator.not_(0), operator.or_(1, 2), operator.and_(3, 1), operator.is_(None, None), operator.itemgetter(0)('xy'), operator.truth([])


def f_collections():
    d = defaultdict(list)
    d['a'].append(1)
    o = OrderedDict([('b', 1), ('a', 2)])
    o.move_to_end('b')
    q = deque([1, 2], maxlen=3)
    q.append(3)
    q.appendleft(0)
    c = Counter('aab')
    return dict(d), list(o.items()), list(q), c['a'], c['z'], c.most_common(1), list(ChainMap({'a': 1}, {'b': 2}).items()), ChainMap({'a': 1}, {'a': 2})['a'], isinstance([], Iterable), isinstance({}, Mapping), isinstance((), Sequence), isinstance(len, Callable), isinstance('a', Sequence), isinstance(3, Iterable), types.SimpleNamespace(a=1).a


def f_dicts():
    d = {'b': 1, 'a': 2}
    d.setdefault('c', []).append(5)
    e = {**d, 'z': 0} | {'y': 1}
    x = d.pop('a')
    y = d.pop('nope', None)
    d.update(q=1)
    d.update({'r': 2}, s=3)
    f = dict(zip('ab', [1, 2]), c=3)
    del f['a']
    k, *rest = d
    return d, list(e), x, y, f, k, rest, dict.fromkeys('ab', 0), list(d.keys())[0], max(d, key=len), 'b' in d, d.get('b'), list(reversed(d)), d == dict(d), sorted(d.items(), key=lambda kv: kv[0], reverse=True)[0], d.popitem(), len(d), d.keys() & {'b'}, {k: v for k, v in d.items() if isinstance(v, int)}, types.MappingProxyType({'a': 1})['a']


def f_lists():
    l = [3, 1, 2]
    l.sort(key=lambda x: -x)
    l.insert(0, 9)
    l.extend((7, 8))
    l += [0]
    l[1:3] = ['a']
    del l[0]
    a, *b = l
    *c, d = l
    (e, f), g = (1, 2), 3
    m = l[:]
    m.reverse()
    m.remove(0)
    return l, a, b, c, d, e, f, g, m, l.index(7), l.count(0), l.pop(), l.pop(0), [0] * 3, [1] + [2], [1, 2] < [1, 3], list(reversed([1, 2])), sorted('bca', reverse=True), list(enumerate('ab', 1)), list(zip('ab', [1, 2], strict=True)), any(x > 1 for x in [1, 2]), all([]), sum([1, 2], 10), min([3, 1]), max(1, 2), list(map(str, [1])), list(filter(None, [0, 1])), (1, 2) + (3,), l.copy() is l, tuple([1]), [*l, *'ab'], slice(1, 2)


def f_sets():
    s = {1, 2}
    s.add(3)
    s |= {4}
    s.discard(9)
    return sorted(s), s & {1, 9}, sorted(s | {7}), sorted(s - {1}), sorted(s ^ {1, 9}), {1} <= s, s.issuperset({1}), frozenset([1]) == {1}, s.isdisjoint({8}), len(s), sorted(s.union([5], (6,))), sorted(s.intersection([1, 2])), sorted(s.difference([1])), bool(set())


def f_generators():
    def g(n):
        try:
            for i in range(n):
                x = yield i
                if x:
                    yield x * 100
        finally:
            done.append(1)
        return 'ret'
    done = []
    it = g(3)
    a = next(it)
    b = it.send(5)

    def outer():
        r = yield from g(2)
        yield r
    return a, b, list(it), done, list(outer()), next(iter([]), 'dflt'), sum(x for x in g(4))


def f_exceptions():
    class E(ValueError):
        def __init__(self, msg='dm'):
            super().__init__(msg)
            self.msg = msg
    out = []
    for exc in (E, KeyError, ZeroDivisionError, TypeError):
        try:
            try:
                raise exc('m')
            except E as e:
                out.append(('E', e.msg, str(e), e.args))
                raise KeyError(1) from e
            except (KeyError, TypeError) as e:
                out.append(type(e).__name__)
                raise
            else:
                out.append('never')
            finally:
                out.append('fin')
        except Exception as e:
            out.append((type(e).__name__, isinstance(e.__cause__, E)))
    try:
        {}['x']
    except LookupError as e:
        out.append(repr(e))
    try:
        [][0]
    except IndexError:
        out.append('ie')
    try:
        int('x')
    except ValueError:
        out.append('ve')
    try:
        None.foo
    except AttributeError:
        out.append('ae')
    try:
        assert 1 == 2, 'no'
    except AssertionError as e:
        out.append(str(e))
    try:
        'a' + 1
    except TypeError:
        out.append('te')

    def early():
        try:
            return 'a'
        finally:
            out.append('f')

    def loop():
        for i in range(5):
            try:
                if i == 1:
                    continue
                if i == 3:
                    break
            finally:
                out.append(i)
        else:
            out.append('else')
    early(), loop()
    return out


@contextlib.contextmanager
def ctx(x, log):
    log.append('in')
    try:
        yield x + 1
    except KeyError:
        log.append('caught')
    finally:
        log.append('out')


class CM:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return a[0] is not None and issubclass(a[0], ValueError)


def f_with():
    log = []
    with ctx(1, log) as v, CM():
        log.append(v)
    with ctx(1, log):
        raise KeyError
    with CM():
        raise ValueError
    with contextlib.suppress(ZeroDivisionError):
        1 / 0
    with contextlib.nullcontext(4) as z:
        log.append(z)
    with contextlib.ExitStack() as st:
        st.enter_context(ctx(5, log))
    return log


def f_closures():
    def counter():
        n = 0

        def inc():
            nonlocal n
            n += 1
            return n
        return inc
    c = counter()
    fs = [lambda i=i: i for i in range(3)]
    return c(), c(), [f() for f in fs], (lambda *a, **k: (a, k))(1, 2, x=3)


def f_args():
    def f(a, /, b, *c, d=4, **e):
        return a, b, c, d, e
    args, kw = (1, 2, 3), {'d': 5, 'z': 6}
    out = [f(*args, **kw), f(1, b=2), f(*[1], 2, *(3, 4), **{'q': 1})]
    try:
        f(1)
    except TypeError:
        out.append('te')
    return out


def f_re():
    p = re.compile(r'(?P<a>\w+)-(\d+)')
    m = p.match('abc-12 x')
    return [m.group(), m.group('a'), m.group(2), m.groups(), m.groupdict(), m.start(), m.end(), m.span(2), p.search('zz').__class__.__name__, re.sub(r'[aeiou]', lambda m: m.group().upper(), 'hello'), re.sub('l', 'L', 'hello', count=1),
            re.split(r'[,;]\s*', 'a, b;c'), re.findall(r'\d', 'a1b2'), re.fullmatch('a+', 'aaa') is not None, re.escape('a.b*'), [x.group() for x in re.finditer('.', 'ab')], re.sub(r'(\w)(\w)', r'\2\1', 'abcd'), bool(re.match('^a$', 'a\n')), re.I, p.pattern,
            re.search(r'b', 'aB', re.IGNORECASE).group(), re.subn('a', 'b', 'aa'), re.match(r'\s*"', ' "').group()] if False else [m.group(), m.group('a'), m.group(2), m.groups(), m.groupdict(), m.start(), m.end(), m.span(2), p.search('zz'), re.sub(r'[aeiou]', lambda m: m.group().upper(), 'hello'), re.sub('l', 'L', 'hello', count=1),
            re.split(r'[,;]\s*', 'a, b;c'), re.findall(r'\d', 'a1b2'), re.fullmatch('a+', 'aaa') is not None, re.escape('a.b*'), [x.group() for x in re.finditer('.', 'ab')], re.sub(r'(\w)(\w)', r'\2\1', 'abcd'), bool(re.match('^a$', 'a\n')), p.pattern,
            re.search(r'b', 'aB', re.IGNORECASE).group(), re.subn('a', 'b', 'aa'), re.match(r'\s*"', ' "').group()]


def f_copy():
    a = Point(1, tags=['q'])
    b, c = copy.copy(a), copy.deepcopy(a)
    a.tags.append('r')
    l = [[1], {'k': [2]}]
    m = copy.deepcopy(l)
    l[0].append(5)
    return b.tags, c.tags, m, copy.copy(l) == l


class Abs(abc.ABC):
    @abc.abstractmethod
    def go(self):
        ...

    @property
    @abc.abstractmethod
    def pr(self):
        pass


class Conc(Abs):
    def go(self):
        return 1
    pr = 2


def f_abc():
    try:
        Abs()
    except TypeError:
        return 'abstract', Conc().go(), Conc().pr, isinstance(Conc(), Abs)


class Desc:
    def __set_name__(self, owner, name):
        self.name = '_' + name

    def __get__(self, obj, tp=None):
        if obj is None:
            return self
        return getattr(obj, self.name, 'unset')

    def __set__(self, obj, v):
        setattr(obj, self.name, v)


class Meta(type):
    def __new__(mcs, name, bases, ns, **kw):
        cls = super().__new__(mcs, name, bases, ns)
        cls.added = name.lower()
        return cls


class WithMeta(metaclass=Meta):
    d = Desc()
    __slots__ = ('_d', 'other')


class Mixin:
    def hello(self):
        return 'mixin ' + super().hello()


class Hello:
    def hello(self):
        return 'hello'


class Both(Mixin, Hello):
    pass


def f_meta():
    w = WithMeta()
    a = w.d
    w.d = 5
    T = type('T', (Hello,), {'z': 1, 'm': lambda self: self.z})
    return a, w.d, WithMeta.added, Both().hello(), T().m(), T().hello(), [c.__name__ for c in Both.__mro__]


@total_ordering
class Ord:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return self.n == o.n

    def __lt__(self, o):
        return self.n < o.n


def f_ordering():
    return Ord(1) <= Ord(1), Ord(2) > Ord(1), Ord(2) >= Ord(3), max(Ord(1), Ord(4)).n, sorted([Ord(3), Ord(1)], key=functools.cmp_to_key(lambda a, b: a.n - b.n))[0].n


def f_numbers():
    D = decimal.Decimal
    return 7 // 2, -7 // 2, -7 % 3, 2 ** 10, 7 / 2, 1e3, 0x10, round(2.567, 2), divmod(7, 2), abs(-3), int('12'), int(3.9), float('1.5'), bool([]), 5 & 3, 5 | 3, 5 ^ 3, 1 << 4, ~5, 1 < 2 < 3, 1 if 0 else 2, not 1, 0 or 'x', 1 and 'y', None is None, D('1.10') + D('2'), str(D('1.5')), '{:.3f}'.format(D('1')), D('1') == 1, isinstance(True, int), type(1) is int, hex(255), bin(5), pow(2, 3), sum([]), datetime.date(2020, 1, 2).isoformat(), datetime.datetime(2020, 1, 2, 3, 4, 5).isoformat(' '), b'\x01\xff'.hex(), bytes([1, 2]), complex(1, 2).real


def f_loops():
    out = []
    for i in range(10, 0, -3):
        out.append(i)
    else:
        out.append('e')
    i = 0
    while True:
        i += 1
        if i == 2:
            continue
        if i > 4:
            break
        out.append(i)
    for i, (a, b) in enumerate([(1, 2)]):
        out.append((i, a, b))
    for x in iter(lambda it=iter([1, 2, 0, 9]): next(it), 0):
        out.append(x)
    for k in list({'a': 1}):
        out.append(k)
    return out


def f_annotations():
    x: int = 5
    y: 'Optional[List[str]]'

    def f(a: Union[int, str], *b: Any, c: Dict[str, int] = None) -> Optional[int]:
        return a
    T = typing.TypeVar('T')
    Alias = Union[int, None]
    return x, f(3), typing.cast(int, 'q')


def f_global():
    global COUNT
    COUNT = COUNT + 1
    return COUNT, globals()['COUNT'] >= 1, __name__.split('.')[0] != ''


COUNT = 0


def f_misc():
    a = b = [1]
    a += [2]
    x, y = 1, 2
    x, y = y, x
    t = (1,)
    s = 'abc'
    z = [*range(3)]
    print_ = None
    pass
    ...
    return b, x, y, t, s[1:2], z, print_, (yield_ := 3), string.ascii_lowercase[:3], hash('a') == hash('a'), id(a) == id(b), [1, 2, 3][-2:], 'x' if a is b else 'y', repr('a\'b'), repr("a\"b"), repr('a\nb'), str(None), str(True), str([1, 'a']), str({'a': (1,)}), type(None).__name__, isinstance(None, type(None)), NotImplemented is NotImplemented, Ellipsis is ..., f_misc.__name__, f_misc.__doc__, bool(''), len(b'ab'), tuple('ab'), iter([1]).__next__()


def f_str_format_spec():
    class F:
        def __format__(self, spec):
            return 'F<' + spec + '>'

        def __str__(self):
            return 'S'
    return f'{F()}', f'{F():abc}', '{:q}'.format(F()), str(F()), '%s' % F(), f'{F()!s:>3}', format(5, '03d'), format('x', '>3'), ''.join(map(str, [F(), 1]))


def f_template():
    return string.Template('$a-${b} $$').substitute(a=1, b='x'), 'a{}b'.join(['1', '2']), 'abc'.__len__(), str.upper('a'), list(map(str.strip, [' a '])), '-'.join(str(i) for i in range(3))


def f_iter_protocol():
    class It:
        def __init__(self):
            self.i = 0

        def __iter__(self):
            return self

        def __next__(self):
            self.i += 1
            if self.i > 3:
                raise StopIteration
            return self.i
    a, b, c = It()
    return list(It()), a, b, c, max(It()), dict(enumerate(It())), 2 in It(), list(zip(It(), 'ab'))
