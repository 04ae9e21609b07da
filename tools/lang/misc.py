import abc
import binascii
import collections
import contextlib
import copy
import dataclasses
import datetime
import decimal
import enum
import functools
import itertools
import operator
import re
import string
import textwrap
import types
import typing
from collections import Counter, OrderedDict, deque, namedtuple
from decimal import Decimal


def f_operator():
    return [operator.itemgetter(0)((5, 6)), operator.itemgetter('a', 'b')({'a': 1, 'b': 2}), operator.attrgetter('real')(3), operator.methodcaller('upper')('a'), operator.add(1, 2), operator.eq(1, 1), operator.not_(0),
            operator.contains([1], 1), operator.is_(None, None), operator.is_not(1, None), operator.truth([]), operator.getitem([4], 0), operator.or_(1, 2), operator.and_(3, 2), operator.concat([1], [2]), operator.mul(2, 3),
            operator.lt(1, 2), operator.ne(1, 2), operator.neg(1), operator.countOf([1, 1], 1), operator.indexOf([1, 2], 2)]


@functools.singledispatch
def sd(x):
    return 'object'


@sd.register(int)
def _(x):
    return 'int'


@sd.register
def _(x: str):
    return 'str'


@sd.register(list)
@sd.register(tuple)
def _(x):
    return 'seq'


@sd.register(type(None))
def _(x):
    return 'none'


@functools.lru_cache(maxsize=None)
def cached(x):
    return x * 2


@functools.total_ordering
class Ver:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return self.n == o.n

    def __lt__(self, o):
        return self.n < o.n


class Disp:
    @functools.singledispatchmethod
    def go(self, x):
        return 'base'

    @go.register(int)
    def _(self, x):
        return 'int'

    @go.register
    def _(self, x: str):
        return 'str'


def f_functools():
    p = functools.partial(lambda a, b=2, *c, **d: (a, b, c, d), 1)
    return [functools.reduce(operator.add, [1, 2, 3]), functools.reduce(lambda a, b: a + b, ['x', 'y'], ''), p(), p(5), p(b=7), p(3, 4, z=1), sorted([3, 1, 2], key=functools.cmp_to_key(lambda a, b: a - b)), sd(1), sd('x'), sd([1]), sd((1,)), sd(None),
            sd(2.5), sd(True), cached(4), cached(4), Ver(1) < Ver(2), Ver(1) >= Ver(2), Ver(1) <= Ver(1), Ver(3) > Ver(1), Disp().go(1), Disp().go('a'), Disp().go(None), p.args, p.func(1, 2), p.keywords, sd.dispatch(int)(1)]


def f_itertools():
    return [list(itertools.chain([1], (2, 3))), list(itertools.chain.from_iterable([[1], [2]])), list(itertools.islice([1, 2, 3, 4], 2)), list(itertools.islice(range(10), 2, 8, 2)), list(itertools.product('ab', [1, 2])), list(itertools.permutations([1, 2, 3], 2)),
            list(itertools.combinations([1, 2, 3], 2)), [(k, list(g)) for k, g in itertools.groupby([1, 1, 2])], [(k, list(g)) for k, g in itertools.groupby(['a', 'ab', 'b'], key=lambda s: s[0])], list(itertools.zip_longest([1, 2], [3])),
            list(itertools.zip_longest([1], [2, 3], fillvalue='x')), list(itertools.starmap(pow, [(2, 3)])), list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])), list(itertools.dropwhile(lambda x: x < 3, [1, 2, 3, 1])),
            list(itertools.accumulate([1, 2, 3])), list(itertools.repeat('x', 3)), list(itertools.compress('abc', [1, 0, 1])), list(itertools.filterfalse(lambda x: x, [0, 1, ''])), list(zip([1, 2], itertools.count(5))), list(zip('abc', itertools.cycle([0, 1]))),
            [list(t) for t in itertools.tee([1, 2])], list(itertools.pairwise([1, 2, 3])), next(itertools.count()), list(itertools.combinations_with_replacement([1, 2], 2))]


def f_strings():
    return [string.Template('$a ${b}').substitute(a=1, b='x'), string.Template('$a').safe_substitute(), string.ascii_lowercase[:3], string.digits, textwrap.dedent('  a\n  b'), textwrap.indent('a\nb', '  '), 'a-b_c'.translate(str.maketrans('-_', '  ')),
            'x'.join(reversed(['a', 'b'])), '{:>5}|{:<5}|{:^5}|{:*^7}'.format('a', 'b', 'c', 'd'), '{0}{1}{0}'.format('a', 'b'), '{a.real}'.format(a=3), '{a[0]}{a[1]}'.format(a=[1, 2]), '{:,.2f}'.format(1234.5), '{:+d}'.format(3), '{:08.3f}'.format(3.14159), '{:%Y-%m}'.format(datetime.date(2020, 1, 2)),
            '%-5s|%5s|%05d|%+.1f|%e' % ('a', 'b', 3, 2.25, 10.0), '%c%%' % 'x', '%s' % None, '%s %s' % ('a', [1]), 'a,b,,c'.split(','), ' a  b '.split(), 'a\nb\r\nc'.splitlines(), 'abc'.removeprefix('a'), 'abc'.removesuffix('c'), 'aXbX'.rpartition('X'), 'a'.ljust(3, '.'), 'Ab'.swapcase(), 'ab'.index('b'), 'abab'.rfind('a'),
            'a b'.title(), 'x' in 'xyz', 'abc'[::-1], 'abc'[-2:], 'a' * 0, 'é'.encode('utf-8'), 'a%sb'.replace('%s', 'X'), 'aaa'.replace('a', 'b', 2), '\\'.replace('\\', '\\\\'), "it's".replace("'", "''"), r'\d', f'{1 + 1}{"x":>3}{[1]!r}', f'{3.14159:.{2}f}', 'abc'.startswith(('x', 'a')), 'abc'.endswith(('c',)), 'a.b'.partition('.')[0],
            'tEsT'.capitalize(), 'abc'.zfill(5), '-5'.zfill(4), 'a\tb'.expandtabs(2), ''.join(sorted('cab')), 'abc'.find('z'), str(b'x'), str(b'x', 'ascii'), repr('a\'b"c'), ascii('é'), 'a' 'b', 'x'.isprintable(), '½'.isnumeric(), 'A'.isupper(), 'a b'.split(' ', 1), 'a=b=c'.rsplit('=', 1), chr(97) + chr(0x20ac), ord('€'), 'abc' > 'abd',
            min('b', 'a'), max(['a', 'b'], key=lambda c: -ord(c)), 'ab'.join('xyz'), ','.join(str(i) for i in range(3)), 'a'.__add__('b'), str.join(',', ['a', 'b']), 'a'.__class__.__name__, '{}'.format('{}'), '{{}}'.format(), 'a{!s}b{!r}'.format('x', 'y'), format('a', '>3'), format(5, '03d'), 'x'.__len__(), 'a' == 'a' == 'a', 'abc'.__contains__('b')]


def f_re():
    rx = re.compile(r'(?P<w>\w+)\s*(?P<n>\d+)?')
    return [rx.match('ab 12').groupdict(), rx.match('ab').group('n'), rx.pattern, [m.group() for m in re.finditer(r'\d', 'a1b2')], [m.span() for m in re.finditer(r'\d', 'a1b2')], re.findall(r'(\w)(\d)', 'a1b2'), re.sub(r'(\w)', r'<\1>', 'ab'), re.sub(r'\w', lambda m: m.group().upper(), 'ab'), re.subn('a', 'b', 'aa'),
            re.split(r'([,;])', 'a,b;c'), re.split(r',', 'a,b,c', maxsplit=1), re.fullmatch(r'a+', 'aaa').group(), re.search('b', 'abc').start(), re.escape('a.b*c'), bool(re.match('A', 'a', re.I)), re.sub(r'(?P<x>a)', r'\g<x>\g<x>', 'ba'), re.match(r'(a)|(b)', 'b').groups(), re.match(r'(a)|(b)', 'b').lastindex,
            re.sub(r'\s+', ' ', 'a  b\n c'), re.compile('x', re.I | re.S).search('aX').group(0), [t for t in re.split(r'(\d)', 'a1b') if t], re.sub('a', r'\\', 'a'), re.findall('[^,]+', 'a,b'), re.match(r'^(?:a|b)+$', 'abab') is not None, re.sub('', '-', 'ab'), re.match('a', 'b'), re.search(r'(?<=a)b', 'ab').group(), re.compile(r'a').fullmatch('a')[0]]


Point = namedtuple('Point', 'x y')
Pd = namedtuple('Pd', ['a', 'b'], defaults=[5])


class NT(typing.NamedTuple):
    a: int
    b: str = 'z'


def f_views():
    d = {'a': 1, 'b': 2}
    return [d.keys() == {'b', 'a'}, d.keys() == {'b': 3, 'a': 4}.keys(), d.items() == {('b', 2), ('a', 1)}, d.keys() == ['a', 'b'], d.values() == d.values(), d.keys() <= {'a', 'b', 'c'}, d.keys() > {'a'}, {'a'} < d.keys(), d.items() >= {('a', 1)}, d.keys() - {'a'}, 'x%s' % 'y', d.keys() != {'a'}]


def f_collections():
    d = deque([1, 2], maxlen=3)
    od = OrderedDict([('x', 1), ('y', 2)])
    od.move_to_end('x')
    return [Point(1, 2), Point(1, 2).x, Point(1, 2)._replace(x=5), Point(1, 2)._asdict(), Point._fields, Point(*[3, 4]), Point(1, 2) == (1, 2), Pd(1), Pd(1, 2), NT(1), NT(1, 'q').b, list(d), d[0], len(d), Counter('aab')['a'], Counter('aab').most_common(1), Counter([1])[5], sorted(Counter('ab').items()),
            list(od), od.popitem(), list(reversed(OrderedDict(a=1, b=2))), collections.defaultdict(list, {'a': [1]})['a'], isinstance(od, dict), isinstance({}, collections.abc.Mapping), isinstance([], collections.abc.Sequence), isinstance('a', collections.abc.Iterable),
            isinstance(5, collections.abc.Hashable), isinstance((x for x in []), collections.abc.Iterator), isinstance((x for x in []), types.GeneratorType), callable(len), isinstance(lambda: 1, types.FunctionType), isinstance({1}, collections.abc.Set)]


@dataclasses.dataclass
class DC:
    a: int
    b: str = 'x'
    c: list = dataclasses.field(default_factory=list)


@dataclasses.dataclass(frozen=True, order=True)
class FZ:
    a: int
    b: int = 0


class Color(enum.Enum):
    RED = 'r'
    BLUE = 'b'

    @property
    def up(self):
        return self.value.upper()


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2


class Auto(enum.Enum):
    A = enum.auto()
    B = enum.auto()


class Str(str, enum.Enum):
    X = 'xx'


def f_classes():
    return [DC(1), DC(1) == DC(1), DC(1, 'y').b, DC(1).c, dataclasses.asdict(DC(1)), dataclasses.replace(DC(1), a=2), FZ(1) < FZ(2), hash(FZ(1)) == hash(FZ(1)), FZ(1) == FZ(1, 0), [f.name for f in dataclasses.fields(DC)], dataclasses.astuple(FZ(1, 2)), Color.RED.value, Color.RED.name, Color('r') is Color.RED, Color['BLUE'].up, [c.value for c in Color], Color.RED == Color.RED,
            Color.RED in Color, Num.ONE + 1, Num.ONE < Num.TWO, Num(2).name, Auto.B.value, Str.X == 'xx', Str.X + 'y', Str.X.value, isinstance(Str.X, str), len(Color), Num.TWO == 2, '%d' % Num.TWO, [Num.ONE, 2][0] == 1, {Color.RED: 1}[Color.RED], str(Str.X.value), Color.__members__['RED'].value, repr(Color.RED), str(Color.RED), Num.ONE.value]


class Abs(abc.ABC):
    @abc.abstractmethod
    def f(self):
        return 'abs'

    @classmethod
    def make(cls, *a):
        return cls(*a)

    @staticmethod
    def st(x):
        return x

    @property
    @abc.abstractmethod
    def p(self):
        ...


class Con(Abs):
    count = 0
    __slots__ = ('v',)

    def __init__(self, v=1):
        self.v = v
        type(self).count += 1

    def f(self):
        return super().f() + 'con'

    @property
    def p(self):
        return self.v

    @p.setter
    def p(self, x):
        self.v = x

    def __getitem__(self, i):
        return i

    def __contains__(self, x):
        return x == self.v

    def __iter__(self):
        yield self.v

    def __len__(self):
        return 3

    def __call__(self, *a, **k):
        return a, k

    def __enter__(self):
        return self.v

    def __exit__(self, *a):
        return True

    def __bool__(self):
        return False

    def __radd__(self, o):
        return ('radd', o)

    def __rmod__(self, o):
        return 'rmod'

    def __format__(self, spec):
        return 'fmt' + spec

    def __index__(self):
        return 1


class Meta(type):
    def __new__(m, n, b, ns, **kw):
        ns['tag'] = n.lower() + str(kw.get('k', ''))
        return super().__new__(m, n, b, ns)

    def __getitem__(cls, x):
        return (cls.__name__, x)


class WithMeta(metaclass=Meta, k=3):
    def __init_subclass__(cls, **kw):
        cls.kw = kw


class SubMeta(WithMeta, z=1):
    pass


class Desc:
    def __set_name__(self, o, n):
        self.n = n

    def __get__(self, o, t=None):
        return ('get', self.n, o is None)


class HasDesc:
    d = Desc()

    def __getattr__(self, n):
        if n.startswith('dyn_'):
            return n[4:]
        raise AttributeError(n)


def err():
    try:
        return Abs()
    except TypeError:
        return 'abstract'


def withs():
    with Con(7) as v:
        raise ValueError('x')
    return v


@contextlib.contextmanager
def cm(x):
    try:
        yield x
    finally:
        x.append('end')


def cms():
    l = []
    with cm(l) as k, contextlib.suppress(KeyError):
        k.append(1)
        {}['x']
    return l


def f_objects():
    c = Con(4)
    h = HasDesc()
    return [c.f(), c.p, Con.make(9).v, Con.st(3), Abs.st(4), c[5], 4 in c, list(c), len(c), c(1, a=2), bool(c), 1 + c, 'x' % c, f'{c:z}', format(c), '{:q}'.format(c), [5, 6][c], err(), withs(), cms(), WithMeta.tag, WithMeta[3], SubMeta.kw, SubMeta.tag, h.d, HasDesc.d, h.dyn_x, getattr(h, 'zz', 'def'), hasattr(h, 'dyn_q'), hasattr(h, 'q'),
            isinstance(c, Abs), issubclass(Con, Abs), Con.__name__, c.__class__.__name__, [k.__name__ for k in Con.__mro__][:2], type(c) is Con, vars(h), getattr(c, 'p'), type('T', (), {'a': 1})().a, callable(c), Con.f(c), (lambda self: self)(5), copy.copy([1]), copy.deepcopy({'a': [1]}), any([]), all([]), id(c) == id(c), super(Con, c).f()]


def kwf(a, /, b, *, c=3, **k):
    return a, b, c, k


def gen():
    x = yield 1
    yield x
    yield from [3, 4]
    return 9


def g2():
    r = yield from gen()
    yield r


def matcher(x):
    match x:
        case int() | float() if x > 5:
            return 'big'
        case 0:
            return 'zero'
        case [a, *r]:
            return (a, r)
        case {'k': v, **rest}:
            return (v, rest)
        case str() as s:
            return s
        case Point(x=1, y=yy):
            return yy
        case None:
            return 'none'
        case _:
            return 'other'


def tries(n):
    out = []
    try:
        if n == 1:
            raise KeyError('k')
        if n == 2:
            raise ValueError('v') from KeyError('q')
        out.append('body')
    except (KeyError, IndexError) as e:
        out.append(repr(e))
    except ValueError as e:
        out.append((str(e), repr(e.__cause__)))
    else:
        out.append('else')
    finally:
        out.append('fin')
    return out


def loops():
    out = []
    for i in range(5):
        if i == 1:
            continue
        if i == 3:
            break
        out.append(i)
    else:
        out.append('no')
    while out and (n := len(out)) < 4:
        out.append(n)
    else:
        out.append('done')
    return out


def closure():
    x = 1

    def inc():
        nonlocal x
        x += 1
        return x
    inc()
    return inc(), x


def f_language():
    a, *b = [1, 2, 3]
    *q, z = 'xyz'
    (m, n), o = (1, 2), 3
    g = gen()
    return [kwf(1, 2), kwf(1, b=2, c=4, d=5), a, b, q, z, m + n + o, list(g2()), [next(g), g.send("s")], matcher(6), matcher(0), matcher([1, 2, 3]), matcher({'k': 1, 'j': 2}), matcher('s'), matcher(None), matcher(2.5), tries(0), tries(1), tries(2), loops(), closure(), [i * j for i in (1, 2) for j in (3, 4) if i + j > 4], {i: j for i, j in zip('ab', (1, 2))},
            {i % 2 for i in range(4)} == {0, 1}, (lambda *x, **y: (x, y))(*[1], *(2,), **{'a': 1}, **{'b': 2}), [*range(2), *'ab'], {**{'a': 1}, 'b': 2}, 1 if [] else 2, 1 < 2 < 3, not None or 0, [] or 'x', 5 and 6, (y := 5) + y, 7 // 2, -7 // 2, -7 % 3, 2 ** -1, 1_000, 0x1f, 1e3, 3 + 4j, divmod(7, 2), round(2.5), round(2.675, 2), round(15, -1), int('12'), int(' 7 '), int('ff', 16), float('1.5'), bool('0'), abs(-3), sum([1, 2], 10),
            min([3, 1]), max(1, 2, key=lambda v: -v), sorted([3, 1], reverse=True), list(reversed([1, 2])), list(enumerate('ab', 1)), list(map(lambda p, q: p + q, [1], [2])), list(filter(None, [0, 1])), tuple([1]), frozenset([1]) == {1}, bytes([65]), b'a' + b'b', bytearray(b'a') == b'a', isinstance(True, int), type(1) == int, [1, 2] < [1, 3], (1,) + (2,), [0] * 3, [1, 2, 3][::2], slice(1, 2).start, None is None,
            ... is Ellipsis, __name__ != '', {'a': 1} | {'b': 2}, {1, 2} & {2}, {1} ^ {2}, {1, 2} - {1}, {1} <= {1, 2}, dict(a=1).items() >= {('a', 1)}, list({'a': 1}.items()), dict([('a', 1)]), dict.fromkeys('ab', 0), {'a': 1}.setdefault('b', 2), [1].copy(), [3, 1, 2].index(1), eval('1 + 1') if False else 2, globals() is not None, list(zip(*[(1, 2), (3, 4)])), all(x for x in [1, 1]), next(iter([]), 'd'), iter([1]).__next__(), str(1.0), repr(1e20), str(10 ** 20), hash(1) == hash(1.0), 0.1 + 0.2]


def f_numbers():

    return [Decimal('1.10'), Decimal('1.10').quantize(Decimal('0.1')), '{:.2f}'.format(Decimal('1.005')), Decimal(1) / 3, Decimal('1e5'), str(Decimal('0E-7')), Decimal('1.5') + 1, Decimal('NaN').is_nan(), Decimal('2').normalize(), Decimal('12.50').normalize(), Decimal('1').as_tuple(), int(Decimal('3.7')), float(Decimal('0.5')), Decimal('-0'), Decimal('1.10') == Decimal('1.1'),
            '%.5f' % Decimal('1.123456789'), '{:f}'.format(Decimal('1E+3')), round(Decimal('2.5')), round(Decimal('2.567'), 2), 1.5.is_integer(), (1.5).as_integer_ratio(), (3).bit_length(), float('inf') > 1, repr(float('nan')), '%.5f' % 1e22, '{:.5f}'.format(0.1), format(1.0, 'g'), str(1e16), (5).to_bytes(2, 'big'), int.from_bytes(b'\x01\x00', 'big'), binascii.hexlify(b'ab'), b'ab'.hex(), bytes.fromhex('6162'), binascii.unhexlify('61'), Decimal('1.25').to_eng_string(), max(Decimal(1), 2)]


def f_dates():
    d = datetime.datetime(2020, 1, 2, 3, 4, 5, 6)
    t = datetime.date(2020, 1, 2)
    return [d.isoformat(), d.isoformat(' '), d.isoformat(timespec='seconds'), str(d), str(t), t.isoformat(), repr(t), d.strftime('%Y-%m-%d %H:%M'), d.date(), d.replace(microsecond=0), d + datetime.timedelta(days=1), t - datetime.date(2020, 1, 1), d == d, t < datetime.date(2021, 1, 1), isinstance(d, datetime.date), f'{d:%d.%m.%Y}', '{:%H}'.format(d), d.timetuple()[:3], t.year, d.tzinfo, datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc).isoformat(),
            datetime.timedelta(hours=1).total_seconds(), datetime.time(1, 2).isoformat(), t.weekday(), datetime.date.fromisoformat('2020-01-02'), d.time(), datetime.datetime.combine(t, datetime.time(1)), datetime.timezone(datetime.timedelta(hours=2)).utcoffset(None), t.toordinal()]
