import decimal
import re
import datetime
from collections import OrderedDict, defaultdict


class MyStr(str):
    pass


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDict(dict):
    pass


class MySet(set):
    pass


class MyBytes(bytes):
    pass


def f_sub_str():
    s = MyStr("it's a.b")
    out = []
    out.append('%s|%r' % (s, s))
    out.append('{}|{!r}|{:>12}'.format(s, s, s))
    out.append(f'{s}|{s!r}|{s:>12}')
    out.append(s + 'x')
    out.append('x' + s)
    out.append(s * 2)
    out.append(s.replace("'", "''"))
    out.append(s.upper().lower().strip())
    out.append(s.split('.'))
    out.append(s.partition('.'))
    out.append(re.split(r'\.', s))
    out.append(re.sub('a', 'b', s))
    out.append(bool(re.match('it', s)))
    out.append(re.escape(s))
    out.append(','.join([s, s]))
    out.append(s.join(['1', '2']))
    out.append('a' in s)
    out.append(s in ('x', "it's a.b"))
    out.append(s == "it's a.b")
    out.append("it's a.b" == s)
    out.append(s != 'x')
    out.append(s < 'z')
    out.append(hash(s) == hash("it's a.b"))
    out.append(len(s))
    out.append(s[0])
    out.append(s[1:3])
    out.append(list(s))
    out.append([c for c in s])
    out.append(''.join(map(lambda c: {"'": '"'}.get(c, c), s)))
    out.append(s.translate({39: '"'}))
    out.append({s: 1}["it's a.b"])
    out.append({"it's a.b": 2}[s])
    out.append(s.startswith('it'))
    out.append(s.endswith('b'))
    out.append(str(s))
    out.append(type(str(s)).__name__)
    out.append(isinstance(s, str))
    out.append(type(s).__name__)
    out.append(sorted([s, 'a', 'z']))
    out.append(max(s, 'a'))
    out.append(s.encode('utf-8'))
    out.append(s.isdigit())
    out.append(s.find('a'))
    out.append(s.count('a'))
    out.append(bool(MyStr('')))
    out.append('%(k)s' % {'k': s})
    out.append('{k}'.format(k=s))
    out.append('{0[0]}'.format(s))
    out.append(s.format())
    out.append(s.casefold())
    out.append(s.title())
    out.append(s.rsplit('.', 1))
    out.append(s.center(12, '-'))
    out.append(repr(s))
    out.append(format(s, '>10'))
    out.append([x for x in reversed(s)])
    out.append(list(enumerate(s))[:1])
    out.append(list(zip(s, s))[:1])
    out.append(any(c == "'" for c in s))
    out.append(s.isidentifier())
    return out


def f_sub_int():
    i = MyInt(7)
    out = ['%d|%s|%r|%i|%x|%05d' % (i, i, i, i, i, i)]
    out.append('{:d}|{}|{!r}|{:05d}|{:,}'.format(i, i, i, i, i))
    out.append(f'{i:d}|{i}|{i:>4}')
    out.append(str(i))
    out.append(repr(i))
    out.append([i + 1, 1 + i, i * 2, i - 1, 10 - i, i // 2, i % 3, -i, abs(i), i ** 2, i / 2, divmod(i, 2), i & 3, i | 8, ~i, i << 1])
    out.append([i == 7, 7 == i, i != 7, i < 8, i > 8, i <= 7, i >= 7])
    out.append([1, 2, 3, 4, 5, 6, 7, 8][i])
    out.append('abcdefgh'[:i])
    out.append(list(range(i)))
    out.append(isinstance(i, int))
    out.append(isinstance(i, bool))
    out.append(int(i))
    out.append(type(int(i)).__name__)
    out.append(float(i))
    out.append(bool(MyInt(0)))
    out.append({7: 'x'}[i])
    out.append(i in (1, 7))
    out.append(hash(i) == hash(7))
    out.append(sorted([i, 3, 9]))
    out.append(max(i, 3))
    out.append(sum([i, i]))
    out.append(int.__str__(i))
    out.append(format(i, 'd'))
    out.append('ab' * i)
    out.append(decimal.Decimal(i))
    out.append(bin(i))
    out.append(hex(i))
    out.append(chr(i + 60))
    out.append(round(i))
    out.append(i.bit_length())
    return out


def f_sub_float():
    x = MyFloat(2.5)
    return ['%f|%.2f|%s|%r|%g' % (x, x, x, x, x), '{:.5f}|{}|{:f}'.format(x, x, x), f'{x:.1f}|{x}', str(x), repr(x), x + 1, 1 + x, x * 2, x == 2.5, x < 3, int(x), round(x), float(x),
            bool(MyFloat(0)), isinstance(x, float), type(x).__name__, decimal.Decimal(x), format(x, '.3f'), x.is_integer(), -x, abs(x), max(x, 1.0), sorted([x, 1.0])]


def f_sub_list():
    l = MyList([1, None, 'a'])
    out = [len(l), l[0], l[1:], list(l), [x for x in l], 1 in l, l == [1, None, 'a'], [1, None, 'a'] == l, l + [2], [2] + l, l * 2, tuple(l), bool(MyList()), isinstance(l, list), l.index('a'), l.count(1),
           ', '.join(map(str, l)), repr(l), str(l), '%s' % (l,), '{}'.format(l), [*l], sum(MyList([1, 2])), sorted(MyList([2, 1])), list(reversed(l)), l.copy(), dict(MyList([('a', 1)]))]
    a, b, c = l
    out.append((a, b, c))
    l.append(5)
    out.append(l[-1])
    t = MyTuple((1, 2))
    out += [len(t), t[0], list(t), t == (1, 2), (1, 2) == t, t + (3,), isinstance(t, tuple), '%s-%s' % t, repr(t), hash(t) == hash((1, 2)), {(1, 2): 5}[t], t < (1, 3), 2 in t, (lambda *a: a)(*t)]
    return out


def f_sub_dict():
    d = MyDict(a=1, b=2)
    out = [len(d), d['a'], list(d), list(d.items()), sorted(d), list(d.keys()), list(d.values()), 'a' in d, d.get('x', 5), d == {'a': 1, 'b': 2}, {'a': 1, 'b': 2} == d, isinstance(d, dict), bool(MyDict()),
           dict(d), {**d}, (lambda **k: sorted(k))(**d), repr(d), '%(a)s' % d, '{a}'.format(**d), d != {}, dict(d, c=3), d | {'z': 1}, [k for k in d], list(d.copy())]
    d['c'] = 3
    d.update(e=4)
    out += [list(d), d.pop('c'), d.setdefault('q', 1), list(reversed(d))]
    dd = defaultdict(int, a=1)
    out += [sorted(dd.items()), dd['zz'], isinstance(dd, dict), dict(dd)]
    o = OrderedDict([('b', 1), ('a', 2)])
    out += [list(o), isinstance(o, dict), isinstance(dd, OrderedDict), o == {'a': 2, 'b': 1}]
    return out


def f_sub_set_bytes():
    s = MySet([1])
    b = MyBytes(b'ab\x00')
    return [len(s), list(s), 1 in s, s == {1}, {1} == s, s | {2}, isinstance(s, set), bool(MySet()), sorted(s), b.hex(), len(b), list(b), b == b'ab\x00', b'ab\x00' == b, isinstance(b, bytes), b + b'x', b[0], b[:1],
            b.decode('ascii'), bytes(b), repr(b), '%s' % (b,), ''.join('{:02x}'.format(x) for x in b), '%02x%02x%02x' % tuple(b), b.replace(b'a', b'c'), b.startswith(b'a')]


class Mixed(MyStr):
    extra = 5

    def shout(self):
        return self.upper() + '!'

    def __str__(self):
        return 'custom'


def f_sub_methods():
    m = Mixed('abc')
    return [m.shout(), m.extra, str(m), '%s' % m, '{}'.format(m), f'{m}', m + '', ''.join([m]), m == 'abc', super(Mixed, m).upper(), str.__str__(m), str.upper(m), len(m)]
