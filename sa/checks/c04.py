"""C04: V() of a value of each type renders the literal of that type for each
backend, for every value of the type, and every value sink renders what V()
renders; collections render the list of their elements, empty ones are refused."""
import datetime
import decimal

from .. import strlib
from .common import *

KINDS = ['int', 'float', 'Decimal', 'True', 'False', 'bytes', 'date', 'datetime', 'None']
CONSTS = {
    'int': [0, 1, -1, 10 ** 20, 255],
    'float': [0.0, 1.5, -2.25, 1e20, 1e-9, 0.1, 123456.789, 2.675],
    'Decimal': [decimal.Decimal(x) for x in ('0', '1.5', '-0.1', '12345678901234567890.123456', '1E+3', '0.000001', '2.675')],
    'bytes': [b'', b'\x00', b'ab', b"'\\", bytes(range(256))],
    'date': [datetime.date(2020, 1, 2), datetime.date(1, 1, 1)],
    'datetime': [datetime.datetime(2020, 1, 2, 3, 4, 5), datetime.datetime(2020, 1, 2), datetime.datetime(1999, 12, 31, 23, 59, 59, 5),
                 datetime.datetime(2020, 1, 2, 3, 4, 5, tzinfo=datetime.timezone.utc)],
}


def lit(S, kind, v, b):
    """The literal of the specification."""
    pg = b == 'postgresql'
    if kind == 'None':
        return 'NULL'
    if kind in ('True', 'False'):
        return ('true' if v else 'false') if pg else ('1' if v else '0')
    if kind == 'int':
        return str(v) if isinstance(v, int) else strlib.sym_text(v)
    if kind in ('float', 'Decimal'):
        return strlib.sym_format(S.ip, v, '.5f') if isinstance(v, Sym) else format(v, '.5f')
    if kind == 'bytes':
        h = v.hex() if isinstance(v, bytes) else SStr((Atom(v.label, 'hex'),))
        return cat("E'\\\\x", h, "'") if pg else cat("x'", h, "'")
    if kind in ('date', 'datetime'):
        return cat("'", v.isoformat() if not isinstance(v, Sym) else SStr((Atom(v.label, 'iso'),)), "'")
    raise KeyError(kind)


def sel(S):
    return S.call('select_from', 't')


def head(S):
    return cat('SELECT * FROM ', S.R('t'))


def upd(S):
    return S.m(S.call('update', 't'), 'allow_update_all')


def eqis(S, c, v):
    return cat(S.R(c), ' IS ' if v is None else ' = ')


SINKS = {
    'V(V(x))': (None, lambda S, x: S.call('V', S.call('V', x)), lambda S, x, l: l),
    'R(V(x))': (None, lambda S, x: S.call('R', S.call('V', x)), lambda S, x, l: l),
    'column V(x)': (None, lambda S, x: S.call('select', S.call('V', x)), lambda S, x, l: cat('SELECT ', l)),
    'aliased column V(x)': (None, lambda S, x: S.call('select', S.tuple(S.call('V', x), 'al')), lambda S, x, l: cat('SELECT ', l, ' AS ', S.R('al'))),
    'function V(x)': (None, lambda S, x: S.call('sum', S.call('V', x)), lambda S, x, l: cat('SUM(', l, ')')),
    'order by V(x)': (None, lambda S, x: S.m(sel(S), 'order_by', S.call('V', x)), lambda S, x, l: cat(head(S), ' ORDER BY ', l)),
    'where': ('bytes', lambda S, x: S.m(sel(S), 'where', c=x), lambda S, x, l: cat(head(S), ' WHERE ', eqis(S, 'c', x), l)),
    'where V(x)': (None, lambda S, x: S.m(sel(S), 'where', c=S.call('V', x)), lambda S, x, l: cat(head(S), ' WHERE ', eqis(S, 'c', x), l)),
    'where EQ(V(x))': (None, lambda S, x: S.m(sel(S), 'where', c=S.rel('EQ', S.call('V', x))), lambda S, x, l: cat(head(S), ' WHERE ', S.R('c'), ' = ', l)),
    'having': ('bytes', lambda S, x: S.m(sel(S), 'having', c=x), lambda S, x, l: cat(head(S), ' HAVING ', eqis(S, 'c', x), l)),
    'on': ('bytes', lambda S, x: S.chain(sel(S), ('join', 'u'), ('on', ('c', x))), lambda S, x, l: cat(head(S), ' JOIN ', S.R('u'), ' ON ', eqis(S, 'c', x), l)),
    'IN': ('None', lambda S, x: S.m(sel(S), 'where', c=S.list('k', x)), lambda S, x, l: cat(head(S), ' WHERE ', S.R('c'), " IN ('k', ", l, ')')),
    'NOT IN': ('None', lambda S, x: S.m(sel(S), 'where', c=S.rel('NOT_IN', x, 'k')), lambda S, x, l: cat(head(S), ' WHERE ', S.R('c'), ' NOT IN (', l, ", 'k')")),
    'Q': ('bytes', lambda S, x: S.op('BitAnd', S.call('Q', c=x), S.call('Q', d=x)),
          lambda S, x, l: cat('(', eqis(S, 'c', x), l, ' AND ', eqis(S, 'd', x), l, ')')),
    'set': (None, lambda S, x: S.m(upd(S), 'set', a=x), lambda S, x, l: cat('UPDATE ', S.R('t'), ' SET ', S.R('a'), ' = ', l)),
    'insert': (None, lambda S, x: S.m(S.call('insert_into', 't'), 'values', a=x, b=x),
               lambda S, x, l: cat('INSERT INTO ', S.R('t'), ' (', S.R('a'), ', ', S.R('b'), ') VALUES (', l, ', ', l, ')')),
    'V(list)': (None, lambda S, x: S.call('V', S.list(x, 'k', x)), lambda S, x, l: cat('(', l, ", 'k', ", l, ')')),
    'V(tuple)': (None, lambda S, x: S.call('V', S.tuple(x)), lambda S, x, l: cat('(', l, ')')),
    'V(set)': (None, lambda S, x: S.call('V', S.set(x)), lambda S, x, l: cat('(', l, ')')),
    'V(frozenset)': (None, lambda S, x: S.call('V', S.set(x, kind='frozenset')), lambda S, x, l: cat('(', l, ')')),
    'V(generator)': (None, lambda S, x: S.call('V', S.gen(x, x)), lambda S, x, l: cat('(', l, ', ', l, ')')),
    'V(nested)': (None, lambda S, x: S.call('V', S.list(S.tuple(x, S.list(x)), x)), lambda S, x, l: cat('((', l, ', (', l, ')), ', l, ')')),
    'separator': (None, lambda S, x: S.m(S.call('group_concat', 'c'), 'separator', S.call('V', x)), lambda S, x, l: cat('GROUP_CONCAT(', S.R('c'), ' SEPARATOR ', l, ')')),
}


def embed_positions(S, o, t):
    """Objects in which the SQL object o (text t) is embedded as a value or part."""
    yield 'column', S.call('select', o), cat('SELECT ', t)
    yield 'column alias pair', S.call('select', S.tuple(o, 'al')), cat('SELECT ', t, ' AS ', S.R('al'))
    yield 'where value', S.m(sel(S), 'where', c=S.rel('EQ', o)), cat(head(S), ' WHERE ', S.R('c'), ' = ', t)
    yield 'where column', S.m(sel(S), 'where', o, 1), cat(head(S), ' WHERE ', t, ' = 1')
    yield 'where dict key', S.m(sel(S), 'where', S.dict((o, 1))), cat(head(S), ' WHERE ', t, ' = 1')
    yield 'list element', S.m(sel(S), 'where', c=S.list(o, 2)), cat(head(S), ' WHERE ', S.R('c'), ' IN (', t, ', 2)')
    yield 'LIKE', S.m(sel(S), 'where', c=S.rel('LIKE', o)), cat(head(S), ' WHERE ', S.R('c'), ' LIKE ', t)
    yield 'having', S.m(sel(S), 'having', o, S.rel('NE', o)), cat(head(S), ' HAVING ', t, ' != ', t)
    yield 'on', S.chain(sel(S), ('join', 'u'), ('on', (o, o))), cat(head(S), ' JOIN ', S.R('u'), ' ON ', t, ' = ', t)
    yield 'group by', S.m(sel(S), 'group_by', o), cat(head(S), ' GROUP BY ', t)
    yield 'order by', S.m(sel(S), 'order_by', S.tuple(o, 'desc')), cat(head(S), ' ORDER BY ', t, ' DESC')
    yield 'from', S.call('select_from', o), cat('SELECT * FROM ', t)
    yield 'from alias', S.call('select_from', S.tuple(o, 'al')), cat('SELECT * FROM ', t, ' AS ', S.R('al'))
    yield 'join pair', S.m(sel(S), 'join', S.tuple(o, 'al')), cat(head(S), ' JOIN ', t, ' AS ', S.R('al'))
    yield 'set', S.m(upd(S), 'set', a=o), cat('UPDATE ', S.R('t'), ' SET ', S.R('a'), ' = ', t)
    yield 'set column', S.m(upd(S), 'set', o, 1), cat('UPDATE ', S.R('t'), ' SET ', t, ' = 1')
    yield 'insert value', S.m(S.call('insert_into', 't'), 'values', a=o), cat('INSERT INTO ', S.R('t'), ' (', S.R('a'), ') VALUES (', t, ')')
    yield 'function', S.call('max', o), cat('MAX(', t, ')')
    yield 'function tuple', S.call('count', S.tuple(o, 'c')), cat('COUNT(', t, ', ', S.R('c'), ')')
    yield 'concat', S.call('concat', 'c', o), cat('CONCAT(', S.R('c'), ', ', t, ')')
    yield 'convert', S.call('convert', o, 'char'), cat('CONVERT(', t, ', CHAR)')
    yield 'V', S.call('V', o), t
    yield 'R', S.call('R', o), t
    yield 'Not', S.call('Not', o), cat('NOT(', t, ')')


def obligations(tier):
    for b in BACKENDS:
        for kind in KINDS:
            def ob(S, b=b, kind=kind):
                S.configure(b)
                x = S.scalar(kind, 'x')
                S.expect(S.V(x), lit(S, kind, x, b), 'V(%s) on %s' % (kind, b))
                for c in CONSTS.get(kind, ()):
                    S.expect(S.V(c), lit(S, kind, c, b), 'V(%r) on %s' % (c, b))
            yield 'literal/%s/%s' % (b, kind), ob
            for name, (skip, f, spec) in SINKS.items():
                if skip == kind:
                    continue

                def ob(S, b=b, kind=kind, f=f, spec=spec, name=name):
                    S.configure(b)
                    x = S.scalar(kind, 'x')
                    S.expect(f(S, x), spec(S, x, lit(S, kind, x, b)), '%s of %s on %s' % (name, kind, b))
                    for c in CONSTS.get(kind, ())[:2]:
                        S.expect(f(S, c), spec(S, c, lit(S, kind, c, b)), '%s of %r on %s' % (name, c, b))
                yield 'sink/%s/%s/%s' % (b, kind, name), ob

        def upsert(S, b=b):
            S.call('configure', b)
            for kind in KINDS:
                x = S.scalar(kind, 'x' + kind)
                q = S.m(S.call('insert_into', 't'), 'values', a=1)
                q = S.m(q, 'on_duplicate_key_update', *(('id',) if b == 'postgresql' else ()), u=x)
                t = S.text(q)
                S.check(show(t).endswith(show(cat(S.R('u'), ' = ', lit(S, kind, x, b)))), 'upsert value of %s on %s renders %s' % (kind, b, show(t)))
        if b in ('mysql', 'postgresql'):
            yield 'sink/%s/upsert' % b, upsert

        def rng(S, b=b):
            S.call('configure', b)
            S.expect(S.V(S.range(3)), '(0, 1, 2)', 'V(range(3))')
            S.expect(S.V(S.range(5, 1, -2)), '(5, 3)', 'V(range(5,1,-2))')
            S.expect(S.V(S.range(0, 1)), '(0)', 'V(range(0,1))')
            S.expect(S.m(sel(S), 'where', c=S.range(2)), cat(head(S), ' WHERE ', S.R('c'), ' IN (0, 1)'), 'where range')
            S.expect(S.V(S.list(True, 1, 1.0, None, '')), '(%s, 1, 1.00000, NULL, \'\')' % lit(S, 'True', True, b), 'mixed list')
            S.expect(S.V(S.list(0, False, 0.0)), '(0, %s, 0.00000)' % lit(S, 'False', False, b), 'falsy list')
            S.expect(S.V(S.list(None)), '(NULL)', 'V([None])')
            S.expect(S.V(S.tuple(0)), '(0)', 'V((0,))')
            t = S.text(S.call('V', S.set(1, 'a')))
            S.check(t in ("(1, 'a')", "('a', 1)"), 'V(set) renders %s' % show(t))
        yield 'collection/%s/constants' % b, rng

        def subs(S, b=b):
            # instances of a caller's subclass render as the type they extend
            S.configure(b)
            for v, t in (('int', (7,)), ('int', (0,)), ('float', (1.5,)), ('float', (0.0,))):
                l = lit(S, v, t[0], b)
                S.expect(S.V(S.sub(v, *t)), l, 'V(subclass of %s)' % v)
                S.expect(S.V(S.list(S.sub(v, *t))), cat('(', l, ')'), 'V([subclass of %s])' % v)
                S.expect(S.m(sel(S), 'where', c=S.sub(v, *t)), cat(head(S), ' WHERE ', S.R('c'), ' = ', l), 'where')
                S.expect(S.m(upd(S), 'set', a=S.sub(v, *t)), cat('UPDATE ', S.R('t'), ' SET ', S.R('a'), ' = ', l), 'set')
                # ... whatever they look like when they are printed
                own = S.sub(v, *t, text='my number')
                S.expect(S.V(own), l, 'V(subclass of %s with its own text)' % v)
                S.expect(S.V(S.list(own, own)), cat('(', l, ', ', l, ')'), 'V([subclass of %s with its own text])' % v)
                S.expect(S.m(sel(S), 'where', c=S.rel('GE', own)), cat(head(S), ' WHERE ', S.R('c'), ' >= ', l), 'where')
                S.expect(S.m(upd(S), 'set', a=own), cat('UPDATE ', S.R('t'), ' SET ', S.R('a'), ' = ', l), 'set')
            for k in ('list', 'tuple', 'set', 'frozenset'):
                S.expect(S.V(S.sub(k, S.list(3))), '(3)', 'V(subclass of %s)' % k)
                S.expect_raise(lambda: S.V(S.sub(k, S.list())), INVALID, what='V(empty subclass of %s)' % k)
            S.expect(S.m(sel(S), 'where', c=S.rel('IN', S.sub('list', S.list(1, 2)))), cat(head(S), ' WHERE ', S.R('c'), ' IN (1, 2)'), 'IN')
        yield 'collection/%s/subclasses' % b, subs

        for outer in ('list', 'tuple', 'gen'):
            def nest(S, b=b, outer=outer):
                S.configure(b)
                x, y = S.int('x'), S.str('y')
                lx, ly = lit(S, 'int', x, b), S.V(y)
                inner = {'list': lambda *a: S.list(*a), 'tuple': lambda *a: S.tuple(*a), 'gen': lambda *a: S.gen(*a),
                         'set': lambda *a: S.set(a[0]), 'frozenset': lambda *a: S.set(a[0], kind='frozenset')}
                for k, f in inner.items():
                    one = k in ('set', 'frozenset')
                    lone, ltwo = cat('(', lx, ')'), cat('(', lx, ')') if one else cat('(', lx, ', ', ly, ')')
                    for what, items, ls in (('one', lambda: [f(x)], [lone]), ('two of one', lambda: [f(x), f(x)], [lone, lone]),
                                            ('one of two', lambda: [f(x, y)], [ltwo]), ('two of two', lambda: [f(x, y), f(x, y)], [ltwo, ltwo]),
                                            ('mixed', lambda: [x, f(x), None, f(x, y)], [lx, lone, 'NULL', ltwo]),
                                            ('two levels', lambda: [S.list(f(x)), S.tuple(f(x, y))], [cat('(', lone, ')'), cat('(', ltwo, ')')])):
                        S.expect(S.V(getattr(S, outer)(*items())), cat('(', join(', ', ls), ')'), '%s of %s: %s on %s' % (outer, k, what, b))
                        if outer == 'list' and what != 'mixed':
                            S.expect(S.m(sel(S), 'where', c=S.rel('IN', S.list(*items()))), cat(head(S), ' WHERE ', S.R('c'), ' IN (', join(', ', ls), ')'),
                                     'IN list of %s: %s on %s' % (k, what, b))
                S.expect(S.V(getattr(S, outer)(S.range(2), S.range(5, 6))), '((0, 1), (5))', '%s of ranges' % outer)
            yield 'collection/%s/collections in a %s' % (b, outer), nest

        def many(S, b=b):
            S.configure(b)
            xs = [S.int('m0'), S.int('m1'), S.int('m2')]
            for n in range(1, 4):
                for k in ('list', 'tuple', 'gen'):
                    S.expect(S.call('V', getattr(S, k)(*xs[:n])), cat('(', join(', ', [lit(S, 'int', x, b) for x in xs[:n]]), ')'), 'V(%s of %d)' % (k, n))
        yield 'collection/%s/every length up to 3' % b, many

        def empty(S, b=b):
            S.call('configure', b)
            for name, v in (('list', S.list()), ('tuple', S.tuple()), ('set', S.set()), ('frozenset', S.set(kind='frozenset')), ('range', S.range(0)),
                            ('generator', S.gen())):
                S.expect_raise(lambda: S.V(v), INVALID, what='V(empty %s) on %s' % (name, b))
                S.expect_raise(lambda: S.V(S.list(1, S.list() if name in ('list', 'generator') else v)), INVALID, what='V([1, empty %s]) on %s' % (name, b))
                v2 = S.gen() if name == 'generator' else v
                if name not in ('set', 'frozenset'):
                    S.expect_raise(lambda: S.text(S.m(sel(S), 'where', c=v2)), INVALID, what='where c in empty %s on %s' % (name, b))
            for rel in ('IN', 'NOT_IN'):
                S.expect_raise(lambda: S.text(S.m(sel(S), 'where', c=S.rel(rel, S.list()))), INVALID, what='%s([]) on %s' % (rel, b))
                S.expect_raise(lambda: S.text(S.m(sel(S), 'where', c=S.rel(rel))), INVALID, what='%s() on %s' % (rel, b))
        yield 'collection/%s/empty is refused' % b, empty

        for name, mkobj in (('C', lambda S: (S.call('C', cat('(', S.str('c'), ')')), cat('(', S.str('c'), ')'))),
                            ('V', lambda S: (S.call('V', S.int('n')), S.V(S.int('n')))),
                            ('V(str)', lambda S: (S.call('V', "q's"), "'q''s'")),
                            ('R', lambda S: (S.call('R', 'r.s'), S.R('r.s')))):
            def ob(S, b=b, mkobj=mkobj, name=name):
                S.configure(b)
                o, t = mkobj(S)
                S.expect(o, t, name)
                for where, got, want in embed_positions(S, o, t):
                    S.expect(got, want, '%s as %s on %s' % (name, where, b))
            yield 'embed/%s/%s object is the same everywhere' % (b, name), ob

    def custom(S):
        x = S.str('x')
        S.expect(S.call('C', x), x, 'C(x)')
        S.expect(S.m(S.call('C', x), 'tosql'), x, 'C(x).tosql()')
        S.expect(S.repr(S.call('C', x)), cat('<CustomSql: ', x, '>'), 'repr(C(x))')
        S.expect(S.call('C', S.call('C', x)), x, 'C(C(x))')
    yield 'embed/C is verbatim', custom
    for bad in ("a'b", 'a\\b', '%s', '{0}', '%', '{', '"q"', 'a.b', 'a\nb', 'a  b'):
        def ob(S, bad=bad):
            S.expect(S.call('C', bad), bad, 'C(%r)' % bad)
            for where, got, want in embed_positions(S, S.call('C', bad), bad):
                S.expect(got, want, 'C(%r) as %s' % (bad, where))
        yield 'embed/C(%r) is verbatim' % bad, ob
