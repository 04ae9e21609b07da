"""C06: IN / NOT IN with None among the elements: every position and count of
None among up to four abstract elements, every way of passing them, rendering
repeated; falsy elements are kept."""
import itertools
from .common import *

OPS = {'IN': ('IN', ' OR ', ' IS NULL'), 'NOT_IN': ('NOT IN', ' AND ', ' IS NOT NULL')}


def spec(S, rel, col, items, ref=False):
    op, glue, null = OPS[rel]
    c = S.R(col)
    rest = [x for x in items if x is not None]
    has = len(rest) != len(items)
    plain = cat(c, ' ', op, ' (', join(', ', [S.V(x) for x in rest]), ')')
    if not has:
        return plain
    if not rest:
        return cat(c, null)
    return cat('(', plain, glue, c, null, ')')


FORMS = {
    'list': lambda S, rel, xs: S.rel(rel, S.list(*xs)),
    'tuple': lambda S, rel, xs: S.rel(rel, S.tuple(*xs)),
    'generator': lambda S, rel, xs: S.rel(rel, S.gen(*xs)),
    'arguments': lambda S, rel, xs: S.rel(rel, *xs) if len(xs) > 1 else S.rel(rel, S.list(*xs)),
    'bare list': lambda S, rel, xs: S.list(*xs) if rel == 'IN' else S.rel(rel, S.list(*xs)),
    'bare tuple': lambda S, rel, xs: S.tuple(*xs) if rel == 'IN' else S.rel(rel, S.tuple(*xs)),
    'bare generator': lambda S, rel, xs: S.gen(*xs) if rel == 'IN' else S.rel(rel, S.gen(*xs)),
}


def patterns(n):
    """Element kinds: N is None, i an abstract integer, others constants."""
    for k in range(1, n + 1):
        for p in itertools.product('Ni', repeat=k):
            yield p


def elems(S, p):
    return [None if c == 'N' else S.int('e%d' % i) for i, c in enumerate(p)]


FALSY = [0, '', False, 0.0]


def obligations(tier):
    n = 4 if tier == 'quick' else 5
    for rel in OPS:
        for form, f in FORMS.items():
            def ob(S, rel=rel, form=form, f=f):
                for p in patterns(n):
                    xs = elems(S, p)
                    q = S.m(S.call('select_from', 't'), 'where', c=f(S, rel, xs))
                    want = cat('SELECT * FROM "t" WHERE ', spec(S, rel, 'c', xs))
                    S.expect(q, want, '%s of %s as %s' % (rel, ''.join(p), form))
                    S.expect(q, want, '%s of %s as %s rendered again' % (rel, ''.join(p), form))
                    S.expect(S.m(q, 'copy'), want, 'copy')
            yield 'null/%s/%s' % (rel, form), ob

        def falsy(S, rel=rel):
            for form, f in FORMS.items():
                for x in FALSY:
                    for xs in ([x], [x, None], [None, x], [x, 1], [1, x, None], [None, x, None], [x, x]):
                        q = S.m(S.call('select_from', 't'), 'where', c=f(S, rel, xs))
                        want = cat('SELECT * FROM "t" WHERE ', spec(S, rel, 'c', xs))
                        S.expect(q, want, '%s of %r as %s' % (rel, xs, form))
        yield 'null/%s/falsy elements' % rel, falsy
        for clause in ('having', 'on', 'Q', 'Not', 'delete', 'two columns', 'same column twice'):
            def ob(S, rel=rel, clause=clause):
                for p in patterns(3):
                    xs = elems(S, p)
                    v = S.rel(rel, S.list(*xs))
                    w = spec(S, rel, 'c', xs)
                    what = '%s of %s in %s' % (rel, ''.join(p), clause)
                    if clause == 'having':
                        S.expect(S.m(S.call('select_from', 't'), 'having', c=v), cat('SELECT * FROM "t" HAVING ', w), what)
                    elif clause == 'on':
                        S.expect(S.chain(S.call('select_from', 't'), ('join', 'u'), ('on', ('c', v))), cat('SELECT * FROM "t" JOIN "u" ON ', w), what)
                    elif clause == 'Q':
                        S.expect(S.op('BitOr', S.call('Q', c=v), S.call('Q', d=1)), cat('(', w, ' OR "d" = 1)'), what)
                    elif clause == 'Not':
                        S.expect(S.call('Not', c=v), cat('NOT(', w, ')'), what)
                    elif clause == 'delete':
                        S.expect(S.m(S.call('delete_from', 't'), 'where', c=v), cat('DELETE FROM "t" WHERE ', w), what)
                    elif clause == 'two columns':
                        S.expect(S.m(S.call('select_from', 't'), 'where', c=v, d=S.rel(rel, S.list(*xs))),
                                 cat('SELECT * FROM "t" WHERE ', w, ' AND ', spec(S, rel, 'd', xs)), what)
                    else:
                        other = 'IN' if rel == 'NOT_IN' else 'NOT_IN'
                        S.expect(S.m(S.call('select_from', 't'), 'where', S.list(S.tuple('c', v), S.tuple('c', S.rel(other, S.list(*xs))))),
                                 cat('SELECT * FROM "t" WHERE ', w, ' AND ', spec(S, other, 'c', xs)), what)
            yield 'null/%s/in %s' % (rel, clause), ob

        def kinds(S, rel=rel):
            vals = [S.scalar(k, 'x' + k) for k in ('str', 'float', 'date', 'Decimal', 'bytes')] + [True, False]
            for i in range(len(vals) + 1):
                xs = vals[:i] + [None] + vals[i:]
                S.expect(S.m(S.call('select_from', 't'), 'where', c=S.rel(rel, S.list(*xs))), cat('SELECT * FROM "t" WHERE ', spec(S, rel, 'c', xs)), '%s of mixed types' % rel)
            S.expect(S.m(S.call('select_from', 't'), 'where', c=S.rel(rel, S.list(*vals))), cat('SELECT * FROM "t" WHERE ', spec(S, rel, 'c', vals)), '%s of mixed types' % rel)
        yield 'null/%s/mixed element types' % rel, kinds

        def objs(S, rel=rel):
            for o, t in ((S.call('C', 'cu'), 'cu'), (S.call('R', 'r'), '"r"'), (S.call('V', 1), '1'), (sub(S), cat('(', S.text(sub(S)), ')'))):
                op, glue, null = OPS[rel]
                S.expect(S.m(S.call('select_from', 't'), 'where', c=S.rel(rel, S.list(o, None, 2))),
                         cat('SELECT * FROM "t" WHERE ("c" ', op, ' (', t, ', 2)', glue, '"c"', null, ')'), '%s with SQL object and None' % rel)
                S.expect(S.m(S.call('select_from', 't'), 'where', c=S.rel(rel, S.list(o))),
                         cat('SELECT * FROM "t" WHERE "c" ', op, ' (', t, ')'), '%s with SQL object' % rel)
            for b in BACKENDS:
                S.call('configure', b)
                xs = [S.int('b0'), None]
                S.expect(S.m(S.call('select_from', 't'), 'where', c=S.rel(rel, S.list(*xs))),
                         cat('SELECT * FROM ', S.R('t'), ' WHERE ', spec(S, rel, 'c', xs)), '%s on %s' % (rel, b))
        yield 'null/%s/SQL objects and backends' % rel, objs

        def rng(S, rel=rel):
            S.expect(S.m(S.call('select_from', 't'), 'where', c=S.rel(rel, S.range(3))), cat('SELECT * FROM "t" WHERE ', spec(S, rel, 'c', [0, 1, 2])), 'range')
            q = S.m(S.call('select_from', 't'), 'where', c=S.rel(rel, S.gen(S.int('g0'), None, S.int('g1'))))
            w = cat('SELECT * FROM "t" WHERE ', spec(S, rel, 'c', [S.int('g0'), None, S.int('g1')]))
            for obs in range(3):
                S.expect(q, w, 'rendering %d of a generator operand' % obs)
                S.repr(q)
                S.eq(q, S.m(q, 'copy'))
        yield 'null/%s/repeated rendering' % rel, rng

    def long(S):
        for rel in ('IN', 'NOT_IN'):
            for n in sizes(S, 7, most=1200):
                vals = [S.int('l%d' % i) for i in range(n)] if n < 50 else list(range(n))
                for xs in (vals, vals + [None], [None] + vals, vals[:2] + [None] + vals[2:], [0] + vals):
                    S.expect(S.m(S.call('select_from', 't'), 'where', c=S.rel(rel, S.list(*xs))), cat('SELECT * FROM "t" WHERE ', spec(S, rel, 'c', xs)), '%s of %d elements' % (rel, len(xs)))
    yield 'null/long lists', long

    def many(S):
        lst = S.list(S.int('m0'), S.int('m1'), many=True)
        q = S.m(S.call('select_from', 't'), 'where', c=lst)
        S.expect(q, cat('SELECT * FROM "t" WHERE "c" IN ', S.V(S.list(S.int('m0'), S.int('m1'), many=True))), 'list of any length')
    yield 'null/IN/list of any length', many
