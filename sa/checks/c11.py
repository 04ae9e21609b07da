"""C11: sequences of join/on calls against a model of keyword, table, alias,
conditions and merging; every pair over the alphabet, triples, several tables,
abstract names; misuse raises InvalidQueryException."""
import itertools
from .common import *

KW = {'join': 'JOIN', 'inner_join': 'JOIN', 'left_join': 'LEFT JOIN', 'right_join': 'RIGHT JOIN', 'full_join': 'FULL JOIN'}
MIRROR = {'EQ': 'EQ', 'NE': 'NE', 'GT': 'LT', 'GE': 'LE', 'LT': 'GT', 'LE': 'GE'}
OP = {'EQ': '=', 'NE': '!=', 'GT': '>', 'GE': '>=', 'LT': '<', 'LE': '<=', 'LIKE': 'LIKE', 'NOT_LIKE': 'NOT LIKE', 'REGEXP': 'REGEXP'}
TYPES = ['inner_join', 'left_join', 'right_join']
TABLES = [('u', None), ('v', None), ('u', 'x'), ('v', 'x'), ('u', 'y')]
# a condition is (column, relation, value); a str value is a reference
CONDS = [(), (('t.a', 'EQ', 'u.b'),), (('u.b', 'EQ', 't.a'),), (('t.a', 'GT', 'u.b'),), (('u.b', 'LT', 't.a'),), (('u.b', 'GT', 't.a'),), (('t.a', 'EQ', 5),),
         (('t.a', 'EQ', 'u.b'), ('t.c', 'EQ', 'u.d')), (('u.b', 'EQ', 't.a'), ('u.d', 'EQ', 't.c')), (('t.a', 'EQ', 'u.c'),), (('t.a', 'NE', 'u.b'),)]


def same_cond(a, b):
    if a == b and type(a[2]) == type(b[2]):
        return True
    return isinstance(a[2], str) and isinstance(b[2], str) and MIRROR.get(a[1]) == b[1] and a[0] == b[2] and a[2] == b[0]


def same_join(a, b):
    return a[1] == b[1] and len(a[2]) == len(b[2]) and all(map(same_cond, a[2], b[2]))


def minimise(joins):
    """None when the outcome is not specified (a kept group with others between)."""
    groups = []
    for i, j in enumerate(joins):
        for g in groups:
            if same_join(g[0][1], j):
                g.append((i, j))
                break
        else:
            groups.append([(i, j)])
    out = []
    for g in groups:
        ts = {KW[j[0]] for _, j in g}
        if len(g) > 1 and 'JOIN' in ts:
            out.append((g[0][0], ('join',) + g[0][1][1:]))
        elif len(ts) == 1:
            out.append(g[0])
        else:
            idx = [i for i, _ in g]
            if idx != list(range(idx[0], idx[0] + len(idx))):
                return None
            out += g
    return [j for _, j in sorted(out, key=lambda p: p[0])]


def ctext(S, c):
    col, rel, val = c
    return cat(S.R(col), ' ', OP[rel], ' ', S.R(val) if is_strlike(val) else S.V(val))


def jtext(S, j):
    t, (name, alias), conds = j
    return cat(KW[t], ' ', S.R(name), cat(' AS ', S.R(alias)) if alias is not None else '', cat(' ON ', join(' AND ', [ctext(S, c) for c in conds])) if conds else '')


def add(S, q, j):
    t, (name, alias), conds = j
    q = S.m(q, t, name if alias is None else S.tuple(name, alias))
    for col, rel, val in conds:
        q = S.m(q, 'on', col, val if rel == 'EQ' else S.rel(rel, val))
    return q


def dedupe(conds):
    out = []
    for c in conds:
        if not any(same_cond(c, o) for o in out):
            out.append(c)
    return tuple(out)


def check(S, joins, what, q=None, head='SELECT * FROM "t"'):
    joins = [(t, tb, dedupe(c)) for t, tb, c in joins]
    want = minimise(joins)
    if want is None:
        return
    q = S.call('select_from', 't') if q is None else q
    for j in joins:
        q = add(S, q, j)
    S.expect(q, cat(head, *[cat(' ', jtext(S, j)) for j in want]), what)


def label(j):
    return '%s %s%s on %s' % (j[0], j[1][0], ' as ' + j[1][1] if j[1][1] else '', list(j[2]))


def obligations(tier):
    alpha = [(t, tb, c) for t in TYPES for tb in TABLES[:3] for c in CONDS]
    for a in alpha:
        def pairs(S, a=a):
            check(S, [a], label(a))
            for tb in TABLES if tier != 'quick' else [a[1], ('v', 'x')]:
                for t in TYPES:
                    for c in CONDS:
                        b = (t, tb, c)
                        check(S, [a, b], '%s, %s' % (label(a), label(b)))
        yield 'join/pairs from %s' % label(a), pairs
    def selfjoins(S):
        # the joined table is the one selected from, with and without conditions
        cs = [(), (('t.a', 'EQ', 't.b'),), (('t.a', 'EQ', 't.a'),), (('x.a', 'EQ', 't.a'),), (('t.a', 'EQ', 5),), (('t.a', 'EQ', 't.b'), ('t.b', 'EQ', 't.a'))]
        al = [(t, tb, c) for t in TYPES for tb in (('t', None), ('t', 'x'), ('u', 't')) for c in cs]
        for a in al:
            check(S, [a], label(a))
            q = S.m(S.call('select'), 'from_', S.tuple('t', 'x'))
            check(S, [a], 'from t as x, ' + label(a), q, 'SELECT * FROM "t" AS "x"')
        for a in al:
            for b in al[::5]:
                check(S, [a, b], '%s, %s' % (label(a), label(b)))
    yield 'join/self joins', selfjoins
    small = [(t, tb, c) for t in TYPES for tb in (('u', None), ('v', None)) for c in (CONDS[1], CONDS[2])]
    for a in small:
        for b in small:
            def triples(S, a=a, b=b):
                for c in small:
                    check(S, [a, b, c], '%s, %s, %s' % (label(a), label(b), label(c)))
            yield 'join/triples from %s, %s' % (label(a), label(b)), triples

    quads = [('inner_join', ('u', None), ()), ('left_join', ('u', None), ()), ('right_join', ('u', None), ()), ('left_join', ('v', None), ())]
    for a in quads:
        def four(S, a=a):
            for r in itertools.product(quads, repeat=3):
                check(S, (a,) + r, 'four joins')
        yield 'join/sequences of four from %s' % label(a), four

    def full(S):
        S.call('configure', 'postgresql')
        js = [(t, ('u', None), c) for t in TYPES + ['full_join'] for c in (CONDS[0], CONDS[1], CONDS[2])]
        for a, b in itertools.product(js, repeat=2):
            check(S, [a, b], '%s, %s' % (label(a), label(b)))
    yield 'join/full joins', full

    def rels(S):
        for r in OP:
            check(S, [('join', ('u', None), (('a', r, 'b'),))], 'relation ' + r)
            check(S, [('left_join', ('u', None), (('a', r, S.call('C', 'cu')),))], 'relation %s to custom' % r)
            for r2 in OP:
                check(S, [('left_join', ('u', None), (('a', r, 'b'),)), ('left_join', ('u', None), (('b', r2, 'a'),))], '%s and %s mirrored' % (r, r2))
                check(S, [('left_join', ('u', None), (('a', r, 'b'),)), ('left_join', ('u', None), (('a', r2, 'b'),))], '%s and %s' % (r, r2))
                check(S, [('left_join', ('u', None), (('a', r, 'b'), ('b', r2, 'a')))], '%s and %s mirrored in one join' % (r, r2))
    yield 'join/relations and their mirrors', rels

    def mirrored_values(S):
        # only references are mirrored: values and SQL objects are not
        i = S.int('i')
        for v1, v2 in ((5, 6), (i, S.int('k')), (S.call('V', 'b'), S.call('V', 'c')), (S.call('C', 'b'), S.call('C', 'c'))):
            q = S.call('select_from', 't')
            for v in (v1, v2):
                q = S.m(S.m(q, 'left_join', 'u'), 'on', 'a', v)
            S.expect(q, cat('SELECT * FROM "t" LEFT JOIN "u" ON "a" = ', S.V(v1), ' LEFT JOIN "u" ON "a" = ', S.V(v2)), 'joins on different values')
            q = S.call('select_from', 't')
            for v in (v1, v1):
                q = S.m(S.m(q, 'left_join', 'u'), 'on', 'a', v)
            S.expect(q, cat('SELECT * FROM "t" LEFT JOIN "u" ON "a" = ', S.V(v1)), 'joins on the same value')
        # a value that reads like the column on the other side
        q = S.call('select_from', 't')
        for c, v in (('a', S.call('V', 'b')), ('b', S.call('V', 'a'))):
            q = S.m(S.m(q, 'left_join', 'u'), 'on', c, v)
        S.expect(q, 'SELECT * FROM "t" LEFT JOIN "u" ON "a" = \'b\' LEFT JOIN "u" ON "b" = \'a\'', 'values are not mirrored')
        q = S.call('select_from', 't')
        for c, v in (('5', 5), ('a', 'b'), ('5', '5'), ('6', 5)):
            q = S.m(S.m(q, 'left_join', 'u'), 'on', c, v)
        S.expect(q, 'SELECT * FROM "t" LEFT JOIN "u" ON "5" = 5 LEFT JOIN "u" ON "a" = "b" LEFT JOIN "u" ON "5" = "5" LEFT JOIN "u" ON "6" = 5', 'values and references differ')
    yield 'join/values are not mirrored', mirrored_values

    for t in TYPES:
        def names(S, t=t):
            # any names, which may or may not coincide
            a, b, c, d = [S.plain(x) for x in 'abcd']
            S.maybe_equal('a', 'b', 'c', 'd')
            q = S.call('select_from', 't')
            q = S.m(S.m(q, t, 'u'), 'on', a, b)
            q = S.m(S.m(q, t, 'u'), 'on', c, d)
            x = S.text(q)
            same = S.eq(a, c) and S.eq(b, d) or S.eq(a, d) and S.eq(b, c)
            parts = [(a, b)] if same else [(a, b), (c, d)]
            S.expect(x, cat('SELECT * FROM "t"', *[cat(' ', KW[t], ' "u" ON ', S.R(l), ' = ', S.R(r)) for l, r in parts]), 'joins on any two references')
        yield 'join/%s on names that may coincide' % t, names

        def tables(S, t=t):
            a, b = S.plain('a'), S.plain('b')
            x, y = S.plain('x'), S.plain('y')
            S.maybe_equal('a', 'b', 'x', 'y')
            for al in ((None, None), (x, y), (x, None), (None, y)):
                q = S.call('select_from', 't')
                for n, l in ((a, al[0]), (b, al[1])):
                    q = S.m(S.m(q, t, n if l is None else S.tuple(n, l)), 'on', 'p', 'q')
                tx = S.text(q)
                same = (al[0] is None) == (al[1] is None) and S.eq(a, b) and (al[0] is None or S.eq(al[0], al[1]))
                parts = [(a, al[0])] if same else [(a, al[0]), (b, al[1])]
                S.expect(tx, cat('SELECT * FROM "t"', *[cat(' ', KW[t], ' ', S.R(n), cat(' AS ', S.R(l)) if l is not None else '', ' ON "p" = "q"') for n, l in parts]), 'joins of any two tables')
        yield 'join/%s of tables that may coincide' % t, tables

        def strings(S, t=t):
            s = S.nstr('s')
            r = S.nstr('r')
            q = S.m(S.m(S.call('select_from', 't'), t, 'u'), 'on', s, r)
            S.expect(q, cat('SELECT * FROM "t" ', KW[t], ' "u" ON ', S.R(s), ' = ', S.R(r)), 'on() pair of any strings')
            for kind in ('int', 'float', 'Decimal', 'date', 'datetime', 'None', 'True', 'False'):
                v = S.scalar(kind, 'x' + kind)
                q = S.m(S.m(S.call('select_from', 't'), t, 'u'), 'on', 'c', v)
                S.expect(q, cat('SELECT * FROM "t" ', KW[t], ' "u" ON "c" ', 'IS' if v is None else '=', ' ', S.V(v)), 'on() value of type %s' % kind)
        yield 'join/%s: strings are references, others values' % t, strings

    def placement(S):
        q = S.chain(S.call('select'), ('from_', 'a'), ('join', 'b'), ('on', ('a.i', 'b.i')), ('left_join', 'c'), ('on', ('a.i', 'c.i')), ('on', ('b.k', 'c.k')))
        S.expect(q, 'SELECT * FROM "a" JOIN "b" ON "a"."i" = "b"."i" LEFT JOIN "c" ON "a"."i" = "c"."i" AND "b"."k" = "c"."k"', 'on() belongs to the last join')
        q = S.chain(S.call('select'), ('from_', 'a'), ('join', 'b'), ('on', ('a.i', 'b.i')), ('from_', 'd'), ('right_join', 'e'), ('on', ('d.i', 'e.i')))
        S.expect(q, 'SELECT * FROM "a" JOIN "b" ON "a"."i" = "b"."i", "d" RIGHT JOIN "e" ON "d"."i" = "e"."i"', 'joins belong to the last table')
        q = S.chain(S.call('select'), ('from_', ('a', 'd')), ('join', 'b'), ('on', ('a.i', 'b.i')), ('from_', 'd'), ('join', 'g'))
        S.expect(q, 'SELECT * FROM "a", "d" JOIN "b" ON "a"."i" = "b"."i", "d" JOIN "g"', 'joins belong to the last table')
        q = S.chain(S.call('select'), ('from_', 'a'), ('join', 'b'), ('where', (), {'z': 1}), ('limit', 1), ('on', ('a.i', 'b.i')), ('join', 'c'), ('order_by', 'o'), ('on', (), {'k': 5}))
        S.expect(q, 'SELECT * FROM "a" JOIN "b" ON "a"."i" = "b"."i" JOIN "c" ON "k" = 5 WHERE "z" = 1 ORDER BY "o" LIMIT 1', 'other calls between join and on')
        q = S.chain(S.call('select'), ('from_', (S.tuple('a', 'x'),)), ('join', (S.tuple('b', 'y'),)), ('on', ('x.i', 'y.i')))
        S.expect(q, 'SELECT * FROM "a" AS "x" JOIN "b" AS "y" ON "x"."i" = "y"."i"', 'aliases')
        q = S.chain(S.call('select'), ('from_', 'a'), ('join', (S.tuple(sub(S), 'y'),)), ('on', ('a.i', 'y.i')))
        S.expect(q, cat('SELECT * FROM "a" JOIN (', S.text(sub(S)), ') AS "y" ON "a"."i" = "y"."i"'), 'join of a subquery')
        # the same join of two different tables stays with its table
        q = S.chain(S.call('select'), ('from_', 'a'), ('join', 'b'), ('on', ('p', 'q')), ('from_', 'd'), ('join', 'b'), ('on', ('p', 'q')))
        S.expect(q, 'SELECT * FROM "a" JOIN "b" ON "p" = "q", "d" JOIN "b" ON "p" = "q"', 'joins of different tables are not merged')
        # conditions given in different ways
        q = S.chain(S.call('select'), ('from_', 'a'), ('join', 'b'), ('on', (S.list(S.tuple('p', 'q'), S.tuple('r', 5)),)), ('on', (S.dict(('s', 'w')),)), ('on', (S.call('C', 'cu'),)))
        S.expect(q, 'SELECT * FROM "a" JOIN "b" ON "p" = "q" AND "r" = 5 AND "s" = "w" AND cu', 'forms of on()')
    yield 'join/placement', placement

    def similar(S):
        # nearly equal joins are all kept
        base = ('u', None)
        for t in ('left_join', 'inner_join'):
            for n1, n2 in (('u', 'U'), ('u', 'u2'), ('db.u', 'u'), ('db.u', 'db2.u')):
                check(S, [(t, (n1, None), CONDS[1]), (t, (n2, None), CONDS[1])], 'tables %r and %r' % (n1, n2))
                check(S, [(t, ('w', n1), CONDS[1]), (t, ('w', n2), CONDS[1])], 'aliases %r and %r' % (n1, n2))
                check(S, [(t, base, ((n1, 'EQ', 'q'),)), (t, base, ((n2, 'EQ', 'q'),))], 'columns %r and %r' % (n1, n2))
                check(S, [(t, base, (('q', 'EQ', n1),)), (t, base, (('q', 'EQ', n2),))], 'references %r and %r' % (n1, n2))
                check(S, [(t, base, (('q', 'EQ', n1),)), (t, base, ((n2, 'EQ', 'q'),))], 'mirrored references %r and %r' % (n1, n2))
            more = [(('a', 'EQ', 'b'),), (('a', 'EQ', 'b'), ('c', 'EQ', 'd')), (('a', 'EQ', 'b'), ('c', 'EQ', 'e')), (('a', 'EQ', 'b'), ('c', 'EQ', 'd'), ('e', 'EQ', 'f')), ()]
            for x, y in itertools.permutations(more, 2):
                check(S, [(t, base, x), (t, base, y)], 'conditions %r and %r' % (x, y))
            for x, y in ((1, True), (1, 1.0), (0, False), (1, '1'), (None, 0), (0, None)):
                cs = [(('k', 'EQ', v),) for v in (x, y)]
                q = S.call('select_from', 't')
                for v in (x, y):
                    q = S.m(S.m(q, t, 'u'), 'on', 'k', v)
                f = lambda v: cat('"k" IS NULL') if v is None else cat('"k" = ', '"1"' if v == '1' else S.V(v))
                S.expect(q, cat('SELECT * FROM "t" ', KW[t], ' "u" ON ', f(x), ' ', KW[t], ' "u" ON ', f(y)), 'values %r and %r' % (x, y))
    yield 'join/similar joins are kept', similar

    for kind in ('update', 'delete'):
        def other(S, kind=kind):
            def begin():
                if kind == 'update':
                    return S.m(S.m(S.call('update', 't'), 'set', s=1), 'allow_update_all')
                return S.m(S.call('delete_from', 't'), 'allow_delete_all')
            head, tail = ('UPDATE "t"', ' SET "s" = 1') if kind == 'update' else ('DELETE FROM "t"', '')
            js = [(t, ('u', None), c) for t in TYPES + ['join'] for c in (CONDS[1], CONDS[2], CONDS[5])]
            for a in js:
                for b in js:
                    q = add(S, add(S, begin(), a), b)
                    want = minimise([a, b])
                    S.expect(q, cat(head, *([cat(' ', jtext(S, j)) for j in want] + [tail])), '%s: %s, %s' % (kind, label(a), label(b)))
        yield 'join/in %s' % kind, other

    def misuse(S):
        IQ = 'InvalidQueryException'
        for make in (lambda: S.call('select'), lambda: S.call('select', 'a'), lambda: S.call('delete'), lambda: S.call('update', None), lambda: S.call('select_from')):
            for t in ('join', 'inner_join', 'left_join', 'right_join'):
                S.expect_raise(lambda: S.m(make(), t, 'u'), IQ, what='%s without a table' % t)
            S.expect_raise(lambda: S.m(make(), 'on', 'a', 'b'), IQ, what='on() without a table')
        for make in (lambda: S.call('select_from', 't'), lambda: S.call('delete_from', 't'), lambda: S.call('update', 't')):
            S.expect_raise(lambda: S.m(make(), 'on', 'a', 'b'), IQ, what='on() without a join')
            S.expect_raise(lambda: S.m(make(), 'on', a=1), IQ, what='on() without a join')
            S.expect_raise(lambda: S.m(make(), 'on', S.call('C', 'x')), IQ, what='on() without a join')
        S.expect_raise(lambda: S.m(S.m(S.m(S.call('select_from', 't'), 'join', 'u'), 'from_', 'w'), 'on', 'a', 'b'), IQ, what='on() after a new table')
        for b in BACKENDS:
            S.call('configure', b)
            if b != 'postgresql':
                S.expect_raise(lambda: S.m(S.call('select_from', 't'), 'full_join', 'u'), IQ, what='full join on ' + b)
    yield 'join/misuse', misuse
