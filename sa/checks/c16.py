"""C16: rows over every subset of columns, up to three rows and three columns
(more in the thorough tier), every form of passing the row: header sorted and
without repetition, each row has the value of its column or NULL."""
import itertools
from .common import *

FALSY = [0, '', False, 0.0, None]


def expected(S, rows, verb='INSERT'):
    cols = sorted({c for r in rows for c in r})
    hdr = join(', ', [S.R(c) for c in cols])
    body = [cat('(', join(', ', [S.V(r[c]) if c in r else 'NULL' for c in cols]), ')') for r in rows]
    return cat(verb, ' INTO ', S.R('t'), ' (', hdr, ') VALUES ', join(', ', body))


FORMS = {
    'keywords': lambda S, q, r: S.m(q, 'values', **r),
    'dict': lambda S, q, r: S.m(q, 'values', S.dict(*r.items())),
    'reversed dict': lambda S, q, r: S.m(q, 'values', S.dict(*list(r.items())[::-1])),
    'OrderedDict': lambda S, q, r: S.m(q, 'values', S.dict(*list(r.items())[::-1], kind='OrderedDict')),
    'list': lambda S, q, r: S.m(q, 'values', S.list(*[S.tuple(k, v) for k, v in list(r.items())[::-1]])),
    'tuples': lambda S, q, r: S.m(q, 'values', *[S.tuple(k, v) for k, v in r.items()]) if len(r) > 1 else S.m(q, 'values', *list(r.items())[0]),
}


def obligations(tier):
    cols = ['b', 'a', 'c']
    subsets = [s for k in (1, 2, 3) for s in itertools.combinations(cols, k)]
    for form, f in FORMS.items():
        for first in subsets:
            def ob(S, f=f, first=first, form=form):
                for rest in [()] + [(s,) for s in subsets] + ([(s, t) for s in subsets for t in subsets]):
                    rows = [{c: S.int('r%d%s' % (i, c)) for c in s} for i, s in enumerate((first,) + rest)]
                    q = S.call('insert_into', 't')
                    for r in rows:
                        q = f(S, q, r)
                    S.expect(q, expected(S, rows), 'rows over %s as %s' % ((first,) + rest, form))
            yield 'rows/%s/first row %s' % (form, ','.join(first)), ob

    def order(S):
        names = ['c10', 'c9', 'B', 'a', '_z', 'c1', 'Ab']
        odd = ['a', 'a b', 'a!', 'ab', 'a-b', 'é', 'a~']
        for ns in [x[rot:] + x[:rot] for x in (names, odd) for rot in range(len(names))]:
            rows = [{n: S.int('v' + n)} for n in ns]
            q = S.call('insert_into', 't')
            for r in rows:
                q = S.m(q, 'values', S.dict(*r.items()))
            S.expect(q, expected(S, rows), 'a column per row')
            rows = [{n: S.int('v' + n) for n in ns}, {ns[3]: S.int('w')}]
            q = S.call('insert_into', 't')
            for r in rows:
                q = S.m(q, 'values', S.dict(*r.items()))
            S.expect(q, expected(S, rows), 'many columns')
    yield 'rows/sorted header', order

    def falsy(S):
        for v, w in itertools.product(FALSY, repeat=2):
            for rows in ([{'a': v}], [{'a': v, 'b': w}], [{'a': v}, {'a': w}], [{'a': v}, {'b': w}], [{'a': 1, 'b': v}, {'b': w}], [{'b': v}, {'a': 1}, {'a': w}]):
                q = S.call('insert_into', 't')
                for r in rows:
                    q = S.m(q, 'values', **r)
                S.expect(q, expected(S, rows), 'rows %r' % rows)
    yield 'rows/falsy values', falsy

    for be in BACKENDS:
        def kinds(S, be=be):
            S.call('configure', be)
            vals = [S.scalar(k, 'x' + k) for k in ('int', 'float', 'Decimal', 'bytes', 'date', 'datetime')] + [True, False, None]
            for i, v in enumerate(vals):
                for rows in ([{'a': v}], [{'a': v, 'b': vals[i - 1]}, {'b': v, 'c': vals[i - 2]}]):
                    q = S.call('insert_into', 't')
                    for r in rows:
                        q = S.m(q, 'values', **r)
                    S.expect(q, expected(S, rows), 'value kinds')
            for o, t in ((S.call('C', 'now()'), 'now()'), (S.call('R', 'r'), S.R('r')), (S.call('V', 'v'), "'v'"), (sub(S), cat('(', S.text(sub(S)), ')')), (S.call('count', 'x'), cat('COUNT(', S.R('x'), ')'))):
                q = S.m(S.m(S.call('insert_into', 't'), 'values', a=o, b=1), 'values', b=o)
                S.expect(q, cat('INSERT INTO ', S.R('t'), ' (', S.R('a'), ', ', S.R('b'), ') VALUES (', t, ', 1), (NULL, ', t, ')'), 'SQL object as value')
        yield 'rows/value kinds on %s' % be, kinds

        def strings(S, be=be):
            S.call('configure', be)
            a, b = S.str('sa'), S.str('sb')
            S.maybe_equal('sa', 'sb')
            q = S.m(S.m(S.call('insert_into', 't'), 'values', x=a, y=b), 'values', y=a)
            got = S.text(q)
            S.expect(got, expected(S, [{'x': a, 'y': b}, {'y': a}]), 'any strings')
        yield 'rows/any strings on %s' % be, strings

    def same(S):
        v = [S.int('v%d' % i) for i in range(4)]
        S.maybe_equal(*['v%d' % i for i in range(4)])
        q = S.call('insert_into', 't')
        rows = [{'a': v[0], 'b': v[1]}, {'a': v[2], 'b': v[3]}, {'a': v[0], 'b': v[1]}]
        for r in rows:
            q = S.m(q, 'values', **r)
        S.text(q)
        S.expect(q, expected(S, rows), 'rows that may be identical')
    yield 'rows/identical rows are kept', same

    def many(S):
        for n in sizes(S, 9):
            rows = [{'c%02d' % i: S.int('v%d' % i) for i in range(n)}, {'c%02d' % (n // 2): 1}, {'a': 0}]
            q = S.call('insert_into', 't')
            for r in rows:
                q = S.m(q, 'values', **r)
            S.expect(q, expected(S, rows), '%d columns' % n)
        for n in sizes(S, 5, 12):
            rows = [{'c%d' % (i % 4): S.int('v%d' % i), 'z': i} for i in range(n)]
            q = S.call('insert_into', 't')
            for r in rows:
                q = S.m(q, 'values', **r)
            S.expect(q, expected(S, rows), '%d rows' % n)
    yield 'rows/many rows', many

    def upsert(S):
        for be in ('mysql', 'postgresql', 'sqlite'):
            S.call('configure', be)
            rows = [{'b': S.int('p'), 'a': S.int('q')}, {'c': S.int('r')}]
            q = S.call('insert_into', 't')
            q = S.m(q, 'values', **rows[0])
            q = apply(S, q, UPSERT[be])
            q = S.m(q, 'values', **rows[1])
            t = expected(S, rows, 'REPLACE' if be == 'sqlite' else 'INSERT')
            tail = {'mysql': cat(' ON DUPLICATE KEY UPDATE ', eqc(S, 'u', S.int('up'))), 'postgresql': cat(' ON CONFLICT ("id") DO UPDATE ', eqc(S, 'u', S.int('up'))), 'sqlite': ''}[be]
            S.expect(q, cat(t, tail), 'rows with upsert on %s' % be)
    yield 'rows/with upsert', upsert

    def observed(S):
        rows = [{'b': S.int('p')}, {'a': S.int('q'), 'b': S.int('r')}, {'c': S.int('s')}]
        q = S.call('insert_into', 't')
        for i, r in enumerate(rows):
            q = S.m(q, 'values', **r)
            S.expect(q, expected(S, rows[:i + 1]), 'rendered after every row')
            S.expect(S.m(q, 'copy'), expected(S, rows[:i + 1]), 'copied after every row')
    yield 'rows/rendered in between', observed

    def names(S):
        # columns written in other ways
        rows = [{'t.b': S.int('p'), 'a b': S.int('q')}, {'a"b': S.int('r')}]
        q = S.call('insert_into', 't')
        for r in rows:
            q = S.m(q, 'values', S.dict(*r.items()))
        S.expect(q, expected(S, rows), 'columns with special characters')
        # a single row keeps abstract names: one column, any name
        n = S.plain('n')
        S.expect(S.m(S.call('insert_into', 't'), 'values', n, S.int('v')), cat('INSERT INTO "t" (', S.R(n), ') VALUES (', S.V(S.int('v')), ')'), 'any column')
        S.expect(S.m(S.m(S.call('insert_into', 't'), 'values', n, S.int('v')), 'values', n, S.int('w')),
                 cat('INSERT INTO "t" (', S.R(n), ') VALUES (', S.V(S.int('v')), '), (', S.V(S.int('w')), ')'), 'any column twice')
    yield 'rows/column names', names
