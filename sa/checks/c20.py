"""C20: sequences of limit/offset calls with abstract integers against a two
register model."""
import itertools
from .common import *


def ops(S, tag):
    """(label, call, transition)"""
    n, m = S.int('n' + tag), S.int('m' + tag)
    return {
        'limit(n)': (('limit', (n,), {}), lambda l, o: (n, o)),
        'limit(n, m)': (('limit', (n, m), {}), lambda l, o: (n, m)),
        'limit(n, offset=m)': (('limit', (n,), {'offset': m}), lambda l, o: (n, m)),
        'limit(0)': (('limit', (0,), {}), lambda l, o: (0, o)),
        'limit(0, m)': (('limit', (0, m), {}), lambda l, o: (0, m)),
        'limit(n, 0)': (('limit', (n, 0), {}), lambda l, o: (n, 0)),
        'limit(n, None)': (('limit', (n, None), {}), lambda l, o: (n, o)),
        'limit(None)': (('limit', (None,), {}), lambda l, o: (None, None)),
        'offset(m)': (('offset', (m,), {}), lambda l, o: (l, m)),
        'offset(0)': (('offset', (0,), {}), lambda l, o: (l, 0)),
        'offset(None)': (('offset', (None,), {}), lambda l, o: (l, None)),
        'limit(-1)': (('limit', (-1,), {}), lambda l, o: (-1, o)),
        'offset(big)': (('offset', (10 ** 20,), {}), lambda l, o: (l, 10 ** 20)),
        'limit(1)': (('limit', (1,), {}), lambda l, o: (1, o)),
        'offset(1)': (('offset', (1,), {}), lambda l, o: (l, 1)),
    }


NAMES = ['limit(n)', 'limit(n, m)', 'limit(n, offset=m)', 'limit(0)', 'limit(0, m)', 'limit(n, 0)', 'limit(n, None)', 'limit(None)', 'offset(m)', 'offset(0)', 'offset(None)', 'limit(-1)', 'offset(big)', 'limit(1)', 'offset(1)']


def expected(S, l, o):
    out = ['SELECT * FROM "t"']
    if l is not None:
        out += [' LIMIT ', S.V(l)]
    if o is not None and S.ip.truth(o):
        out += [' OFFSET ', S.V(o)]
    return cat(*out)


def obligations(tier):
    depth = 4 if tier == 'thorough' else 3
    for first in NAMES:
        for second in [None] + NAMES:
            def seq(S, first=first, second=second):
                rests = [()] if second is None else [()] + [(x,) for x in NAMES]
                if depth == 4 and second is not None:
                    rests += list(itertools.product(['limit(n)', 'limit(n, m)', 'limit(None)', 'offset(m)', 'offset(0)', 'limit(0)'], repeat=2))
                for rest in rests:
                    names = (first,) + ((second,) if second else ()) + rest
                    q = S.call('select_from', 't')
                    l = o = None
                    for i, n in enumerate(names):
                        (m, a, k), tr = ops(S, str(i))[n]
                        r = S.m(q, m, *a, **k)
                        S.check(r is q, '%s does not return the query' % n)
                        l, o = tr(l, o)
                    S.expect(q, expected(S, l, o), ', '.join(names))
            yield 'sequence/%s/%s' % (first, second), seq, {'max_paths': 1500}

    def clauses(S):
        # with all the other clauses around
        n, m = S.int('n', 1), S.int('m', 1)
        for order in itertools.permutations(range(4)):
            q = S.call('select_from', 't')
            calls = [('limit', (n,)), ('offset', (m,)), ('where', ('a', 1)), ('order_by', ('b',))]
            for i in order:
                q = S.m(q, calls[i][0], *calls[i][1])
            S.expect(q, cat('SELECT * FROM "t" WHERE "a" = 1 ORDER BY "b" LIMIT ', S.V(n), ' OFFSET ', S.V(m)), 'order of calls %s' % (order,))
        for be in BACKENDS:
            S.call('configure', be)
            S.expect(S.m(S.call('select', 1), 'limit', n, m), cat('SELECT 1 LIMIT ', S.V(n), ' OFFSET ', S.V(m)), be)
            S.expect(S.m(S.call('select', 1), 'offset', m), cat('SELECT 1 OFFSET ', S.V(m)), be)
    yield 'clauses', clauses

    def independent(S):
        n, m, k = S.int('n'), S.int('m', 1), S.int('k')
        q = S.m(S.call('select', 1), 'limit', n, m)
        r = S.m(q, 'copy')
        S.m(r, 'limit', k)
        S.expect(q, cat('SELECT 1 LIMIT ', S.V(n), ' OFFSET ', S.V(m)), 'original after limit() of its copy')
        S.expect(r, cat('SELECT 1 LIMIT ', S.V(k), ' OFFSET ', S.V(m)), 'copy')
        S.expect(S.call('select', 1), 'SELECT 1', 'another query')
        S.m(q, 'limit', None)
        S.expect(r, cat('SELECT 1 LIMIT ', S.V(k), ' OFFSET ', S.V(m)), 'copy after limit(None) of the original')
        # in a subquery
        s = S.m(S.m(S.call('select', 1), 'limit', n), 'offset', m)
        S.expect(S.m(S.m(S.call('select', s), 'limit', k), 'offset', None), cat('SELECT (SELECT 1 LIMIT ', S.V(n), ' OFFSET ', S.V(m), ') LIMIT ', S.V(k)), 'in a subquery')
        S.expect(S.text(q), 'SELECT 1', 'limit(None)')
    yield 'independence', independent

    def refused(S):
        # a refused call changes nothing
        n, m = S.int('n'), S.int('m', 1)
        for bad in ('x', '5', 1.5, True, False, b'1', S.list(1), S.tuple(1), S.dict(), S.opaque(), S.call('C', '1'), S.call('select')):
            for name in ('limit', 'offset'):
                q = S.m(S.call('select', 1), 'limit', n, m)
                S.expect_raise(lambda: S.m(q, name, bad), INVALID, what='%s() with a wrong type' % name)
                S.expect(q, cat('SELECT 1 LIMIT ', S.V(n), ' OFFSET ', S.V(m)), 'after a refused %s()' % name)
            q = S.call('select', 1)
            S.expect_raise(lambda: S.m(q, 'limit', n, bad), INVALID, what='limit() with a wrong offset') if not (bad is False) else None
    yield 'refused', refused
