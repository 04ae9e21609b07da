"""C14: for every subset of the clauses of each statement and several orders of
the builder calls (all orders for pairs and triples) the text is the SQL-order
concatenation of the clauses set; builder calls return the same query."""
import itertools
from .common import *

# clause -> (method, args, kwargs), in SQL order
SEL = [
    ('options', ('distinct', (), {}), 'DISTINCT'),
    ('columns', ('columns', ('c',), {}), '"c"'),
    ('from', ('from_', ('t',), {}), 'FROM "t"'),
    ('where', ('where', (), {'w': 'W'}), None),
    ('group_by', ('group_by', ('g',), {}), 'GROUP BY "g"'),
    ('having', ('having', (), {'h': 'H'}), None),
    ('order_by', ('order_by', ('o',), {}), 'ORDER BY "o"'),
    ('limit', ('limit', ('L',), {}), None),
    ('offset', ('offset', (4,), {}), 'OFFSET 4'),
    ('outfile', ('into_outfile', ('f',), {}), "INTO OUTFILE 'f'"),
    ('for_update', ('for_update', (), {}), 'FOR UPDATE'),
]
ORDER = [c[0] for c in SEL]
CALLS = {c[0]: c[1] for c in SEL}
FIX = {c[0]: c[2] for c in SEL}


def call(S, q, name, calls=CALLS):
    m, a, k = calls[name]
    a = tuple(S.int('lim') if x == 'L' else x for x in a)
    k = {x: S.int('v' + x) if y in ('W', 'H') else y for x, y in k.items()}
    r = S.m(q, m, *a, **k)
    S.check(r is q, '%s() does not return the query' % m)
    return r


def sel_text(S, names, cols=None):
    out = ['SELECT']
    for n in ORDER:
        if n in names:
            if n == 'where':
                out.append(cat('WHERE ', eqc(S, 'w', S.int('vw'))))
            elif n == 'having':
                out.append(cat('HAVING ', eqc(S, 'h', S.int('vh'))))
            elif n == 'limit':
                out.append(cat('LIMIT ', S.V(S.int('lim'))))
            else:
                out.append(FIX[n])
        elif n == 'columns':
            out.append('*')
    return join(' ', out)


def orders(sub, tier):
    sub = list(sub)
    if len(sub) <= 3:
        return list(itertools.permutations(sub))
    out = [sub, sub[::-1], sub[1:] + sub[:1], sub[::2] + sub[1::2]]
    return out if tier != 'quick' else out[1:3]


def obligations(tier):
    subsets = [s for k in range(len(ORDER) + 1) for s in itertools.combinations(ORDER, k)]
    step = 40
    for i in range(0, len(subsets), step):
        def ob(S, chunk=subsets[i:i + step]):
            for s in chunk:
                for o in orders(s, tier):
                    q = S.call('select')
                    for n in o:
                        call(S, q, n)
                    S.expect(q, sel_text(S, s), 'select with %s called in this order' % ', '.join(o))
        yield 'clauses/select subsets %d..%d' % (i, min(len(subsets), i + step) - 1), ob

    def affects(S):
        # a call changes its own clause only: add each to a full query
        full = [n for n in ORDER]
        def build():
            q = S.call('select')
            for n in full:
                call(S, q, n)
            return q
        base = {n: FIX[n] for n in ORDER}
        base['where'] = cat('WHERE ', eqc(S, 'w', S.int('vw')))
        base['having'] = cat('HAVING ', eqc(S, 'h', S.int('vh')))
        base['limit'] = cat('LIMIT ', S.V(S.int('lim')))
        extra = [
            ('options', ('sql_no_cache', (), {}), 'DISTINCT SQL_NO_CACHE'), ('options', ('distinct', (False,), {}), None), ('options', ('distinctrow', (), {}), 'DISTINCTROW'),
            ('columns', ('columns', ('c2',), {}), '"c", "c2"'), ('from', ('from_', ('t2',), {}), 'FROM "t", "t2"'), ('from', ('from_table', ('t2', 'x'), {}), 'FROM "t", "t2" AS "x"'),
            ('from', ('from_tables', ('t2', 't3'), {}), 'FROM "t", "t2", "t3"'), ('from', ('join', ('j',), {}), 'FROM "t" JOIN "j"'), ('from', ('inner_join', ('j',), {}), 'FROM "t" JOIN "j"'),
            ('from', ('left_join', ('j',), {}), 'FROM "t" LEFT JOIN "j"'), ('from', ('right_join', ('j',), {}), 'FROM "t" RIGHT JOIN "j"'),
            ('where', ('where', (), {'z': 1}), cat(base['where'], ' AND "z" = 1')), ('where', ('where', (S.call('C', 'cu'),), {}), cat(base['where'], ' AND cu')),
            ('group_by', ('group_by', (S.tuple('g2', 'desc'),), {}), 'GROUP BY "g", "g2" DESC'), ('having', ('having', (), {'z': 1}), cat(base['having'], ' AND "z" = 1')),
            ('order_by', ('order_by', (S.tuple('o2', 'desc'),), {}), 'ORDER BY "o", "o2" DESC'), ('limit', ('limit', (9,), {}), 'LIMIT 9'), ('offset', ('offset', (8,), {}), 'OFFSET 8'),
            ('offset', ('offset', (None,), {}), None), ('outfile', ('into_outfile', ('g',), {}), "INTO OUTFILE 'g'"),
            ('outfile', ('fields_terminated_by', (';',), {}), "INTO OUTFILE 'f' FIELDS TERMINATED BY ';'"),
            ('outfile', ('lines_terminated_by', ('|',), {}), "INTO OUTFILE 'f' LINES TERMINATED BY '|'"),
            ('outfile', ('optionally_enclosed_by', ('#',), {}), "INTO OUTFILE 'f' OPTIONALLY ENCLOSED BY '#'"), ('for_update', ('for_update', (False,), {}), None),
            ('for_update', ('for_update', (True,), {}), 'FOR UPDATE'),
        ]
        for n in (0, 1, 2, S.int('other')):
            extra += [('limit+offset', ('limit', (n, 5), {}), cat('LIMIT ', S.V(n), ' OFFSET 5')), ('limit', ('limit', (n,), {}), cat('LIMIT ', S.V(n)))]
        extra += [('limit+offset', ('limit', (None,), {}), None), ('offset', ('offset', (0,), {}), None), ('offset', ('offset', (1,), {}), 'OFFSET 1')]
        for o in ('sql_cache', 'all', 'sql_small_result', 'sql_big_result', 'sql_buffer_result', 'sql_calc_found_rows', 'straight_join', 'high_priority'):
            extra.append(('options', (o, (False,), {}), None if o == 'all' else 'DISTINCT'))
        for where, (m, a, k), tx in extra:
            q = build()
            r = S.m(q, m, *a, **k)
            S.check(r is q, '%s() does not return the query' % m)
            parts = [tx if n == where.split('+')[0] else None if n in where.split('+') else base[n] for n in ORDER]
            S.expect(q, cat('SELECT ', join(' ', [p for p in parts if p is not None])), '%s() on a full select' % m)
    yield 'clauses/select calls affect their own clause', affects

    def outfile(S):
        subs = [('fields_terminated_by', 'FIELDS TERMINATED BY'), ('lines_terminated_by', 'LINES TERMINATED BY'), ('optionally_enclosed_by', 'OPTIONALLY ENCLOSED BY')]
        for k in range(4):
            for s in itertools.combinations(subs, k):
                for o in itertools.permutations(s):
                    for first in (True, False):
                        q = S.call('select_from', 't')
                        if first:
                            S.m(q, 'into_outfile', S.nstr('file'))
                        for m, _ in o:
                            r = S.m(q, m, S.nstr('x' + m))
                            S.check(r is q, '%s() does not return the query' % m)
                        if not first:
                            S.m(q, 'into_outfile', S.nstr('file'))
                        got = S.text(q)
                        parts = dict((kw, S.V(S.nstr('x' + m))) for m, kw in s)
                        for perm in itertools.permutations(parts):
                            want = cat('SELECT * FROM "t" INTO OUTFILE ', S.V(S.nstr('file')), *[cat(' ', kw, ' ', parts[kw]) for kw in perm])
                            if S.same(got, want):
                                break
                        else:
                            S.terms = (S.norm(got),)
                            raise Violation('outfile with %s renders %s' % ([m for m, _ in o], show(S.norm(got))))
                    # without a file nothing of it appears
                    q = S.call('select_from', 't')
                    for m, _ in o:
                        S.m(q, m, S.nstr('x' + m))
                    S.expect(q, 'SELECT * FROM "t"', 'outfile settings without a file')
    yield 'clauses/outfile parts', outfile

    def starts(S):
        c, t = S.plain('c'), S.plain('t')
        S.expect(S.call('select'), 'SELECT *', 'select()')
        S.expect(S.call('select', c), cat('SELECT ', S.R(c)), 'select(c)')
        S.expect(S.call('select_from', t), cat('SELECT * FROM ', S.R(t)), 'select_from')
        S.expect(S.m(S.call('select_from', t), 'columns', c), cat('SELECT ', S.R(c), ' FROM ', S.R(t)), 'select_from, columns')
        S.expect(S.m(S.m(S.call('insert'), 'into', t), 'values', a=1), cat('INSERT INTO ', S.R(t), ' ("a") VALUES (1)'), 'insert().into')
        S.expect(S.m(S.call('insert_into', t), 'values', a=1), cat('INSERT INTO ', S.R(t), ' ("a") VALUES (1)'), 'insert_into')
        S.expect(S.m(S.m(S.call('update', t), 'set', a=1), 'allow_update_all'), cat('UPDATE ', S.R(t), ' SET "a" = 1'), 'update')
        S.expect(S.m(S.call('delete_from', t), 'allow_delete_all'), cat('DELETE FROM ', S.R(t)), 'delete_from')
        S.expect(S.m(S.m(S.call('delete', c), 'from_', t), 'allow_delete_all'), cat('DELETE ', S.R(c), ' FROM ', S.R(t)), 'delete, from_')
        S.expect(S.m(S.m(S.call('delete'), 'from_', t), 'allow_delete_all'), cat('DELETE FROM ', S.R(t)), 'delete(), from_')
        S.expect(S.repr(S.call('select', c)), cat('<Select: SELECT ', S.R(c), '>'), 'repr')
        # empty builder calls set nothing
        q = S.call('select_from', t)
        for m in ('columns', 'from_', 'where', 'having', 'group_by', 'order_by'):
            S.check(S.m(q, m) is q, '%s() does not return the query' % m)
        S.m(q, 'where', S.dict())
        S.m(q, 'having', S.list())
        S.m(q, 'order_by', S.dict())
        S.expect(q, cat('SELECT * FROM ', S.R(t)), 'empty builder calls')
    yield 'clauses/starting points', starts

    INS = [('ignore', ('ignore', (), {}), 'IGNORE'), ('into', ('into', ('t',), {}), '"t"'), ('values', ('values', (), {'a': 'W'}), None), ('values2', ('values', (), {'b': 'H'}), None)]
    calls = {c[0]: c[1] for c in INS}

    def insert(S):
        for be in BACKENDS:
            S.call('configure', be)
            for up in (False, True):
                if up and be == 'sql':
                    continue
                for k in (0, 1):
                    base = ['into', 'values'] + (['ignore'] if k else []) + (['upsert'] if up else [])
                    for extra in (False, True):
                        names = base + (['values2'] if extra else [])
                        for o in itertools.permutations(names):
                            if 'values2' in o and o.index('values2') < o.index('values'):
                                continue
                            q = S.call('insert')
                            for n in o:
                                if n == 'upsert':
                                    m, a, kw = UPSERT[be](S)
                                    S.check(S.m(q, m, *a, **kw) is q, '%s() does not return the query' % m)
                                else:
                                    call(S, q, n, calls)
                            t = S.R
                            body = cat('(', t('a'), ') VALUES (', S.V(S.int('va')), ')') if not extra else \
                                cat('(', t('a'), ', ', t('b'), ') VALUES (', S.V(S.int('va')), ', NULL), (NULL, ', S.V(S.int('vb')), ')')
                            tail = ''
                            if up and be == 'mysql':
                                tail = cat(' ON DUPLICATE KEY UPDATE ', eqc(S, 'u', S.int('up')))
                            if up and be == 'postgresql':
                                tail = cat(' ON CONFLICT ("id") DO UPDATE ', eqc(S, 'u', S.int('up')))
                            want = cat('REPLACE' if up and be == 'sqlite' else 'INSERT', ' IGNORE' if k else '', ' INTO ', t('t'), ' ', body, tail)
                            S.expect(q, want, 'insert on %s with %s' % (be, ', '.join(o)))
    yield 'clauses/insert', insert

    def update(S):
        names = ['ignore', 'set', 'where', 'join']
        cl = {'ignore': ('ignore', (), {}), 'set': ('set', (), {'a': 'W'}), 'where': ('where', (), {'w': 'H'}), 'join': ('left_join', ('j',), {}), 'table2': ('table', ('t2',), {})}
        for k in range(len(names) + 1):
            for s in itertools.combinations(names, k):
                for o in itertools.permutations(s):
                    q = S.m(S.call('update', 't'), 'allow_update_all')
                    for n in o:
                        call(S, q, n, cl)
                    if 'set' not in s:
                        S.m(q, 'set', a=S.int('va'))
                    S.expect(q, cat('UPDATE', ' IGNORE' if 'ignore' in s else '', ' "t"', ' LEFT JOIN "j"' if 'join' in s else '', ' SET ', eqc(S, 'a', S.int('va')),
                                    cat(' WHERE ', eqc(S, 'w', S.int('vw'))) if 'where' in s else ''), 'update with %s' % ', '.join(o))
        q = S.call('update', 't')
        for m in ('allow_update_all', 'forbid_update_all'):
            S.check(S.m(q, m) is q, '%s() does not return the query' % m)
        for m, a in (('join', 'j'), ('inner_join', 'j'), ('left_join', 'j'), ('right_join', 'j'), ('table', 't2')):
            q = S.call('update', 't')
            S.check(S.m(q, m, a) is q, '%s() does not return the query' % m)
        q = S.m(S.call('update', 't'), 'join', 'u')
        S.check(S.m(q, 'on', 'a', 'b') is q, 'on() does not return the query')
    yield 'clauses/update', update

    def delete(S):
        names = ['ignore', 'tables', 'from', 'where', 'join']
        cl = {'ignore': ('ignore', (), {}), 'tables': ('delete', ('d',), {}), 'from': ('from_', ('t2',), {}), 'where': ('where', (), {'w': 'H'}), 'join': ('left_join', ('j',), {})}
        for k in range(len(names) + 1):
            for s in itertools.combinations(names, k):
                for o in itertools.permutations(s) if k < 4 or tier != 'quick' else [s, s[::-1], s[2:] + s[:2]]:
                    q = S.m(S.call('delete_from', 't'), 'allow_delete_all')
                    for n in o:
                        call(S, q, n, cl)
                    ref = '"t"'
                    if 'from' in s and 'join' in s:
                        ref = '"t" LEFT JOIN "j", "t2"' if o.index('join') < o.index('from') else '"t", "t2" LEFT JOIN "j"'
                    elif 'from' in s:
                        ref = '"t", "t2"'
                    elif 'join' in s:
                        ref = '"t" LEFT JOIN "j"'
                    S.expect(q, cat('DELETE', ' IGNORE' if 'ignore' in s else '', ' "d"' if 'tables' in s else '', ' FROM ', ref,
                                    cat(' WHERE ', eqc(S, 'w', S.int('vw'))) if 'where' in s else ''), 'delete with %s' % ', '.join(o))
        for m, a in (('allow_delete_all', ()), ('forbid_delete_all', ()), ('join', ('j',)), ('inner_join', ('j',)), ('left_join', ('j',)), ('right_join', ('j',)), ('from_table', ('x', 'y')), ('from_tables', ('x', 'y'))):
            q = S.call('delete_from', 't')
            S.check(S.m(q, m, *a) is q, '%s() does not return the query' % m)
        q = S.m(S.call('delete_from', 't'), 'join', 'u')
        S.check(S.m(q, 'on', 'a', 'b') is q, 'on() does not return the query')
    yield 'clauses/delete', delete

    def empties(S):
        # values that are falsy still set their clause
        q = S.call('select_from', 't')
        S.m(q, 'limit', 0)
        S.expect(q, 'SELECT * FROM "t" LIMIT 0', 'limit(0)')
        for c, kw in (('where', 'WHERE'), ('having', 'HAVING')):
            for v in (0, '', False, None):
                S.expect(S.m(S.call('select_from', 't'), c, a=v), cat('SELECT * FROM "t" ', kw, ' "a" ', 'IS' if v is None else '=', ' ', S.V(v)), '%s with %r' % (c, v))
        S.expect(S.m(S.call('select_from', 't'), 'into_outfile', ''), 'SELECT * FROM "t" INTO OUTFILE \'\'', 'empty outfile')
        for o in ('group_by', 'order_by'):
            S.expect(S.m(S.call('select_from', 't'), o, 0), cat('SELECT * FROM "t" ', o.upper().replace('_', ' '), ' 0'), o + '(0)')
        S.expect(S.call('select', 0), 'SELECT 0', 'select(0)')
        S.expect(S.call('select', S.call('V', None)), 'SELECT NULL', 'select(V(None))')
    yield 'clauses/falsy values set their clause', empties

    def returns(S):
        r = {k: rich(S, k) for k in ('select', 'insert', 'update', 'delete')}
        for k, q in r.items():
            for name, b in builders(k, True).items():
                m, a, kw = b(S)
                S.check(S.m(q, m, *a, **kw) is q, '%s.%s() does not return the query' % (k, m))
        S.call('configure', 'postgresql')
        q = S.call('select_from', 't')
        S.check(S.m(q, 'full_join', 'u') is q, 'full_join() does not return the query')
    yield 'clauses/calls return the query', returns
