"""C22: every set of one, two or all clauses of every query kind against every
name; word search with literal texts, regular-expression characters included."""
import itertools
from .common import *

WORD = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')


def isword(c):
    return c in WORD or c.isalnum()


def occurs(text, w):
    """w occurs in text as a whole word, literally."""
    i = text.find(w)
    while i >= 0:
        if (i == 0 or not isword(text[i - 1])) and (i + len(w) == len(text) or not isword(text[i + len(w)])):
            return True
        i = text.find(w, i + 1)
    return False


OPTS = ['sql_cache', 'sql_no_cache', 'all', 'distinct', 'distinctrow', 'sql_small_result', 'sql_big_result', 'sql_buffer_result', 'sql_calc_found_rows', 'straight_join', 'high_priority']

# name -> (calls that set it, calls that unset it again, text of the clause)
SELECT_C = {
    'tables': ([('from_', ('tt',), {})], None, 'FROM "tt"'),
    'where': ([('where', (), {'ww': 1})], None, 'WHERE "ww" = 1'),
    'group_by': ([('group_by', ('gg',), {})], None, 'GROUP BY "gg"'),
    'having': ([('having', (), {'hh': 2})], None, 'HAVING "hh" = 2'),
    'order_by': ([('order_by', ('oo',), {})], None, 'ORDER BY "oo"'),
    'limit': ([('limit', (5,), {})], ('limit', (None,), {}), 'LIMIT 5'),
    'into_outfile': ([('into_outfile', ('ff',), {})], None, "INTO OUTFILE 'ff'"),
    'select_for_update': ([('for_update', (), {})], ('for_update', (False,), {}), None),
    'select_options': ([('distinct', (), {})], ('distinct', (False,), {}), 'DISTINCT'),
}
UPDATE_C = {
    'tables': ([('table', ('tt',), {})], None, '"tt"'),
    'values': ([('set', (), {'vv': 1})], None, '"vv" = 1'),
    'where': ([('where', (), {'ww': 1})], None, 'WHERE "ww" = 1'),
    'update_options': ([('ignore', (), {})], ('ignore', (False,), {}), 'IGNORE'),
}
DELETE_C = {
    'tables': ([('delete', ('tt',), {})], None, '"tt"'),
    'references': ([('from_', ('rr',), {})], None, '"rr"'),
    'where': ([('where', (), {'ww': 1})], None, 'WHERE "ww" = 1'),
    'delete_options': ([('ignore', (), {})], ('ignore', (False,), {}), 'IGNORE'),
}
INSERT_C = {
    'tables': ([('into', ('tt',), {})], None, '"tt"'),
    'values': ([('values', (), {'vv': 1})], None, '("vv") VALUES (1)'),
    'insert_options': ([('ignore', (), {})], ('ignore', (False,), {}), 'IGNORE'),
}
KINDS = {
    'select': (lambda S: S.call('select'), SELECT_C, ['columns']),
    'update': (lambda S: S.call('update', None), UPDATE_C, []),
    'delete': (lambda S: S.call('delete'), DELETE_C, []),
    'insert': (lambda S: S.call('insert'), INSERT_C, ['keyword']),
}
UNKNOWN = ['', 'xxx', 'WHERE', 'Where', 'wher', 'where ', 'select', 'from', 'table', 'order', 'for_update_', '__init__', 'copy', 'has', '*', '.*', '(', '[', 'tosql', 'dist', 'distinct.*', 'w.ere', '|', '$', '^']


def obligations(tier):
    for kind, (make, clauses, always) in KINDS.items():
        names = list(clauses)
        sets = [()] + [(n,) for n in names] + list(itertools.combinations(names, 2)) + [tuple(names)]
        if tier == 'thorough':
            sets += list(itertools.combinations(names, 3))

        def vec(S, q, on, what, names=names, always=always):
            for n in names + always:
                S.check(S.ip.truth(S.m(q, 'has', n)) == (n in on or n in always), '%s: has(%r) is not %s' % (what, n, n in on or n in always))

        for lo in range(0, len(sets), 12):
            def ob(S, make=make, clauses=clauses, names=names, sets=sets[lo:lo + 12], vec=vec, always=always, kind=kind):
                for st in sets:
                    q = make(S)
                    for i, n in enumerate(st):
                        vec(S, q, st[:i], '%s with %s' % (kind, st[:i]))
                        for m, a, k in clauses[n][0]:
                            S.m(q, m, *a, **k)
                    what = '%s with %s' % (kind, st)
                    vec(S, q, st, what)
                    for n in names:
                        tx = clauses[n][2]
                        if tx is None:
                            continue
                        for w in ('tt', 'ww', 'gg', 'hh', 'oo', 'ff', 'vv', 'rr', '1', '5', 'IGNORE', 'WHERE', 'x'):
                            want = n in st and occurs(tx, w if not n.endswith('_options') else w.upper())
                            S.check(S.ip.truth(S.m(q, 'has', n, w)) == want, '%s: has(%r, %r) is not %s' % (what, n, w, want))
                    for u in UNKNOWN:
                        S.check(not S.ip.truth(S.m(q, 'has', u)), '%s: has(%r) of an unknown name' % (what, u))
                        S.check(not S.ip.truth(S.m(q, 'has', u, 'tt')), '%s: has(%r, tt) of an unknown name' % (what, u))
                    # asking twice, asking a copy
                    vec(S, q, st, what + ' asked again')
                    vec(S, S.m(q, 'copy'), st, what + ' copied')
                    for n in st:
                        off = clauses[n][1]
                        if off:
                            S.m(q, off[0], *off[1], **off[2])
                            st = tuple(x for x in st if x != n)
                            vec(S, q, st, '%s and %s unset' % (what, n))
            yield 'clauses/%s/%d' % (kind, lo), ob

    for o in OPTS:
        def opts(S, o=o):
            for empty in ('', None):
                S.check(not S.ip.truth(S.m(S.m(S.call('select'), o), 'has', empty)), 'has(%r) after %s()' % (empty, o))
            group = [{'sql_cache', 'sql_no_cache'}, {'all', 'distinct', 'distinctrow'}]
            q = S.call('select', 'distinct', 'all')
            for p in OPTS:
                S.check(not S.ip.truth(S.m(q, 'has', p)), 'has(%r) before any option' % p)
            S.m(q, o)
            for spell in (o, o.upper(), o.capitalize()):
                S.check(S.ip.truth(S.m(q, 'has', spell)), 'has(%r) after %s()' % (spell, o))
                S.check(S.ip.truth(S.m(q, 'has', 'select_options', spell)), 'has(select_options, %r) after %s()' % (spell, o))
            for p in OPTS:
                S.check(S.ip.truth(S.m(q, 'has', p)) == (p == o), 'has(%r) after %s()' % (p, o))
                S.check(S.ip.truth(S.m(q, 'has', 'select_options', p)) == (p == o), 'has(select_options, %r) after %s()' % (p, o))
            for p in OPTS:
                r = S.m(S.m(q, 'copy'), p)
                excl = any(o in g and p in g for g in group)
                for x in OPTS:
                    want = x == p or x == o and not excl
                    S.check(S.ip.truth(S.m(r, 'has', x)) == want, 'has(%r) after %s() and %s()' % (x, o, p))
                S.m(r, p, False)
                for x in OPTS:
                    want = x == o and not excl and p != o
                    S.check(S.ip.truth(S.m(r, 'has', x)) == want, 'has(%r) after %s(), %s(), %s(False)' % (x, o, p, p))
            for x in ('for_update', 'sql', 'cache', 'distinc', 'row', 'result', 'SQL_', 'DISTINCT ROW', 'join', '.*', 'SQL.CACHE', 'd|a'):
                S.check(not S.ip.truth(S.m(q, 'has', x)), 'has(%r) after %s()' % (x, o))
        yield 'options/%s' % o, opts

    TEXTS = ['a', 'b', 'a.b', '"a"."b"', 'id', '1', '=', '.', '*', '(', ')', '[', ']', '\\', '+', '?', '^', '$', '|', '{', '}', 'a|b', '.*', 'a*', '[a]', '(a', 'a)', '{2}', '\\w', '\\', "'", 'x\\y', 'it''s', 'AND', 'WHERE', 'where', 'A', 'i', 'd', '"id"', ' ', '  ',
             '= 1', 'id = 1', '%', '%s', '{}', '{0}', 'é', '-', '--', '/*', '#', '\n', 'a+b', 'a.*b', '[', '[a', '(?i)a', 'a{1}', '10', 'x', 'some text', 'text', 'some', 'me te', 'LIKE', 'OR', 'OUTFILE', 'BY', 'DESC']
    CLAUSES = {
        'where/ids': ('where', [('where', ('a.b', 1), {}), ('where', ('id', 10), {})], 'WHERE "a"."b" = 1 AND "id" = 10'),
        'where/text': ('where', [('where', ('id', 'some text'), {}), ('where', ('x', "it's a+b (c) [d] {e} $f ^g"), {})], 'WHERE "id" = \'some text\' AND "x" = \'it\'\'s a+b (c) [d] {e} $f ^g\''),
        'where/like': ('where', [('where', ('n', 'R'), {})], None),
        'having': ('having', [('having', ('a.b', '%s {} {0} .*'), {})], 'HAVING "a"."b" = \'%s {} {0} .*\''),
        'order_by': ('order_by', [('order_by', ('a', 'x.y'), {})], 'ORDER BY "a", "x"."y"'),
        'group_by': ('group_by', [('group_by', ('id', 'b'), {})], 'GROUP BY "id", "b"'),
        'tables': ('tables', [('from_', ('a',), {}), ('join', ('b',), {}), ('on', ('a.id', 'b.id'), {})], 'FROM "a" JOIN "b" ON "a"."id" = "b"."id"'),
        'columns': ('columns', [('columns', ('a', 'id', 'x.y'), {})], '"a", "id", "x"."y"'),
        'limit': ('limit', [('limit', (1, 10), {})], 'LIMIT 1 OFFSET 10'),
        'into_outfile': ('into_outfile', [('into_outfile', ('some text.*',), {}), ('fields_terminated_by', ('|',), {})], "INTO OUTFILE 'some text.*' FIELDS TERMINATED BY '|'"),
        'custom': ('where', [('where', ('CUSTOM',), {})], 'WHERE a.*b|(c) [x] \\w $1 ^ {2} é ünï'),
    }
    for label, (clause, calls, tx) in CLAUSES.items():
        if tx is None:
            continue

        def words(S, clause=clause, calls=calls, tx=tx, label=label):
            q = S.call('select') if clause != 'columns' else S.call('select')
            for m, a, k in calls:
                a = tuple(S.call('C', tx[len('WHERE '):]) if x == 'CUSTOM' else x for x in a)
                S.m(q, m, *a, **k)
            full = S.text(q)
            S.check(tx in full, 'obligation: clause text %r not in %r' % (tx, full))
            sub_ = sorted({tx[i:j] for i in range(len(tx)) for j in range(i + 1, min(len(tx), i + 7) + 1)})
            if tier != 'thorough':
                sub_ = sub_[::5]
            for w in TEXTS + sub_:
                r = S.outcome(lambda: S.m(q, 'has', clause, w))
                S.check(r[0] == 'ok', '%s: has(%r, %r) raises' % (label, clause, w))
                want = occurs(tx, w)
                S.check(S.ip.truth(r[1]) == want, '%s: has(%r, %r) is not %s; the clause is %s' % (label, clause, w, want, tx))
            for w in (1, 10, 2):
                S.check(S.ip.truth(S.m(q, 'has', clause, w)) == occurs(tx, str(w)), '%s: has(%r, %r)' % (label, clause, w))
            for o in (S.call('C', 'a'), S.call('R', 'id'), S.call('V', 'some text'), S.call('R', 'a.b')):
                S.check(S.ip.truth(S.m(q, 'has', clause, o)) == occurs(tx, S.text(o)), '%s: has(%r, SQL object %s)' % (label, clause, S.text(o)))
            for other in CLAUSES.values():
                if other[0] not in (clause, 'columns'):
                    S.check(not S.ip.truth(S.m(q, 'has', other[0], 'a')), '%s: has(%r, a)' % (label, other[0]))
            S.expect(q, full, 'text after has()')
        yield 'text/%s' % label, words

    for kind in ('select', 'insert', 'update', 'delete', 'union'):
        for n in ('where', 'columns', 'tables', 'values', 'references', 'order_by', 'xxx', None):
            def anytext(S, kind=kind, n=n):
                # any text: an answer, never an exception; nothing changes
                w = S.nstr('w')
                q = start(S, kind)
                before = S.text(q)
                r = S.m(q, 'has', n, w) if n else S.m(q, 'has', w)
                S.check(isinstance(S.ip.truth(r), bool), 'no answer')
                S.expect(q, before, 'query after has()')
                if n:
                    e = S.call('select')
                    S.check(n == 'columns' or not S.ip.truth(S.m(e, 'has', n, w)), 'has(%s, any text) of an empty select' % n)
            yield 'text/any/%s/%s' % (kind, n), anytext

    def upserts(S):
        for be in ('mysql', 'postgresql'):
            S.call('configure', be)
            n = {'mysql': 'on_duplicate_key_update', 'postgresql': 'on_conflict_do_update'}[be]
            q = S.m(S.call('insert_into', 't'), 'values', a=1)
            for x in ('on_duplicate_key_update', 'on_conflict_do_update'):
                S.check(not S.ip.truth(S.m(q, 'has', x)), 'has(%r) of a plain insert' % x)
            S.m(q, 'on_duplicate_key_update', *(('id',) if be == 'postgresql' else ()), u=5)
            for x in ('on_duplicate_key_update', 'on_conflict_do_update'):
                S.check(S.ip.truth(S.m(q, 'has', x)) == (x == n), 'has(%r) of an upsert on %s' % (x, be))
            S.check(S.ip.truth(S.m(q, 'has', n, 'u')), 'has(%r, u)' % n)
            S.check(not S.ip.truth(S.m(q, 'has', n, 'a')), 'has(%r, a)' % n)
        S.call('configure', 'sqlite')
        q = S.m(S.call('insert_into', 't'), 'values', a=1)
        S.check(S.ip.truth(S.m(q, 'has', 'keyword', 'INSERT')) and not S.ip.truth(S.m(q, 'has', 'keyword', 'REPLACE')), 'keyword of insert')
        S.m(q, 'on_duplicate_key_update')
        S.check(not S.ip.truth(S.m(q, 'has', 'keyword', 'INSERT')) and S.ip.truth(S.m(q, 'has', 'keyword', 'REPLACE')), 'keyword of replace')
    yield 'upserts', upserts

    def union(S):
        u = rich(S, 'union')
        for n in list(SELECT_C) + ['columns', 'distinct', 'values'] + UNKNOWN:
            S.check(not S.ip.truth(S.m(u, 'has', n)), 'has(%r) of a union' % n)
            S.check(not S.ip.truth(S.m(u, 'has', n, 'a')), 'has(%r, a) of a union' % n)
    yield 'union', union

    def more(S):
        # other calls that set the same clause
        for n, st in (('tables', ('from_table', ('x', 'y'), {})), ('tables', ('from_tables', ('x', 'y'), {})), ('where', ('where', (S.call('C', 'x'),), {})), ('where', ('where', (S.call('Q', a=1),), {})),
                      ('where', ('where', (S.call('Not', a=1),), {})), ('where', ('where', (S.call('exists', sub(S)),), {})), ('where', ('where', (S.dict(('a', None)),), {})), ('limit', ('offset', (3,), {})), ('limit', ('limit', (0,), {})), ('order_by', ('order_by', (1,), {})),
                      ('having', ('having', (S.call('C', 'x'),), {})), ('group_by', ('group_by', (S.tuple('x', 'desc'),), {})), ('into_outfile', ('into_outfile', ('',), {}))):
            q = S.call('select')
            S.m(q, st[0], *st[1], **st[2])
            for x in SELECT_C:
                S.check(S.ip.truth(S.m(q, 'has', x)) == (x == n), 'has(%r) after %s()' % (x, st[0]))
        # calls that set nothing
        for st in (('where', (), {}), ('where', (S.dict(),), {}), ('where', (S.call('Q'),), {}), ('from_', (), {}), ('order_by', (), {}), ('group_by', (), {}), ('having', (), {}), ('limit', (None,), {}), ('offset', (0,), {}), ('distinct', (False,), {}), ('for_update', (False,), {})):
            q = S.call('select')
            S.m(q, st[0], *st[1], **st[2])
            S.check(S.ip.truth(S.m(q, 'has', 'columns')), 'has(columns)')
            for x in SELECT_C:
                S.check(not S.ip.truth(S.m(q, 'has', x)), 'has(%r) after %s() without anything' % (x, st[0]))
    yield 'other calls', more
