"""C23: every embedding position x every subquery; chains of union operators;
operands not modified; SQL objects as dict keys."""
import itertools
from .common import *


def subqueries(S):
    """(label, make)"""
    U = lambda a, b: S.op('BitOr', a, b)
    A = lambda a, b: S.op('BitAnd', a, b)
    sel = lambda: S.call('select', 'a')
    return [
        ('bare select', lambda: S.call('select', 1)),
        ('select', lambda: sub(S)),
        ('full select', lambda: rich(S, 'select')),
        ('select with value', lambda: S.m(S.call('select_from', 't'), 'where', w=S.int('v1'))),
        ('select with string', lambda: S.m(S.call('select_from', 't'), 'where', w=S.str('sv'))),
        ('select of select', lambda: S.call('select', sub(S))),
        ('select from select', lambda: S.call('select_from', S.tuple(sub(S), 'x'))),
        ('select in select', lambda: S.m(S.call('select_from', 't'), 'where', 'c', sub(S))),
        ('union', lambda: U(sel(), sub(S))),
        ('union all', lambda: A(sel(), sub(S))),
        ('long union', lambda: U(A(sel(), sub(S)), S.call('select', 'z'))),
        ('union of full selects', lambda: U(rich(S, 'select'), rich(S, 'select'))),
        ('select from union', lambda: S.call('select_from', S.tuple(U(sel(), sel()), 'u'))),
    ]


T = lambda S: S.call('select_from', 't')
POS = {
    'column': lambda S, s: S.call('select', s),
    'column by columns()': lambda S, s: S.m(S.call('select', 'k'), 'columns', s),
    'column with alias': lambda S, s: S.call('select', S.tuple(s, 'al')),
    'column as dict key': lambda S, s: S.call('select', S.dict((s, 'al'))),
    'table': lambda S, s: S.call('select_from', s),
    'table with alias': lambda S, s: S.call('select_from', S.tuple(s, 'al')),
    'table by from_table': lambda S, s: S.m(S.call('select'), 'from_table', s, 'al'),
    'table by from_table alone': lambda S, s: S.m(S.call('select'), 'from_table', s),
    'table as dict key': lambda S, s: S.call('select_from', S.dict((s, 'al'))),
    'condition column': lambda S, s: S.m(T(S), 'where', s, 1),
    'condition column in dict': lambda S, s: S.m(T(S), 'where', S.dict((s, 1))),
    'condition column in list': lambda S, s: S.m(T(S), 'where', S.list(S.tuple(s, 1))),
    'condition value': lambda S, s: S.m(T(S), 'where', 'c', s),
    'condition value by keyword': lambda S, s: S.m(T(S), 'where', c=s),
    'condition value in dict': lambda S, s: S.m(T(S), 'where', S.dict(('c', s))),
    'both sides of a condition': lambda S, s: S.m(T(S), 'where', s, s),
    'EQ': lambda S, s: S.m(T(S), 'where', c=S.rel('EQ', s)),
    'NE': lambda S, s: S.m(T(S), 'where', c=S.rel('NE', s)),
    'GT': lambda S, s: S.m(T(S), 'where', c=S.rel('GT', s)),
    'GE': lambda S, s: S.m(T(S), 'where', c=S.rel('GE', s)),
    'LT': lambda S, s: S.m(T(S), 'where', c=S.rel('LT', s)),
    'LE': lambda S, s: S.m(T(S), 'where', c=S.rel('LE', s)),
    'LIKE': lambda S, s: S.m(T(S), 'where', c=S.rel('LIKE', s)),
    'IN': lambda S, s: S.m(T(S), 'where', c=S.rel('IN', s)),
    'NOT_IN': lambda S, s: S.m(T(S), 'where', c=S.rel('NOT_IN', s)),
    'IN list': lambda S, s: S.m(T(S), 'where', c=S.rel('IN', S.list(1, s))),
    'list operand': lambda S, s: S.m(T(S), 'where', c=S.list(s, 2)),
    'having value': lambda S, s: S.m(T(S), 'having', 'c', s),
    'having column': lambda S, s: S.m(T(S), 'having', s, 5),
    'Q value': lambda S, s: S.m(T(S), 'where', S.op('BitOr', S.call('Q', c=s), S.call('Q', d=1))),
    'Not value': lambda S, s: S.m(T(S), 'where', S.call('Not', c=s)),
    'join table': lambda S, s: S.m(T(S), 'join', S.tuple(s, 'j')),
    'join table in list': lambda S, s: S.m(T(S), 'left_join', S.list(s, 'j')),
    'join table as dict key': lambda S, s: S.m(T(S), 'right_join', S.dict((s, 'j'))),
    'join condition value': lambda S, s: S.m(S.m(T(S), 'join', 'u'), 'on', 'c', s),
    'join condition column': lambda S, s: S.m(S.m(T(S), 'join', 'u'), 'on', s, 1),
    'order': lambda S, s: S.m(T(S), 'order_by', s),
    'order with sort': lambda S, s: S.m(T(S), 'order_by', S.tuple(s, 'desc')),
    'order as dict key': lambda S, s: S.m(T(S), 'order_by', S.dict((s, 'desc'))),
    'group': lambda S, s: S.m(T(S), 'group_by', s),
    'count': lambda S, s: S.call('count', s),
    'max': lambda S, s: S.call('max', s),
    'avg_distinct': lambda S, s: S.call('avg_distinct', s),
    'concat': lambda S, s: S.call('concat', 'k', s, 'm'),
    'group_concat': lambda S, s: S.call('group_concat', s),
    'convert': lambda S, s: S.call('convert', s, 'int'),
    'list of function': lambda S, s: S.call('count_distinct', S.list('k', s)),
    'V': lambda S, s: S.call('V', s),
    'R': lambda S, s: S.call('R', s),
    'V in list': lambda S, s: S.call('V', S.list(s, s)),
    'set value': lambda S, s: S.m(S.m(S.call('update', 'u'), 'where', i=1), 'set', c=s),
    'set value in dict': lambda S, s: S.m(S.m(S.call('update', 'u'), 'where', i=1), 'set', S.dict(('c', s))),
    'update condition': lambda S, s: S.m(S.m(S.call('update', 'u'), 'set', a=1), 'where', c=s),
    'update table': lambda S, s: S.m(S.m(S.call('update', s), 'set', a=1), 'where', c=1),
    'delete condition': lambda S, s: S.m(S.call('delete_from', 'u'), 'where', c=s),
    'delete condition column': lambda S, s: S.m(S.call('delete_from', 'u'), 'where', s, 1),
    'insert value': lambda S, s: S.m(S.call('insert_into', 'u'), 'values', c=s, d=1),
    'insert second row': lambda S, s: S.m(S.m(S.call('insert_into', 'u'), 'values', c=1), 'values', c=s, d=s),
    'exists': lambda S, s: S.call('exists', s),
    'exists in where': lambda S, s: S.m(T(S), 'where', S.call('exists', s)),
    'exists in Not': lambda S, s: S.m(T(S), 'where', S.call('Not', S.call('exists', s))),
}
# what each renders, @ standing for the subquery in its parentheses
TEXT = {
    'column': 'SELECT @', 'column by columns()': 'SELECT "k", @', 'column with alias': 'SELECT @ AS "al"', 'column as dict key': 'SELECT @ AS "al"',
    'table': 'SELECT * FROM @', 'table with alias': 'SELECT * FROM @ AS "al"', 'table by from_table': 'SELECT * FROM @ AS "al"', 'table by from_table alone': 'SELECT * FROM @', 'table as dict key': 'SELECT * FROM @ AS "al"',
    'condition column': 'W @ = 1', 'condition column in dict': 'W @ = 1', 'condition column in list': 'W @ = 1',
    'condition value': 'W "c" = @', 'condition value by keyword': 'W "c" = @', 'condition value in dict': 'W "c" = @', 'both sides of a condition': 'W @ = @',
    'EQ': 'W "c" = @', 'NE': 'W "c" != @', 'GT': 'W "c" > @', 'GE': 'W "c" >= @', 'LT': 'W "c" < @', 'LE': 'W "c" <= @', 'LIKE': 'W "c" LIKE @', 'IN': 'W "c" IN @', 'NOT_IN': 'W "c" NOT IN @',
    'IN list': 'W "c" IN (1, @)', 'list operand': 'W "c" IN (@, 2)', 'having value': 'SELECT * FROM "t" HAVING "c" = @', 'having column': 'SELECT * FROM "t" HAVING @ = 5',
    'Q value': 'W ("c" = @ OR "d" = 1)', 'Not value': 'W NOT("c" = @)',
    'join table': 'SELECT * FROM "t" JOIN @ AS "j"', 'join table in list': 'SELECT * FROM "t" LEFT JOIN @ AS "j"', 'join table as dict key': 'SELECT * FROM "t" RIGHT JOIN @ AS "j"',
    'join condition value': 'SELECT * FROM "t" JOIN "u" ON "c" = @', 'join condition column': 'SELECT * FROM "t" JOIN "u" ON @ = 1',
    'order': 'SELECT * FROM "t" ORDER BY @', 'order with sort': 'SELECT * FROM "t" ORDER BY @ DESC', 'order as dict key': 'SELECT * FROM "t" ORDER BY @ DESC', 'group': 'SELECT * FROM "t" GROUP BY @',
    'count': 'COUNT(@)', 'max': 'MAX(@)', 'avg_distinct': 'AVG(DISTINCT @)', 'concat': 'CONCAT("k", @, "m")', 'group_concat': 'GROUP_CONCAT(@)', 'convert': 'CONVERT(@, INT)', 'list of function': 'COUNT(DISTINCT "k", @)',
    'V': '@', 'R': '@', 'V in list': '(@, @)',
    'set value': 'UPDATE "u" SET "c" = @ WHERE "i" = 1', 'set value in dict': 'UPDATE "u" SET "c" = @ WHERE "i" = 1', 'update condition': 'UPDATE "u" SET "a" = 1 WHERE "c" = @', 'update table': 'UPDATE @ SET "a" = 1 WHERE "c" = 1',
    'delete condition': 'DELETE FROM "u" WHERE "c" = @', 'delete condition column': 'DELETE FROM "u" WHERE @ = 1',
    'insert value': 'INSERT INTO "u" ("c", "d") VALUES (@, 1)', 'insert second row': 'INSERT INTO "u" ("c", "d") VALUES (1, NULL), (@, @)',
    'exists': 'EXISTS@', 'exists in where': 'W EXISTS@', 'exists in Not': 'W NOT(EXISTS@)',
}


def want(S, pos, t, q='"'):
    x = TEXT[pos].replace('W ', 'SELECT * FROM "t" WHERE ', 1) if TEXT[pos].startswith('W ') else TEXT[pos]
    x = x.replace('"', q)
    parts = x.split('@')
    out = [parts[0]]
    for p in parts[1:]:
        out += ['(', t, ')', p]
    return cat(*out)


def obligations(tier):
    for i, (pos, f) in enumerate(POS.items()):
        for be in BACKENDS:
            def emb(S, pos=pos, f=f, be=be):
                S.configure(be)
                for l, mk_ in subqueries(S):
                    s = mk_()
                    t = S.text(mk_())
                    S.expect(f(S, s), want(S, pos, t, QUOTE[be]), '%s as %s' % (l, pos))
                    S.expect(s, t, '%s after its use as %s' % (l, pos))
                    S.check(S.eq(s, mk_()), '%s changed by its use as %s' % (l, pos))
            if be == 'sql' or be == 'mysql' and i % 3 == 0 or tier == 'thorough':
                yield 'embedding/%s/%s' % (pos, be), emb

        def later(S, pos=pos, f=f):
            # a change made later shows (or not) as a whole: one pair of parentheses, complete text
            s = sub(S)
            o = f(S, s)
            S.text(o)
            S.m(s, 'where', late=S.int('late'))
            t = S.text(s)
            a, b = want(S, pos, t), want(S, pos, S.text(sub(S)))
            r = S.text(o)
            S.check(S.same(r, a) or S.same(r, b), '%s: subquery changed later is rendered as %s' % (pos, show(S.norm(r))))
        yield 'later/%s' % pos, later

    U = ('BitOr', ' UNION ')
    A = ('BitAnd', ' UNION ALL ')
    lens = (1, 2, 3, 4, 5) if tier == 'thorough' else (1, 2, 3, 4)
    for n in lens:
        for ops in itertools.product((U, A), repeat=n):
            def chain(S, ops=ops, n=n):
                ss = [S.m(S.call('select', 'c%d' % i), 'where', w=S.int('i%d' % i)) for i in range(n + 1)]
                ts = [S.text(s) for s in ss]
                u = ss[0]
                tx = [ts[0]]
                mids = []
                for (o, kw), s, t in zip(ops, ss[1:], ts[1:]):
                    v = S.op(o, u, s)
                    S.check(v is not u and v is not s, 'union returns its operand')
                    tx += [kw, t]
                    S.expect(v, cat(*tx), 'chain of %d' % n)
                    mids.append((u, S.text(u)))
                    u = v
                for m, t in mids:
                    S.expect(m, t, 'operand of the chain')
                for s, t in zip(ss, ts):
                    S.expect(s, t, 'operand of the chain')
                c = S.m(u, 'copy')
                S.expect(c, cat(*tx), 'copy of the chain')
                # order and identity: each select once, in order
                S.expect(S.call('select', u), cat('SELECT (', cat(*tx), ')'), 'chain as column')
                S.expect(S.call('select_from', S.tuple(u, 'x')), cat('SELECT * FROM (', cat(*tx), ') AS "x"'), 'chain as table')
                S.expect(S.call('exists', u), cat('EXISTS(', cat(*tx), ')'), 'exists of a chain')
            yield 'chain/%s' % ''.join('|' if o is U else '&' for o in ops), chain

    def kinds(S, k=0):
        for (l1, m1), (l2, m2) in itertools.product(subqueries(S)[k::7], subqueries(S)):
            for op, kw in (U, A):
                a, b = m1(), m2()
                ta, tb = S.text(m1()), S.text(m2())
                S.expect(S.op(op, a, b), cat(ta, kw, tb), '%s %s %s' % (l1, op, l2))
                S.expect(a, ta, 'left operand')
                S.expect(b, tb, 'right operand')
    for k in range(7):
        yield 'union/operand kinds/%d' % k, lambda S, k=k: kinds(S, k)

    def both(S):
        ss = [S.call('select', 'c%d' % i) for i in range(6)]
        ts = [S.text(s) for s in ss]
        for (o1, k1), (o2, k2), (o3, k3) in itertools.product((U, A), repeat=3):
            u, v = S.op(o1, ss[0], ss[1]), S.op(o3, ss[2], ss[3])
            S.expect(S.op(o2, u, v), cat(ts[0], k1, ts[1], k2, ts[2], k3, ts[3]), 'union of two unions')
            S.expect(S.op(o2, ss[4], v), cat(ts[4], k2, ts[2], k3, ts[3]), 'select with a union')
            w = S.op(o1, S.op(o2, u, v), S.op(o3, ss[4], ss[5]))
            S.expect(w, cat(ts[0], k1, ts[1], k2, ts[2], k3, ts[3], k1, ts[4], k3, ts[5]), 'union of three unions')
            S.expect(u, cat(ts[0], k1, ts[1]), 'left operand')
            S.expect(v, cat(ts[2], k3, ts[3]), 'right operand')
        for n in sizes(S, 7):
            u, t = ss[0], [ts[0]]
            for i in range(n):
                o, k = (U, A)[i % 3 == 1]
                u, t = S.op(o, u, ss[i % 6]), t + [k, ts[i % 6]]
            S.expect(u, cat(*t), 'chain of %d' % n)
    yield 'union/unions on both sides', both

    def same(S):
        s = sub(S)
        for op, kw in (U, A):
            S.expect(S.op(op, s, s), cat(S.text(s), kw, S.text(s)), 'select with itself')
            u = S.op(op, s, s)
            S.expect(S.op(op, u, s), cat(S.text(s), kw, S.text(s), kw, S.text(s)), 'union with its own operand')
        for be in BACKENDS:
            S.call('configure', be)
            for op, kw in (U, A):
                S.expect(S.op(op, sub(S), S.call('select', 1)), cat(S.text(sub(S)), kw, 'SELECT 1'), be)
        S.call('configure', 'sql')
        for bad in (None, 1, 'SELECT 1', S.list(), S.opaque(), True):
            for op, kw in (U, A):
                S.expect_raise(lambda: S.op(op, s, bad), INVALID, what='union with a wrong operand')
                S.expect_raise(lambda: S.op(op, S.op(op, s, s), bad), INVALID, what='union with a wrong operand')
        S.expect(s, S.text(sub(S)), 'operand after refused unions')
    yield 'union/same operand and wrong operand', same

    # SQL objects as dict keys
    OBJ = {
        'Select': lambda S: (sub(S), cat('(', S.text(sub(S)), ')')),
        'Union': lambda S: (S.op('BitOr', sub(S), sub(S)), cat('(', S.text(S.op('BitOr', sub(S), sub(S))), ')')),
        'Union all': lambda S: (S.op('BitAnd', sub(S), sub(S)), cat('(', S.text(S.op('BitAnd', sub(S), sub(S))), ')')),
        'C': lambda S: (S.call('C', 'x + 1'), 'x + 1'),
        'V': lambda S: (S.call('V', 'v'), "'v'"),
        'R': lambda S: (S.call('R', 'r'), '"r"'),
        'count': lambda S: (S.call('count', 'x'), 'COUNT("x")'),
        'avg': lambda S: (S.call('avg_distinct', 'x'), 'AVG(DISTINCT "x")'),
        'concat': lambda S: (S.call('concat', 'x', 'y'), 'CONCAT("x", "y")'),
        'group_concat': lambda S: (S.call('group_concat', 'x'), 'GROUP_CONCAT("x")'),
        'convert': lambda S: (S.call('convert', 'x', 'int'), 'CONVERT("x", INT)'),
        'Not': lambda S: (S.call('Not', a=1), 'NOT("a" = 1)'),
        'exists': lambda S: (S.call('exists', sub(S)), cat('EXISTS(', S.text(sub(S)), ')')),
    }
    KEYS = {
        'columns': (lambda S, d: S.call('select', d), 'al', lambda t: cat('SELECT ', t, ' AS "al"')),
        'columns()': (lambda S, d: S.m(S.call('select'), 'columns', d), 'al', lambda t: cat('SELECT ', t, ' AS "al"')),
        'tables': (lambda S, d: S.call('select_from', d), 'al', lambda t: cat('SELECT * FROM ', t, ' AS "al"')),
        'join': (lambda S, d: S.m(S.call('select_from', 't'), 'join', d), 'al', lambda t: cat('SELECT * FROM "t" JOIN ', t, ' AS "al"')),
        'where': (lambda S, d: S.m(S.call('select_from', 't'), 'where', d), 5, lambda t: cat('SELECT * FROM "t" WHERE ', t, ' = 5')),
        'having': (lambda S, d: S.m(S.call('select_from', 't'), 'having', d), 5, lambda t: cat('SELECT * FROM "t" HAVING ', t, ' = 5')),
        'Q': (lambda S, d: S.call('Q', d), 5, lambda t: cat(t, ' = 5')),
        'on': (lambda S, d: S.m(S.m(S.call('select_from', 't'), 'join', 'u'), 'on', d), 5, lambda t: cat('SELECT * FROM "t" JOIN "u" ON ', t, ' = 5')),
        'order_by': (lambda S, d: S.m(S.call('select_from', 't'), 'order_by', d), 'desc', lambda t: cat('SELECT * FROM "t" ORDER BY ', t, ' DESC')),
        'group_by': (lambda S, d: S.m(S.call('select_from', 't'), 'group_by', d), 'desc', lambda t: cat('SELECT * FROM "t" GROUP BY ', t, ' DESC')),
        'set': (lambda S, d: S.m(S.m(S.call('update', 't'), 'where', i=1), 'set', d), 5, lambda t: cat('UPDATE "t" SET ', t, ' = 5 WHERE "i" = 1')),
    }
    for on, om in OBJ.items():
        def keys(S, on=on, om=om):
            for kn, (f, v, tx) in KEYS.items():
                for dk in ('dict', 'OrderedDict'):
                    o, t = om(S)
                    S.expect(f(S, S.dict((o, v), kind=dk)), tx(t), '%s as key of %s in %s' % (on, dk, kn))
            # next to string keys and other objects
            o, t = om(S)
            r = S.text(S.call('select', S.dict((o, 'al'), ('zz', 'z'), kind='OrderedDict')))
            S.expect(r, cat('SELECT ', t, ' AS "al", "zz" AS "z"'), '%s next to a string key' % on)
            r = S.text(S.call('select', S.dict((o, 'al'), ('zz', 'z'))))
            a, b = cat(t, ' AS "al"'), '"zz" AS "z"'
            S.check(S.same(r, cat('SELECT ', a, ', ', b)) or S.same(r, cat('SELECT ', b, ', ', a)), '%s next to a string key: %s' % (on, show(r)))
            for on2, om2 in OBJ.items():
                if on2 == on:
                    continue
                o2, t2 = om2(S)
                r = S.text(S.call('select', S.dict((o, 'al'), (o2, 'bl'))))
                a, b = cat(t, ' AS "al"'), cat(t2, ' AS "bl"')
                S.check(S.same(r, cat('SELECT ', a, ', ', b)) or S.same(r, cat('SELECT ', b, ', ', a)), '%s next to %s: %s' % (on, on2, show(r)))
            # a dict of the caller: found again by the same object
            d = S.dict((o, 1))
            S.check(S.ip.truth(S.ip.compare('In', o, d)), '%s is not found in a dict under itself' % on)
            S.check(S.ip.truth(S.ip.compare('Eq', S.ip.call(S.ip.builtins['hash'], [o]), S.ip.call(S.ip.builtins['hash'], [o]))), 'hash of %s is not stable' % on)
        yield 'keys/%s' % on, keys
