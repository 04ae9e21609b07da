"""C10: sequences of parts added to one clause, with names, aliases, operators
and values that may or may not coincide: exactly the duplicates are merged,
all other parts are kept in order; re-ordering replaces the direction only."""
import datetime
import decimal
from .clauses import *


def dedupe(S, parts, same):
    out = []
    for p in parts:
        if not any(same(p, o) for o in out):
            out.append(p)
    return out


def eqs(S, a, b):
    """Equality of two constants/abstract strings or ints, decided per partition."""
    if a is None or b is None:
        return a is b
    if a is b:
        return True
    return S.eq(a, b)


NEAR = [('a', 'A'), ('a', ' a'), ('a', 'a '), ('a', 'aa'), ('t.a', 'a'), ('t.a', 'u.a'), ('a.b', 'a'), ('a1', 'a'), ('*', 't.*'), ('a', 'b'), ('ab', 'ba'),
        ('a', 'a_'), ('id', 'ID'), ('é', 'e'), ('a.b', 'b.a'), ('1', '01'), ('select', 'SELECT'), ('a', 'a%'), ('x.a', 'xa')]
VALS = {
    'one': lambda S: 1, 'True': lambda S: True, '1.0': lambda S: 1.0, 'Decimal(1)': lambda S: decimal.Decimal(1), "'1'": lambda S: '1',
    'zero': lambda S: 0, 'False': lambda S: False, '0.0': lambda S: 0.0, 'None': lambda S: None, "''": lambda S: '', 'Decimal(0)': lambda S: decimal.Decimal(0),
    "'True'": lambda S: 'True', "'None'": lambda S: 'None', "'NULL'": lambda S: 'NULL', '2': lambda S: 2, '-1': lambda S: -1,
    "C('1')": lambda S: S.call('C', '1'), "C('NULL')": lambda S: S.call('C', 'NULL'), 'V(1)': lambda S: S.call('V', 1), "R('1')": lambda S: S.call('R', '1'),
    'date': lambda S: datetime.date(2020, 1, 1), 'datetime': lambda S: datetime.datetime(2020, 1, 1), "'2020-01-01'": lambda S: '2020-01-01',
    "'a'": lambda S: 'a', "'A'": lambda S: 'A', "'a '": lambda S: 'a ', "C('a')": lambda S: S.call('C', 'a'), "R('a')": lambda S: S.call('R', 'a'), "V('a')": lambda S: S.call('V', 'a'),
}
LISTS = {
    '[1]': lambda S: S.list(1), '[True]': lambda S: S.list(True), '[1.0]': lambda S: S.list(1.0), "['1']": lambda S: S.list('1'), '[1,2]': lambda S: S.list(1, 2),
    '[2,1]': lambda S: S.list(2, 1), '[0]': lambda S: S.list(0), '[False]': lambda S: S.list(False), "['']": lambda S: S.list(''), '[None]': lambda S: S.list(None),
    '[1,None]': lambda S: S.list(1, None), '1': lambda S: 1, "[C('1')]": lambda S: S.list(S.call('C', '1')), "'1'": lambda S: '1',
}
RELS = ['EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE', 'REGEXP']
RELOP = {'EQ': '=', 'NE': '!=', 'GT': '>', 'GE': '>=', 'LT': '<', 'LE': '<=', 'LIKE': 'LIKE', 'NOT_LIKE': 'NOT LIKE', 'REGEXP': 'REGEXP'}


def addpart(S, c, q, k, v):
    if c in PAIRS:
        return c.add(S, q, S.list(S.tuple(k, v)))
    return c.add(S, q, S.tuple(k, v))


def obligations(tier):
    seqpairs = [c for c in PAIRS if not c.fresh]
    seqalias = [c for c in ALIASES if not c.fresh]
    for c in seqalias:
        def names(S, c=c):
            n = [S.plain('n%d' % i) for i in range(3)]
            S.maybe_equal('n0', 'n1', 'n2')
            q = c.begin(S)
            for x in n:
                q = c.add(S, q, x)
            S.text(q)
            ps = dedupe(S, [(x, None) for x in n], lambda a, b: eqs(S, a[0], b[0]))
            S.expect(q, c.text(S, ps), '%s of three names' % c.name)
            S.expect(c.q(S, *n), c.text(S, ps), '%s of three names in one call' % c.name)
        yield 'merge/%s/names that may coincide' % c.name, names

        def many(S, c=c):
            ns = ['n%03d' % ((i * 37) % 70) for i in range(70)]
            q = c.begin(S)
            for x in ns + ns[:3] + ns[33:35] + ns[-2:]:
                q = c.add(S, q, x)
            S.expect(q, c.text(S, [(x, None) for x in ns]), '%s of many names, some of them again' % c.name)
        yield 'merge/%s/many names' % c.name, many

        def anystr(S, c=c):
            n = [S.nstr('n%d' % i) for i in range(2)]
            S.maybe_equal('n0', 'n1')
            t = S.text(c.q(S, *n))
            want = n[:1] if eqs(S, n[0], n[1]) else n
            S.expect(t, c.text(S, [(x, None) for x in want]), '%s of any two strings' % c.name)
        yield 'merge/%s/any strings' % c.name, anystr

        for pat in itertools.product([0, 1], repeat=2):
            def aliases(S, c=c, pat=pat):
                n = [S.plain('n%d' % i) for i in range(2)]
                al = [S.plain('x%d' % i) if pat[i] else None for i in range(2)]
                S.maybe_equal('n0', 'n1', 'x0', 'x1')
                q = c.begin(S)
                for i in (0, 1, 0):
                    q = c.add(S, q, S.tuple(n[i], al[i]))
                S.text(q)
                ps = dedupe(S, list(zip(n, al)), lambda a, b: eqs(S, a[0], b[0]) and eqs(S, a[1], b[1]))
                S.expect(q, c.text(S, ps), '%s with aliases' % c.name)
            yield 'merge/%s/aliases that may coincide %d%d' % (c.name, *pat), aliases

        def near(S, c=c):
            for a, b in NEAR:
                S.expect(c.q(S, a, b), c.text(S, [(a, None), (b, None)]), '%s of %r and %r' % (c.name, a, b))
                S.expect(c.q(S, S.tuple('k', a), S.tuple('k', b)), c.text(S, [('k', a), ('k', b)]), '%s with aliases %r and %r' % (c.name, a, b))
                S.expect(c.q(S, a, b, a), c.text(S, [(a, None), (b, None)]), '%s of %r, %r and %r' % (c.name, a, b, a))
        yield 'merge/%s/similar names' % c.name, near

        def kinds(S, c=c):
            x = 'xx'
            objs = [('str', lambda: x, S.R(x)), ('C', lambda: S.call('C', x), x), ('C quoted', lambda: S.call('C', '"xx"'), '"xx"'), ('V', lambda: S.call('V', x), S.V(x)),
                    ('R', lambda: S.call('R', x), S.R(x)), ('sub', lambda: sub(S), cat('(', S.text(sub(S)), ')')), ('str C', lambda: '"xx"', '"xx"')]
            if c.name == 'columns':
                objs.append(('count', lambda: S.call('count', x), 'COUNT("xx")'))
            for (ka, fa, ta), (kb, fb, tb) in itertools.permutations(objs, 2):
                if {ka, kb} in ({'str', 'str C'},):
                    continue
                S.expect(c.q(S, fa(), fb()), cat(c.head, ta, c.sep, tb, c.tail), '%s of %s and %s' % (c.name, ka, kb))
            for k, f, t in objs:
                S.expect(c.q(S, f(), f()), cat(c.head, t, c.tail), '%s of the same %s twice' % (c.name, k))
                S.expect(c.q(S, f(), S.tuple(f(), 'al')), cat(c.head, t, c.sep, t, ' AS "al"', c.tail), '%s of the same %s with and without alias' % (c.name, k))
        yield 'merge/%s/kinds of names' % c.name, kinds

    for c in seqpairs:
        def both(S, c=c):
            S.configure(c.backend)
            n = [S.plain('n%d' % i) for i in range(2)]
            v = [S.int('v%d' % i) for i in range(2)]
            S.maybe_equal('n0', 'n1', 'v0', 'v1')
            q = c.begin(S)
            for i in (0, 1, 0, 1):
                q = addpart(S, c, q, n[i], v[i])
            S.text(q)
            ps = dedupe(S, list(zip(n, v)), lambda a, b: eqs(S, a[0], b[0]) and eqs(S, a[1], b[1]))
            S.expect(q, c.text(S, ps), '%s with names and values' % c.name)
        yield 'merge/%s/names and values that may coincide' % c.name, both

        def many(S, c=c):
            S.configure(c.backend)
            ns = [('n%03d' % (i % 20), i) for i in range(60)]
            q = c.begin(S)
            for k, v in ns + ns[:3] + ns[33:35] + ns[-2:]:
                q = addpart(S, c, q, k, v)
            S.expect(q, c.text(S, ns), '%s of many parts, some of them again' % c.name)
        yield 'merge/%s/many parts' % c.name, many

        def three(S, c=c):
            S.configure(c.backend)
            v = [S.int('v%d' % i) for i in range(3)]
            S.maybe_equal('v0', 'v1', 'v2')
            q = c.begin(S)
            for x in v:
                q = addpart(S, c, q, 'k', x)
            S.text(q)
            ps = dedupe(S, [('k', x) for x in v], lambda a, b: eqs(S, a[1], b[1]))
            S.expect(q, c.text(S, ps), '%s with three values' % c.name)
        yield 'merge/%s/three values that may coincide' % c.name, three

        for vk in ('float', 'Decimal', 'date', 'datetime', 'bytes', 'plain'):
            if vk == 'bytes' and c.name not in ('set', 'on duplicate key', 'on conflict') or vk == 'plain' and c.name.startswith('on'):
                continue

            def kind(S, c=c, vk=vk):
                S.configure(c.backend)
                v = [S.plain('v%d' % i) if vk == 'plain' else S.scalar(vk, 'v%d' % i) for i in range(2)]
                S.maybe_equal('v0', 'v1')
                q = c.begin(S)
                for x in v:
                    q = addpart(S, c, q, 'k', x)
                S.text(q)
                ps = dedupe(S, [('k', x) for x in v], lambda a, b: eqs(S, a[1], b[1]))
                S.expect(q, c.text(S, ps), '%s with two values of type %s' % (c.name, vk))
            yield 'merge/%s/two values of type %s that may coincide' % (c.name, vk), kind

        def near(S, c=c):
            S.configure(c.backend)
            for a, b in NEAR:
                q = addpart(S, c, addpart(S, c, c.begin(S), a, S.int('v')), b, S.int('v'))
                S.expect(q, c.text(S, [(a, S.int('v')), (b, S.int('v'))]), '%s of columns %r and %r' % (c.name, a, b))
        yield 'merge/%s/similar columns' % c.name, near

        on = c.name.startswith('on') and c.name not in ('on duplicate key', 'on conflict')
        for be in ('sql', 'postgresql'):
            if be == 'sql' and (c.backend != 'sql' or tier == 'quick' and c.name not in ('where', 'set')):
                continue

            def vals(S, c=c, on=on, be=be):
                b = be if c.backend == 'sql' else c.backend
                S.configure(b)
                names = [k for k in VALS if not (on and isinstance(VALS[k](S), str))]
                for ka, kb in itertools.permutations(names, 2):
                    if {ka, kb} in ({'V(1)', "R('1')"},):
                        continue
                    q = addpart(S, c, addpart(S, c, c.begin(S), 'k', VALS[ka](S)), 'k', VALS[kb](S))
                    f = lambda k: _part(S, c, 'k', k)
                    S.expect(q, cat(c.head, f(ka), c.sep, f(kb), c.tail), '%s of %s and %s' % (c.name, ka, kb))
                for k in names:
                    q = addpart(S, c, addpart(S, c, c.begin(S), 'k', VALS[k](S)), 'k', VALS[k](S))
                    S.expect(q, cat(c.head, _part(S, c, 'k', k), c.tail), '%s of the same %s twice' % (c.name, k))
            yield 'merge/%s/values of different types on %s' % (c.name, be), vals
        if c.name in ('set', 'on duplicate key', 'on conflict'):
            continue

        def lists(S, c=c, on=on):
            names = [k for k in LISTS if not (on and k == "'1'")]
            for ka, kb in itertools.permutations(names, 2):
                q = addpart(S, c, addpart(S, c, c.begin(S), 'k', LISTS[ka](S)), 'k', LISTS[kb](S))
                f = lambda k: _lpart(S, LISTS[k](S))
                S.expect(q, cat(c.head, f(ka), c.sep, f(kb), c.tail), '%s of %s and %s' % (c.name, ka, kb))
            for k in names:
                q = addpart(S, c, addpart(S, c, c.begin(S), 'k', LISTS[k](S)), 'k', LISTS[k](S))
                S.expect(q, cat(c.head, _lpart(S, LISTS[k](S)), c.tail), '%s of the same %s twice' % (c.name, k))
        yield 'merge/%s/lists' % c.name, lists

        def rels(S, c=c):
            for ra, rb in itertools.permutations(RELS, 2):
                v = S.call('C', 'vv')
                q = addpart(S, c, addpart(S, c, c.begin(S), 'k', S.rel(ra, v)), 'k', S.rel(rb, v))
                S.expect(q, cat(c.head, '"k" ', RELOP[ra], ' vv', c.sep, '"k" ', RELOP[rb], ' vv', c.tail), '%s of %s and %s' % (c.name, ra, rb))
            for r in RELS:
                v = S.call('C', 'vv')
                q = addpart(S, c, addpart(S, c, c.begin(S), 'k', S.rel(r, v)), 'k', S.rel(r, S.call('C', 'vv')))
                S.expect(q, cat(c.head, '"k" ', RELOP[r], ' vv', c.tail), '%s of the same %s twice' % (c.name, r))
            for ra, rb in (('IN', 'NOT_IN'), ('NOT_IN', 'IN')):
                op = {'IN': 'IN', 'NOT_IN': 'NOT IN'}
                q = addpart(S, c, addpart(S, c, c.begin(S), 'k', S.rel(ra, S.list(1))), 'k', S.rel(rb, S.list(1)))
                S.expect(q, cat(c.head, '"k" ', op[ra], ' (1)', c.sep, '"k" ', op[rb], ' (1)', c.tail), '%s of %s and %s' % (c.name, ra, rb))
            for ra, rb in (('IS', 'IS_NOT'), ('IS_NOT', 'IS')):
                op = {'IS': 'IS', 'IS_NOT': 'IS NOT'}
                q = addpart(S, c, addpart(S, c, c.begin(S), 'k', S.rel(ra, None)), 'k', S.rel(rb, None))
                S.expect(q, cat(c.head, '"k" ', op[ra], ' NULL', c.sep, '"k" ', op[rb], ' NULL', c.tail), '%s of %s and %s' % (c.name, ra, rb))
        yield 'merge/%s/operators' % c.name, rels

        def groups(S, c=c):
            Q = lambda **k: S.call('Q', **k)
            OR = lambda a, b: S.op('BitOr', a, b)
            AND = lambda a, b: S.op('BitAnd', a, b)
            cases = [
                (lambda: Q(a=1), '"a" = 1'), (lambda: Q(a=2), '"a" = 2'), (lambda: Q(a=1, b=2), '"a" = 1 AND "b" = 2'),
                (lambda: OR(Q(a=1), Q(b=2)), '("a" = 1 OR "b" = 2)'), (lambda: AND(Q(a=1), Q(b=2)), '("a" = 1 AND "b" = 2)'),
                (lambda: OR(Q(b=2), Q(a=1)), '("b" = 2 OR "a" = 1)'), (lambda: OR(Q(a=1), Q(b=3)), '("a" = 1 OR "b" = 3)'),
                (lambda: OR(Q(a=1), Q(c=2)), '("a" = 1 OR "c" = 2)'), (lambda: OR(Q(a=S.rel('GT', 1)), Q(b=2)), '("a" > 1 OR "b" = 2)')]
            for (fa, ta), (fb, tb) in itertools.permutations(cases, 2):
                q = c.add(S, c.add(S, c.begin(S), fa(), Q()), fb(), Q())
                S.expect(q, cat(c.head, ta, c.sep, tb, c.tail), '%s of two groups' % c.name)
        yield 'merge/%s/groups' % c.name, groups

    for c in ORDERS + [x for x in POSITIONAL if 'order' in x.name]:
        def dirs(S, c=c):
            n = [S.plain('n%d' % i) for i in range(3)]
            S.maybe_equal('n0', 'n1', 'n2')
            for d in (('asc', 'desc', 'asc'), ('desc', None, 'desc'), (None, 'DESC', 'Asc')):
                q = c.begin(S)
                for x, y in zip(n, d):
                    q = c.add(S, q, S.tuple(x, y))
                S.text(q)
                out = []
                for x, y in zip(n, d):
                    for o in out:
                        if eqs(S, o[0], x):
                            o[1] = y
                            break
                    else:
                        out.append([x, y])
                S.expect(q, c.text(S, out), '%s of three names with directions %s' % (c.name, d))
        yield 'reorder/%s/names that may coincide' % c.name, dirs

        def seqs(S, c=c):
            # every sequence of two columns and two directions against a model
            alpha = [('a', 'asc'), ('a', 'desc'), ('b', None), ('b', 'DESC')]
            for seq in itertools.product(alpha, repeat=3):
                q = c.begin(S)
                out = []
                for k, d in seq:
                    q = c.add(S, q, S.tuple(k, d))
                    for o in out:
                        if o[0] == k:
                            o[1] = d
                            break
                    else:
                        out.append([k, d])
                S.expect(q, c.text(S, out), '%s sequence %r' % (c.name, seq))
        yield 'reorder/%s/sequences' % c.name, seqs

        def kinds(S, c=c):
            for a, b in NEAR:
                S.expect(c.q(S, S.tuple(a, 'desc'), S.tuple(b, 'asc')), c.text(S, [(a, 'desc'), (b, 'asc')]), '%s of %r and %r' % (c.name, a, b))
            S.expect(c.q(S, S.tuple('x', 'desc'), S.tuple(S.call('C', 'x'), 'asc'), S.tuple(S.call('R', 'x'), 'desc'), S.tuple(S.call('V', 'x'), 'asc')),
                     cat(c.head, '"x" DESC, x, "x" DESC, \'x\'', c.tail), '%s of different kinds' % c.name)
            S.expect(c.q(S, S.tuple(S.call('C', 'x'), 'asc'), 'y', S.tuple(S.call('C', 'x'), 'desc')), cat(c.head, 'x DESC, "y"', c.tail), '%s of the same custom SQL' % c.name)
            S.expect(c.q(S, S.tuple(1, 'desc'), '1', S.tuple(2, 'desc')), cat(c.head, '1 DESC, "1", 2 DESC', c.tail), '%s of int and string' % c.name)
            S.expect(c.q(S, S.tuple(1, 'desc'), 2, 1), cat(c.head, '1, 2', c.tail), '%s of the same position' % c.name)
        yield 'reorder/%s/kinds of columns' % c.name, kinds

    def rows(S):
        v = [S.int('v%d' % i) for i in range(3)]
        S.maybe_equal('v0', 'v1', 'v2')
        q = S.call('insert_into', 't')
        for x in v:
            q = S.m(q, 'values', a=x)
        S.text(q)
        S.expect(q, cat('INSERT INTO "t" ("a") VALUES ', join(', ', [cat('(', S.V(x), ')') for x in v])), 'identical rows are kept')
    yield 'merge/rows are never merged', rows

    def custom(S):
        for f in ('concat', 'group_concat'):
            a, b = S.plain('a'), S.plain('b')
            S.maybe_equal('a', 'b')
            t = S.text(S.call(f, a, b))
            # arguments of a function are no clause: all are kept
            S.expect(t, cat(f.upper(), '(', join(', ', [S.R(a), S.R(b)]), ')'), f)
    yield 'merge/function columns', custom

    def clauses(S):
        # the same part in different clauses is no duplicate
        v = S.int('v')
        q = S.chain(flat(S), ('where', (), {'k': v}), ('having', (), {'k': v}), ('group_by', 'k'), ('order_by', 'k'), ('columns', 'k'), ('join', 'k'), ('on', (), {'k': v}))
        S.expect(q, cat('SELECT "k" FROM "t" JOIN "k" ON ', eqc(S, 'k', v), ' WHERE ', eqc(S, 'k', v), ' GROUP BY "k" HAVING ', eqc(S, 'k', v), ' ORDER BY "k"'), 'same part in all clauses')
        q2 = S.chain(flat(S), ('order_by', (S.tuple('k', 'desc'),)), ('group_by', 'k'))
        S.expect(q2, 'SELECT * FROM "t" GROUP BY "k" ORDER BY "k" DESC', 'order and group by the same column')
    yield 'merge/clauses are independent', clauses


def _part(S, c, k, vk):
    v = VALS[vk](S)
    if vk == 'None' and c.name not in ('set', 'on duplicate key', 'on conflict'):
        return cat(S.R(k), ' IS NULL')
    return cat(S.R(k), ' = ', S.V(v))


def _lpart(S, v):
    if not isinstance(v, Seq):
        return cat('"k" = ', S.V(v))
    items = v.items
    rest = [x for x in items if x is not None]
    if len(rest) == len(items):
        return cat('"k" IN ', S.V(v))
    if not rest:
        return '"k" IS NULL'
    return cat('("k" IN ', S.V(S.list(*rest)), ' OR "k" IS NULL)')
