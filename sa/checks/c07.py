"""C07: every expression tree over Q, &, |, Not, exists up to the bound renders
the text of its grouping specification, in every condition clause."""
import itertools
from .common import *

# trees: ('q', n) leaf with n conditions, ('&', l, r), ('|', l, r), ('not', t), ('0',) empty Q


def trees(depth, leaves):
    if depth == 0:
        return list(leaves)
    lower = trees(depth - 1, leaves)
    out = list(lower)
    for op in '&|':
        for l in lower:
            for r in lower:
                if l in leaves and r in leaves and depth > 1:
                    continue
                out.append((op, l, r))
    return out


class Names:
    def __init__(self):
        self.i = 0

    def next(self):
        self.i += 1
        return 'c%02d' % self.i


def build(S, t, names):
    """Object and specification: (object, text, number of top-level parts)."""
    if t[0] == 'q':
        conds = []
        args = {}
        for _ in range(t[1]):
            n = names.next()
            v = S.int('v' + n)
            args[n] = v
            conds.append(eqc(S, n, v))
        return S.call('Q', **args), join(' AND ', conds), t[1]
    if t[0] == 'c':
        n = names.next()
        return S.call('Q', S.call('C', n)), n, 1
    if t[0] == 'not':
        o, x, k = build(S, t[1], names)
        return S.call('Q', S.call('Not', o)), cat('NOT(', x, ')'), 1
    if t[0] == 'exists':
        return S.call('Q', S.call('exists', sub(S))), cat('EXISTS(', S.text(sub(S)), ')'), 1
    if t[0] == 'nest':
        # Q of Qs: joined by AND
        parts = [build(S, x, names) for x in t[1:]]
        return S.call('Q', *[p[0] for p in parts]), join(' AND ', [p[1] for p in parts]), len(parts)
    l, lt, ln = build(S, t[1], names)
    r, rt, rn = build(S, t[2], names)
    o = S.op('BitAnd' if t[0] == '&' else 'BitOr', l, r)
    return o, cat('(', cat('(', lt, ')') if ln > 1 else lt, ' AND ' if t[0] == '&' else ' OR ', cat('(', rt, ')') if rn > 1 else rt, ')'), 1


def show_tree(t):
    if t[0] in '&|':
        return '(%s %s %s)' % (show_tree(t[1]), t[0], show_tree(t[2]))
    if len(t) == 2 and isinstance(t[1], int):
        return 'Q%d' % t[1]
    return t[0] + ('(' + ', '.join(show_tree(x) for x in t[1:]) + ')' if len(t) > 1 else '')


def flat(S):
    return S.call('select_from', 't')


def obligations(tier):
    leaves = [('q', 1), ('q', 2)]
    d1 = trees(1, leaves)
    d2 = trees(2, leaves)
    rich = [('q', 3), ('not', ('q', 1)), ('not', ('q', 2)), ('not', ('|', ('q', 1), ('q', 2))), ('exists',), ('c',), ('nest', ('q', 1), ('q', 1)),
            ('nest', ('|', ('q', 1), ('q', 1)), ('&', ('q', 1), ('q', 2))), ('nest', ('|', ('q', 2), ('q', 1)))]
    mixed = [(op, a, b) for op in '&|' for a in rich + leaves for b in rich + leaves]
    deep = []
    for op1, op2, op3 in itertools.product('&|', repeat=3):
        for l in leaves:
            deep.append((op1, (op2, (op3, l, ('q', 1)), ('q', 1)), l))
            deep.append((op1, l, (op2, l, (op3, ('q', 1), l))))
            deep.append((op1, (op2, l, ('q', 1)), (op3, ('q', 1), l)))
    if tier != 'quick':
        d3 = trees(3, [('q', 1)])
        deep += d3[:6000]
    alltrees = rich + d2 + mixed + deep
    size = 12
    for i in range(0, len(alltrees), size):
        def ob(S, chunk=alltrees[i:i + size]):
            for t in chunk:
                o, x, n = build(S, t, Names())
                S.expect(o, x, 'tree %s' % show_tree(t))
                S.expect(S.m(flat(S), 'where', o), cat('SELECT * FROM "t" WHERE ', x), 'tree %s in where' % show_tree(t))
        yield 'grouping/trees %d..%d' % (i, min(i + size, len(alltrees)) - 1), ob

    clauses = {
        'having': lambda S, *o: (S.m(flat(S), 'having', *o), 'SELECT * FROM "t" HAVING '),
        'on': lambda S, *o: (S.m(S.m(flat(S), 'join', 'u'), 'on', *o), 'SELECT * FROM "t" JOIN "u" ON '),
        'delete': lambda S, *o: (S.m(S.call('delete_from', 't'), 'where', *o), 'DELETE FROM "t" WHERE '),
        'update': lambda S, *o: (S.m(S.m(S.call('update', 't'), 'set', a=1), 'where', *o), 'UPDATE "t" SET "a" = 1 WHERE '),
        'Not': lambda S, *o: (S.call('Not', *o), 'NOT('),
        'Q': lambda S, *o: (S.call('Q', *o), ''),
    }
    for c, f in clauses.items():
        def ob(S, c=c, f=f):
            tail = ')' if c == 'Not' else ''
            for t in rich + d1 + mixed[::7]:
                o, x, n = build(S, t, Names())
                q, h = f(S, o)
                S.expect(q, cat(h, x, tail), 'tree %s in %s' % (show_tree(t), c))
            names = Names()
            a = build(S, ('|', ('q', 1), ('q', 2)), names)
            b = build(S, ('q', 2), names)
            d = build(S, ('&', ('q', 1), ('q', 1)), names)
            q, h = f(S, a[0], b[0], d[0])
            S.expect(q, cat(h, join(' AND ', [a[1], b[1], d[1]]), tail), 'three conditions in one %s' % c)
        yield 'grouping/in %s' % c, ob

    def seqs(S):
        # conditions added by separate calls are joined by AND in order
        kinds = {
            'kw': lambda S, n: ((), {n: S.int('v' + n)}, eqc(S, n, S.int('v' + n))),
            'pair': lambda S, n: ((n, S.rel('GT', S.int('v' + n))), {}, cond(S, n, '>', S.int('v' + n))),
            'or': lambda S, n: ((S.op('BitOr', S.call('Q', **{n: 1}), S.call('Q', **{n: 2})),), {}, cat('(', eqc(S, n, 1), ' OR ', eqc(S, n, 2), ')')),
            'custom': lambda S, n: ((S.call('C', n + ' or 1'),), {}, n + ' or 1'),
            'not': lambda S, n: ((S.call('Not', **{n: 1}),), {}, cat('NOT(', eqc(S, n, 1), ')')),
            'exists': lambda S, n: ((S.call('exists', S.m(sub(S), 'where', **{n: 1})),), {}, cat('EXISTS(', S.text(sub(S)), ' WHERE ', eqc(S, n, 1), ')')),
        }
        for m, h, start in (('where', 'SELECT * FROM "t" WHERE ', flat), ('having', 'SELECT * FROM "t" HAVING ', flat),
                            ('on', 'SELECT * FROM "t" JOIN "u" ON ', lambda S: S.m(flat(S), 'join', 'u'))):
            for combo in itertools.permutations(kinds, 3):
                q = start(S)
                parts = []
                for i, k in enumerate(combo):
                    a, kw, x = kinds[k](S, 'c%d' % i)
                    q = S.m(q, m, *a, **kw)
                    parts.append(x)
                S.expect(q, cat(h, join(' AND ', parts)), '%s calls %s' % (m, ', '.join(combo)))
    yield 'grouping/separate calls are joined by AND in order', seqs

    def operands(S):
        # operands are not changed by combining them
        a = S.call('Q', a=S.int('a'), b=S.int('b'))
        b = S.call('Q', c=S.int('c'))
        ta, tb = S.text(a), S.text(b)
        for op in ('BitAnd', 'BitOr'):
            for l, r in ((a, b), (b, a), (a, a), (b, b)):
                x = S.op(op, l, r)
                S.text(x)
                y = S.op('BitOr', x, r)
                S.text(y)
                S.expect(a, ta, 'operand after combining')
                S.expect(b, tb, 'operand after combining')
        x = S.op('BitOr', a, b)
        tx = S.text(x)
        S.m(flat(S), 'where', x)
        S.op('BitAnd', x, x)
        S.expect(x, tx, 'combined condition after being used')
        S.expect(S.op('BitAnd', x, x), cat('(', tx, ' AND ', tx, ')'), 'x & x')
    yield 'grouping/operands are not changed', operands

    def bad(S):
        def combos():
            q = S.call('Q', a=1)
            yield 'Q', q
            yield 'combined', S.op('BitOr', S.call('Q', a=1), S.call('Q', b=2))
            yield 'empty Q', S.call('Q')
            yield 'multi', S.call('Q', a=1, b=2)
        for name, q in combos():
            for ob, v in (('str', 'x'), ('int', 5), ('None', None), ('list', S.list()), ('C', S.call('C', 'x')), ('select', sub(S)), ('V', S.call('V', 1)),
                          ('R', S.call('R', 'x')), ('Not', S.call('Not', a=1)), ('exists', S.call('exists', sub(S))), ('object', S.opaque()), ('dict', S.dict(('a', 1))),
                          ('True', True), ('tuple', S.tuple('a', 1)), ('relation', S.rel('EQ', 1))):
                for op in ('BitAnd', 'BitOr'):
                    S.expect_raise(lambda: S.op(op, q, v), 'TypeError', what='%s %s %s' % (name, op, ob))
    yield 'grouping/combining with a non-condition raises TypeError', bad

    def empty(S):
        def sm():
            return S.call('Q', a=S.int('a'), b=S.int('b'))
        e = lambda: S.call('Q')
        t = S.text(sm())
        for op in ('BitAnd', 'BitOr'):
            S.expect(S.op(op, sm(), e()), t, 'Q %s empty' % op)
            S.expect(S.op(op, e(), sm()), t, 'empty %s Q' % op)
            S.expect(S.op(op, e(), e()), '', 'empty %s empty' % op)
            x = S.op('BitOr', S.call('Q', c=1), S.call('Q', d=1))
            S.expect(S.op(op, x, e()), '("c" = 1 OR "d" = 1)', 'combined %s empty' % op)
            S.expect(S.op(op, S.op(op, sm(), e()), S.call('Q', z=1)), cat('((', t, ')', ' AND ' if op == 'BitAnd' else ' OR ', '"z" = 1)'), 'after empty')
        S.expect(S.m(flat(S), 'where', e()), 'SELECT * FROM "t"', 'where(Q())')
        S.expect_raise(lambda: S.call('Not'), INVALID, what='Not()')
        S.expect_raise(lambda: S.call('Not', e()), INVALID, what='Not(Q())')
        S.expect_raise(lambda: S.call('Not', S.dict()), INVALID, what='Not({})')
    yield 'grouping/empty Q adds nothing', empty

    def nots(S):
        a = lambda: S.call('Not', a=S.int('a'), b=S.int('b'))
        inner = cat(eqc(S, 'a', S.int('a')), ' AND ', eqc(S, 'b', S.int('b')))
        S.expect(a(), cat('NOT(', inner, ')'), 'Not of two')
        S.expect(S.call('Not', a()), cat('NOT(NOT(', inner, '))'), 'Not(Not)')
        S.expect(S.call('Not', S.call('exists', sub(S))), cat('NOT(EXISTS(', S.text(sub(S)), '))'), 'Not(exists)')
        S.expect(S.call('Not', S.call('C', 'x OR y')), 'NOT(x OR y)', 'Not(C)')
        S.expect(S.call('exists', S.op('BitOr', sub(S), sub(S))), cat('EXISTS(', S.text(sub(S)), ' UNION ', S.text(sub(S)), ')'), 'exists(union)')
        S.expect(S.call('exists', S.call('C', 'q')), 'EXISTS(q)', 'exists(C)')
        S.expect(S.m(flat(S), 'where', a()), cat('SELECT * FROM "t" WHERE NOT(', inner, ')'), 'where(Not)')
        S.expect(S.m(flat(S), 'having', a()), cat('SELECT * FROM "t" HAVING NOT(', inner, ')'), 'having(Not)')
        S.expect(S.m(S.m(flat(S), 'where', z=1), 'where', a()), cat('SELECT * FROM "t" WHERE "z" = 1 AND NOT(', inner, ')'), 'where then Not')
        q = S.call('Q', c=1)
        S.expect(S.call('Not', q, S.call('Q', d=2)), 'NOT("c" = 1 AND "d" = 2)', 'Not(Q, Q)')
        S.expect(S.call('Not', S.op('BitAnd', q, S.call('Q', d=2))), 'NOT(("c" = 1 AND "d" = 2))', 'Not(Q & Q)')
    yield 'grouping/Not and exists', nots
