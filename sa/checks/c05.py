"""C05: every condition renders column, operator of the relation used, value; a
bare value picks the documented relation; every relation refuses operand types
outside its table at construction (full relation x operand type x clause matrix)."""
from .common import *

OPS = {'EQ': '=', 'NE': '!=', 'GT': '>', 'GE': '>=', 'LT': '<', 'LE': '<=', 'LIKE': 'LIKE', 'NOT_LIKE': 'NOT LIKE', 'REGEXP': 'REGEXP',
       'IN': 'IN', 'NOT_IN': 'NOT IN', 'IS': 'IS', 'IS_NOT': 'IS NOT'}
ALIASES = {'EQUAL_TO': 'EQ', 'NOT_EQUAL_TO': 'NE', 'GRATHER_THAN': 'GT', 'GRATHER_THAN_OR_EQUAL_TO': 'GE', 'LESS_THAN': 'LT', 'LESS_THAN_OR_EQUAL_TO': 'LE'}
NUMS = {'str', 'int', 'float', 'Decimal', 'date', 'datetime'}
ACCEPTS = {}
for _r in ('EQ', 'NE'):
    ACCEPTS[_r] = NUMS | {'True', 'False'}
for _r in ('GT', 'GE', 'LT', 'LE'):
    ACCEPTS[_r] = NUMS
for _r in ('LIKE', 'NOT_LIKE', 'REGEXP'):
    ACCEPTS[_r] = {'str'}
for _r in ('IS', 'IS_NOT'):
    ACCEPTS[_r] = {'True', 'False', 'None'}
for _r in ('IN', 'NOT_IN'):
    ACCEPTS[_r] = {'list', 'tuple', 'range', 'generator'}
SCALARS = ['str', 'int', 'float', 'Decimal', 'True', 'False', 'date', 'datetime', 'None', 'bytes']


def operand(S, t):
    if t in SCALARS:
        return S.scalar(t, 'o')
    return {
        'list': lambda: S.list(S.int('o'), 5), 'tuple': lambda: S.tuple(S.int('o')), 'range': lambda: S.range(2), 'generator': lambda: S.gen(S.int('o')),
        'set': lambda: S.set(1), 'dict': lambda: S.dict(('a', 1)), 'object': lambda: S.opaque(), 'class': lambda: S.ip.builtins['int'], 'complex': lambda: 2j,
    }[t]()


def value_text(S, t, v):
    if t == 'list':
        return cat('(', S.V(S.int('o')), ', 5)')
    if t in ('tuple', 'generator'):
        return cat('(', S.V(S.int('o')), ')')
    if t == 'range':
        return '(0, 1)'
    return S.V(v)


CLAUSES = {
    'where': (lambda S, *a, **k: S.m(S.call('select_from', 't'), 'where', *a, **k), 'SELECT * FROM "t" WHERE '),
    'having': (lambda S, *a, **k: S.m(S.call('select_from', 't'), 'having', *a, **k), 'SELECT * FROM "t" HAVING '),
    'on': (lambda S, *a, **k: S.m(S.m(S.call('select_from', 't'), 'join', 'u'), 'on', *a, **k), 'SELECT * FROM "t" JOIN "u" ON '),
    'Q': (lambda S, *a, **k: S.call('Q', *a, **k), ''),
    'delete': (lambda S, *a, **k: S.m(S.call('delete_from', 't'), 'where', *a, **k), 'DELETE FROM "t" WHERE '),
    'update': (lambda S, *a, **k: S.m(S.m(S.call('update', 't'), 'set', a=1), 'where', *a, **k), 'UPDATE "t" SET "a" = 1 WHERE '),
    'update on': (lambda S, *a, **k: S.chain(S.call('update', 't'), ('join', 'u'), ('on', a, k), ('set', (), {'a': 1}), 'allow_update_all'), None),
}
OBJECTS = {
    'C': (lambda S: S.call('C', 'cust'), lambda S: 'cust'),
    'V': (lambda S: S.call('V', S.int('n')), lambda S: S.V(S.int('n'))),
    'R': (lambda S: S.call('R', 'r'), lambda S: '"r"'),
    'function': (lambda S: S.call('count', 'k'), lambda S: 'COUNT("k")'),
    'select': (lambda S: sub(S), lambda S: cat('(', S.text(sub(S)), ')')),
    'union': (lambda S: S.op('BitOr', sub(S), sub(S)), lambda S: cat('(', S.text(sub(S)), ' UNION ', S.text(sub(S)), ')')),
}


def obligations(tier):
    for r, op in OPS.items():
        for c, (mkq, head) in CLAUSES.items():
            def ob(S, r=r, op=op, c=c, mkq=mkq, head=head):
                for t in sorted(ACCEPTS[r]):
                    v = operand(S, t)
                    # a string in on() is a column reference
                    txt = S.R(v) if t == 'str' and c in ('on', 'update on') else value_text(S, t, v)
                    want = cat('"c" ', op, ' ', txt)
                    if head is not None:
                        want = cat(head, want)
                    else:
                        want = cat('UPDATE "t" JOIN "u" ON ', want, ' SET "a" = 1')
                    S.expect(mkq(S, 'c', S.rel(r, operand(S, t))), want, '%s(%s) in %s' % (r, t, c))
                    S.expect(mkq(S, c=S.rel(r, operand(S, t))), want, '%s(%s) in %s by keyword' % (r, t, c))
            yield 'operator/%s/%s' % (r, c), ob

        def obj(S, r=r, op=op):
            for name, (mko, txt) in OBJECTS.items():
                if r in ('IN', 'NOT_IN') and name in ():
                    continue
                for c in ('where', 'having', 'on', 'Q'):
                    mkq, head = CLAUSES[c]
                    S.expect(mkq(S, 'c', S.rel(r, mko(S))), cat(head, '"c" ', op, ' ', txt(S)), '%s(%s object) in %s' % (r, name, c))
        yield 'operator/%s/SQL objects are accepted' % r, obj

        def refuse(S, r=r):
            types = SCALARS + ['list', 'tuple', 'range', 'generator', 'set', 'dict', 'object', 'class', 'complex']
            for t in types:
                if t in ACCEPTS[r]:
                    continue
                if r in ('IN', 'NOT_IN') and t in ('str', 'bytes', 'set', 'dict'):
                    continue          # any iterable is turned into a list
                S.expect_raise(lambda: S.rel(r, operand(S, t)), INVALID, what='%s(%s)' % (r, t))
        yield 'admission/%s refuses other types' % r, refuse

    for r in ('IN', 'NOT_IN'):
        def elements(S, r=r):
            i, s, f = S.int('i'), S.str('s'), S.scalar('float', 'f')
            V = S.V
            t, l = S.tuple, S.list
            # several arguments are the elements, whatever they are; one iterable gives its elements
            for what, a, want in (
                    ('two integers', (i, 5), [V(i), '5']), ('string and float', (s, f), [V(s), V(f)]), ('two lists', (l(i), l(2, s)), [cat('(', V(i), ')'), cat('(2, ', V(s), ')')]),
                    ('two tuples', (t(i, 2), t(3, f)), [cat('(', V(i), ', 2)'), cat('(3, ', V(f), ')')]), ('list and integer', (l(1, 2), i), ['(1, 2)', V(i)]),
                    ('integer and list', (i, l(1, 2)), [V(i), '(1, 2)']), ('string and list', (s, l(1, 2)), [V(s), '(1, 2)']), ('list of lists', (l(l(i), l(2)),), [cat('(', V(i), ')'), '(2)']),
                    ('tuple of tuples', (t(t(i, 1), t(2, 3)),), [cat('(', V(i), ', 1)'), '(2, 3)']), ('list of one list', (l(l(i, 1)),), [cat('(', V(i), ', 1)')]),
                    ('list of a tuple and an integer', (l(t(1, 2), i),), ['(1, 2)', V(i)]), ('generator of tuples', lambda: (S.gen(t(1, i)),), [cat('(1, ', V(i), ')')]),
                    ('nested ranges', (S.range(2), S.range(1)), ['(0, 1)', '(0)']), ('three strings', ('', s, '0'), ["''", V(s), "'0'"]),
                    ('text', ('ab',), ["'a'", "'b'"]), ('one letter', ('a',), ["'a'"]), ('two texts', ('ab', 'c'), ["'ab'", "'c'"]), ('dict', (S.dict(('k', 1), ('m', 2)),), ["'k'", "'m'"]),
                    ('set', (S.set(7),), ['7']), ('bytes', (b'a\0',), ['97', '0']), ('equal elements', (l(i, i, 1, 1),), [V(i), V(i), '1', '1']), ('equal arguments', (i, i), [V(i), V(i)]),
                    ('subquery and integer', (sub(S), i), [cat('(', S.text(sub(S)), ')'), V(i)]), ('list of subqueries', (l(sub(S), sub(S)),), [cat('(', S.text(sub(S)), ')')] * 2)):
                for c in ('where', 'having', 'on', 'Q'):
                    mkq, head = CLAUSES[c]
                    if c == 'on' and what in ('string and float', 'string and list', 'three strings', 'text', 'one letter', 'two texts', 'dict', 'two lists', ):
                        continue
                    S.expect(mkq(S, 'c', S.rel(r, *(a() if callable(a) else a))), cat(head, '"c" ', OPS[r], ' (', join(', ', want), ')'), '%s of %s in %s' % (r, what, c))
        yield 'operator/%s elements' % r, elements

    for a, r in ALIASES.items():
        def ob(S, a=a, r=r):
            v = S.int('v')
            S.expect(S.m(S.call('select_from', 't'), 'where', c=S.rel(a, v)), cat('SELECT * FROM "t" WHERE "c" ', OPS[r], ' ', S.V(v)), a)
        yield 'operator/%s is %s' % (a, r), ob

    default = {'str': '=', 'int': '=', 'float': '=', 'Decimal': '=', 'True': '=', 'False': '=', 'date': '=', 'datetime': '=', 'None': 'IS',
               'list': 'IN', 'tuple': 'IN', 'range': 'IN', 'generator': 'IN'}
    for t, op in default.items():
        for b in BACKENDS:
            def ob(S, t=t, op=op, b=b):
                S.configure(b)
                R = S.R
                heads = {'where': cat('SELECT * FROM ', R('t'), ' WHERE '), 'having': cat('SELECT * FROM ', R('t'), ' HAVING '),
                         'on': cat('SELECT * FROM ', R('t'), ' JOIN ', R('u'), ' ON '), 'Q': '', 'delete': cat('DELETE FROM ', R('t'), ' WHERE ')}
                for c, h in heads.items():
                    v = operand(S, t)
                    txt = S.R(v) if t == 'str' and c == 'on' else value_text(S, t, v)
                    want = cat(h, R('c'), ' ', op, ' ', txt)
                    for name, a, k in (('pair', ('c', operand(S, t)), {}), ('keyword', (), {'c': operand(S, t)}), ('dict', (S.dict(('c', operand(S, t))),), {}),
                                       ('list of pairs', (S.list(S.tuple('c', operand(S, t))),), {})):
                        S.expect(CLAUSES[c][0](S, *a, **k), want, '%s value by %s in %s' % (t, name, c))
                    if t != 'generator':
                        vt = cat(h, R('c'), ' ', op, ' ', value_text(S, t, v))
                        S.expect(CLAUSES[c][0](S, 'c', S.call('V', operand(S, t))), vt, 'V(%s) value in %s' % (t, c))
            yield 'default/%s/%s' % (b, t), ob

    def objdef(S):
        for name, (mko, txt) in OBJECTS.items():
            for c in ('where', 'having', 'on', 'Q'):
                mkq, head = CLAUSES[c]
                S.expect(mkq(S, 'c', mko(S)), cat(head, '"c" = ', txt(S)), '%s object in %s' % (name, c))
                S.expect(mkq(S, mko(S), 1), cat(head, txt(S), ' = 1'), '%s object as column in %s' % (name, c))
    yield 'default/SQL objects use =', objdef

    def refuse(S):
        for c in ('where', 'having', 'on', 'Q'):
            for t in ('bytes', 'set', 'dict', 'object', 'class', 'complex'):
                S.expect_raise(lambda: CLAUSES[c][0](S, 'c', operand(S, t)), INVALID, what='%s value in %s' % (t, c))
            for t in ('int', 'float', 'True', 'None', 'bytes', 'list', 'object', 'Decimal', 'date'):
                S.expect_raise(lambda: CLAUSES[c][0](S, S.list(S.tuple(operand(S, t), 1))), INVALID, what='%s column in %s' % (t, c))
    yield 'admission/bare values of other types are refused', refuse

    def two(S):
        a, b = S.int('a'), S.int('b')
        for r1 in OPS:
            for r2 in OPS:
                if r1 in ('IN', 'NOT_IN', 'LIKE', 'NOT_LIKE', 'REGEXP', 'IS', 'IS_NOT') or r2 in ('IN', 'NOT_IN', 'LIKE', 'NOT_LIKE', 'REGEXP', 'IS', 'IS_NOT'):
                    continue
                q = S.m(S.call('select_from', 't'), 'where', c=S.rel(r1, a), d=S.rel(r2, b))
                S.expect(q, cat('SELECT * FROM "t" WHERE "c" ', OPS[r1], ' ', S.V(a), ' AND "d" ', OPS[r2], ' ', S.V(b)), '%s and %s' % (r1, r2))
                q = S.m(S.call('select_from', 't'), 'where', S.list(S.tuple('c', S.rel(r1, a)), S.tuple('c', S.rel(r2, b))))
                S.expect(q, cat('SELECT * FROM "t" WHERE "c" ', OPS[r1], ' ', S.V(a), ' AND "c" ', OPS[r2], ' ', S.V(b)), '%s and %s on one column' % (r1, r2))
    yield 'operator/two relations in one clause', two
