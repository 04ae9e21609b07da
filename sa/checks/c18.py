"""C18: pairs of queries that differ in one builder call, in one operand or in
nothing; SQL objects against objects, strings and unrelated values.  Equal
implies same text (mirrored join conditions apart), changed text implies
unequal, != is the negation of ==, comparison never raises."""
import itertools
from .common import *


def both(S, a, b, what):
    """The answer of ==, with != and the other direction consistent with it."""
    r = S.eq(a, b)
    S.check(S.eq(b, a) == r, '%s: == is not symmetric' % what)
    S.check(S.ne(a, b) == (not r), '%s: != is not the negation of ==' % what)
    S.check(S.ne(b, a) == (not r), '%s: != is not the negation of == (other direction)' % what)
    return r


def agree(S, a, b, what, ta=None):
    """equal => same text."""
    if both(S, a, b, what):
        ta, tb = S.text(a) if ta is None else ta, S.text(b)
        S.check(S.same(ta, tb), '%s: equal, but the texts differ: %s / %s' % (what, show(S.norm(ta)), show(S.norm(tb))))


def differ(S, a, b, what):
    S.check(not both(S, a, b, what), '%s: equal although the texts differ' % what)


# values of operands: pairwise different in Python or in SQL
def operands(S):
    return [('None', None), ('True', True), ('False', False), ('1', 1), ('0', 0), ('-1', -1), ("'1'", '1'), ("''", ''), ("'a'", 'a'), ("'A'", 'A'), ("'a '", 'a '), ('1.0', 1.0), ('0.0', 0.0),
            ('1.5', 1.5), ('C(1)', S.call('C', '1')), ("C('a')", S.call('C', 'a')), ("R('a')", S.call('R', 'a')), ("V('a')", S.call('V', 'a')), ("C(quoted a)", S.call('C', "'a'")),
            ('V(1)', S.call('V', 1)), ('[1]', S.list(1)), ('[1, 2]', S.list(1, 2)), ('[2, 1]', S.list(2, 1)), ('[True]', S.list(True)), ("['1']", S.list('1')), ('(1, 2)', S.tuple(1, 2)),
            ('[1, None]', S.list(1, None)), ('[None]', S.list(None)), ('[1.0]', S.list(1.0)), ('sub', sub(S)), ('sub2', S.m(sub(S), 'where', z=1)), ('count', S.call('count', 'a')),
            ('count_distinct', S.call('count_distinct', 'a'))]


def few(S):
    keep = ('None', 'True', '1', "'1'", '1.0', "'a'", "C('a')", "R('a')", '[1]', '[1, 2]', '[2, 1]', '[True]', '[1, None]', 'sub', 'count')
    return [x for x in operands(S) if x[0] in keep]


def relvals(S):
    out = []
    for n in ('EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE', 'REGEXP'):
        for v in ('a', 'b'):
            out.append(('%s(%s)' % (n, v), S.rel(n, v)))
    for n in ('EQ', 'NE', 'GT', 'GE', 'LT', 'LE'):
        out.append((n + '(1)', S.rel(n, 1)))
    for n in ('IN', 'NOT_IN'):
        for v in ((1,), (1, 2), (2, 1), (1, None), (None,), ('1',)):
            out.append(('%s%r' % (n, v), S.rel(n, S.list(*v))))
    for n in ('IS', 'IS_NOT'):
        for v in (None, True, False):
            out.append(('%s(%s)' % (n, v), S.rel(n, v)))
    out += [('EQ(True)', S.rel('EQ', True)), ('EQ(1.0)', S.rel('EQ', 1.0)), ('EQ(C)', S.rel('EQ', S.call('C', 'a'))), ('EQ(R)', S.rel('EQ', S.call('R', 'a')))]
    return out


def named(S):
    """Things that can be a column or a table, pairwise different."""
    return [('a', 'a'), ('A', 'A'), ('b', 'b'), ('t.a', 't.a'), ('quoted t.a', '"t.a"'), ('C(a)', S.call('C', 'a')), ('C(quoted a)', S.call('C', '"a"')), ('R(a)', S.call('R', 'a')), ('V(a)', S.call('V', 'a')),
            ('count', S.call('count', 'a')), ('sub', sub(S)), ('union', S.op('BitOr', sub(S), sub(S))), ('union all', S.op('BitAnd', sub(S), sub(S))), ('sub2', S.m(sub(S), 'limit', 1))]


# slot: label -> (choices(S), make(S, choice))
SEL = lambda S: S.call('select_from', 't')
SLOTS = {
    'where value': (operands, lambda S, v: S.m(SEL(S), 'where', 'c', v)),
    'where relation': (relvals, lambda S, v: S.m(SEL(S), 'where', 'c', v)),
    'where column': (lambda S: [x for x in named(S)], lambda S, v: S.m(SEL(S), 'where', v, 1)),
    'having value': (operands, lambda S, v: S.m(SEL(S), 'having', 'c', v)),
    'having relation': (relvals, lambda S, v: S.m(SEL(S), 'having', 'c', v)),
    'on value': (operands, lambda S, v: S.m(S.m(SEL(S), 'join', 'u'), 'on', 'c', v)),
    'column': (lambda S: named(S) + [('1', 1), ('2', 2)], lambda S, v: S.call('select', v)),
    'column alias': (lambda S: [(n, n) for n in 'abAB'] + [('none', None)], lambda S, v: S.call('select', S.tuple('x', v))),
    'table': (named, lambda S, v: S.call('select_from', v)),
    'table alias': (lambda S: [(n, n) for n in 'abAB'] + [('none', None)], lambda S, v: S.call('select_from', S.tuple('x', v))),
    'order column': (lambda S: named(S) + [('1', 1), ('2', 2)], lambda S, v: S.m(SEL(S), 'order_by', v)),
    'order sort': (lambda S: [(n, n) for n in ('asc', 'desc', 'DESC', 'Asc')], lambda S, v: S.m(SEL(S), 'order_by', S.tuple('x', v))),
    'group column': (lambda S: named(S) + [('1', 1), ('2', 2)], lambda S, v: S.m(SEL(S), 'group_by', v)),
    'group sort': (lambda S: [(n, n) for n in ('asc', 'desc', 'DESC')], lambda S, v: S.m(SEL(S), 'group_by', S.tuple('x', v))),
    'limit': (lambda S: [(str(n), n) for n in (None, 0, 1, 2, 10)], lambda S, v: S.m(SEL(S), 'limit', v)),
    'offset': (lambda S: [(str(n), n) for n in (None, 0, 1, 2, 10)], lambda S, v: S.m(SEL(S), 'offset', v)),
    'limit and offset': (lambda S: [('%s, %s' % p, p) for p in ((1, 2), (2, 1), (1, 1), (2, 2), (0, 1), (1, 0), (0, 0))], lambda S, v: S.m(SEL(S), 'limit', *v)),
    'set value': (operands, lambda S, v: S.m(S.m(S.call('update', 't'), 'where', i=1), 'set', 'c', v)),
    'set column': (lambda S: [x for x in named(S)], lambda S, v: S.m(S.m(S.call('update', 't'), 'where', i=1), 'set', v, 1)),
    'update table': (lambda S: [x for x in named(S)][:7], lambda S, v: S.m(S.m(S.call('update', v), 'where', i=1), 'set', 'c', 1)),
    'insert value': (operands, lambda S, v: S.m(S.call('insert_into', 't'), 'values', 'c', v)),
    'second row value': (operands, lambda S, v: S.m(S.m(S.call('insert_into', 't'), 'values', 'c', 5), 'values', 'c', v)),
    'insert table': (lambda S: [x for x in named(S)][:7], lambda S, v: S.m(S.call('insert_into', v), 'values', 'c', 1)),
    'delete table': (lambda S: [x for x in named(S)][:7], lambda S, v: S.m(S.call('delete_from', v), 'where', i=1)),
    'delete value': (operands, lambda S, v: S.m(S.call('delete_from', 't'), 'where', 'c', v)),
    'Q value': (few, lambda S, v: S.m(SEL(S), 'where', S.op('BitOr', S.call('Q', 'c', v), S.call('Q', z=1)))),
    'Not value': (few, lambda S, v: S.m(SEL(S), 'where', S.call('Not', 'c', v))),
    'single Q value': (operands, lambda S, v: S.m(SEL(S), 'where', S.call('Q', 'c', v))),
}
for _m in ('into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by'):
    SLOTS[_m] = (lambda S: [(repr(s), s) for s in ('a', 'b', ' a', '', 'A')], lambda S, v, m=_m: S.m(S.m(SEL(S), 'into_outfile', 'f'), m, v))


def structures(S):
    """Selects that differ in structure rather than in one operand."""
    s = lambda *st: S.chain(S.call('select', 'a'), ('from_', 't'), *st)
    q = lambda *a, **k: S.call('Q', *a, **k)
    on = lambda *st: S.chain(S.call('select_from', 't'), *st)
    O = [
        ('plain', s()), ('two columns', s(('columns', 'b'))), ('columns swapped', S.chain(S.call('select', 'b'), ('columns', 'a'), ('from_', 't'))),
        ('two tables', s(('from_', 'u'))), ('tables swapped', S.chain(S.call('select', 'a'), ('from_', 'u'), ('from_', 't'))),
        ('where ab', s(('where', (), {'a': 1, 'b': 2}))), ('where ba', s(('where', (), {'b': 2}), ('where', (), {'a': 1}))), ('where a', s(('where', (), {'a': 1}))),
        ('having a', s(('having', (), {'a': 1}))), ('having ab', s(('having', (), {'a': 1, 'b': 2}))), ('group a', s(('group_by', 'a'))), ('order a', s(('order_by', 'a'))),
        ('order ab', s(('order_by', ('a', 'b')))), ('order ba', s(('order_by', ('b', 'a')))), ('group ab', s(('group_by', ('a', 'b')))), ('group ba', s(('group_by', ('b', 'a')))),
        ('Q or', s(('where', (S.op('BitOr', q(a=1), q(b=2)),)))), ('Q and', s(('where', (S.op('BitAnd', q(a=1), q(b=2)),)))), ('Q or swapped', s(('where', (S.op('BitOr', q(b=2), q(a=1)),)))),
        ('Q or nested', s(('where', (S.op('BitOr', q(a=1), S.op('BitAnd', q(b=2), q(c=3))),)))), ('Q left nested', s(('where', (S.op('BitAnd', S.op('BitOr', q(a=1), q(b=2)), q(c=3)),)))),
        ('Q ab', s(('where', (q(a=1, b=2),)))), ('Not', s(('where', (S.call('Not', a=1),)))), ('exists', s(('where', (S.call('exists', sub(S)),)))),
        ('C', s(('where', (S.call('C', 'x'),)))), ('C C', s(('where', (S.call('C', 'x'),)), ('where', (S.call('C', 'y'),)))), ('C C swapped', s(('where', (S.call('C', 'y'),)), ('where', (S.call('C', 'x'),)))),
    ]
    for kw in ('join', 'left_join', 'right_join'):
        O += [(kw, on((kw, 'u'))), (kw + ' v', on((kw, 'v'))), (kw + ' alias', on((kw, (S.tuple('u', 'x'),)))), (kw + ' alias y', on((kw, (S.tuple('u', 'y'),)))),
              (kw + ' on', on((kw, 'u'), ('on', ('a', 'b')))), (kw + ' on c', on((kw, 'u'), ('on', ('a', 'c')))), (kw + ' on gt', on((kw, 'u'), ('on', ('a', S.rel('GT', 'b'))))),
              (kw + ' on gt swapped', on((kw, 'u'), ('on', ('b', S.rel('GT', 'a'))))), (kw + ' on value', on((kw, 'u'), ('on', ('a', 1)))),
              (kw + ' on like', on((kw, 'u'), ('on', ('a', S.rel('LIKE', 'b'))))), (kw + ' on like swapped', on((kw, 'u'), ('on', ('b', S.rel('LIKE', 'a'))))),
              (kw + ' on V', on((kw, 'u'), ('on', ('a', S.call('V', 'b'))))), (kw + ' on V swapped', on((kw, 'u'), ('on', ('b', S.call('V', 'a'))))),
              (kw + ' two on', on((kw, 'u'), ('on', ('a', 'b')), ('on', ('c', 'd')))), (kw + ' uv', on((kw, 'u'), (kw, 'v'))), (kw + ' vu', on((kw, 'v'), (kw, 'u'))),
              (kw + ' of second', on(('from_', 'w'), (kw, 'u'))), (kw + ' of first', on((kw, 'u'), ('from_', 'w'))), (kw + ' sub', on((kw, (S.tuple(sub(S), 'x'),))))]
    for o in ('sql_cache', 'sql_no_cache', 'all', 'distinct', 'distinctrow', 'sql_small_result', 'sql_big_result', 'sql_buffer_result', 'sql_calc_found_rows', 'straight_join', 'high_priority', 'for_update'):
        O.append((o, s(o)))
    return O


UNRELATED = [None, True, False, 0, 1, 1.5, b'', b'SELECT *', '', 'x', 'SELECT * FROM "t"']


def unrelated(S):
    return [(repr(x), x) for x in UNRELATED] + [('opaque', S.opaque()), ('list', S.list()), ('[1]', S.list(1)), ('tuple', S.tuple()), ('dict', S.dict()), ('{a: 1}', S.dict(('a', 1))), ('set', S.set(1)),
                                                ('generator', S.gen(1)), ('range', S.range(2)), ('function', S.fn('select')), ('class', S.fn('C')), ('decimal', S.scalar('Decimal', 'ud')), ('date', S.scalar('date', 'udt'))]


def queries(S):
    return [(k, start(S, k)) for k in ('select', 'insert', 'update', 'delete', 'union')] + [('rich ' + k, rich(S, k)) for k in ('select', 'insert', 'update', 'delete', 'union')]


def objects(S):
    """SQL objects with their text compared by text."""
    return [('C', S.call('C', 'x')), ('V', S.call('V', 'x')), ('R', S.call('R', 'x')), ('V(1)', S.call('V', 1)), ('V(None)', S.call('V', None)), ('V list', S.call('V', S.list(1, 2))),
            ('C quoted', S.call('C', '"x"')), ('C string', S.call('C', "'x'")), ('C(1)', S.call('C', '1')), ('V(True)', S.call('V', True)), ('V(sub)', S.call('V', sub(S))), ('C(NULL)', S.call('C', 'NULL')),
            ('count', S.call('count')), ('count x', S.call('count', 'x')), ('count distinct', S.call('count_distinct', 'x')), ('avg', S.call('avg', 'x')), ('max', S.call('max', 'x')), ('min', S.call('min', 'x')), ('sum', S.call('sum', 'x')),
            ('C count', S.call('C', 'COUNT("x")')), ('C distinct', S.call('C', 'COUNT(DISTINCT "x")')), ('concat', S.call('concat', 'x', 'y')), ('concat swapped', S.call('concat', 'y', 'x')), ('group_concat', S.call('group_concat', 'x')),
            ('group_concat order', S.m(S.call('group_concat', 'x'), 'order_by', 'x')), ('group_concat sep', S.m(S.call('group_concat', 'x'), 'separator', ',')), ('convert', S.call('convert', 'x', 'int')), ('convert2', S.call('convert', 'x', 'INT')),
            ('convert char', S.call('convert', 'x', 'char')), ('exists', S.call('exists', sub(S))), ('Not', S.call('Not', x=1)), ('C empty', S.call('C', ''))]


def obligations(tier):
    kinds = ['select', 'insert', 'update', 'delete']
    for kind in kinds:
        for r in (False, True):
            base = rich if r else start
            bs = builders(kind, r, allow=False)
            tag = '%s%s' % ('rich ' if r else '', kind)

            def copies(S, kind=kind, base=base, bs=bs, tag=tag, part=None):
                for n, b in list(bs.items())[part::6]:
                    q, q2 = base(S, kind), base(S, kind)
                    S.check(both(S, q, q2, tag), '%s: built twice the same way, not equal' % tag)
                    S.check(both(S, q, q, tag), '%s: not equal to itself' % tag)
                    c = S.m(q, 'copy')
                    S.check(both(S, q, c, tag), '%s: copy is not equal' % tag)
                    t0 = S.text(q)
                    apply(S, c, b)
                    t1 = S.text(c)
                    agree(S, q, c, '%s: copy changed by %s' % (tag, n))
                    if not S.same(t0, t1):
                        d = S.m(c, 'copy')
                        S.check(both(S, c, d, tag), '%s: copy of the copy changed by %s is not equal' % (tag, n))
                        apply(S, q, b)
                        S.check(both(S, q, c, tag), '%s: same change %s, not equal' % (tag, n))
            for part in range(6):
                yield 'copy/%s/%d' % (tag, part), lambda S, f=copies, part=part: f(S, part=part)
            for n1 in bs:
                def pairs(S, kind=kind, base=base, bs=bs, tag=tag, n1=n1):
                    a = apply(S, base(S, kind), bs[n1])
                    ta = S.text(a)
                    for n2 in bs:
                        b = apply(S, base(S, kind), bs[n2])
                        agree(S, a, b, '%s with %s / with %s' % (tag, n1, n2), ta)
                        if n1 != n2 and tier == 'thorough':
                            r = S.outcome(lambda: apply(S, apply(S, base(S, kind), bs[n1]), bs[n2]))
                            if r[0] == 'ok':
                                agree(S, r[1], b, '%s with %s and %s / without %s' % (tag, n1, n2, n1))
                if tier == 'thorough' or r == (kind != 'select'):
                    yield 'pairs/%s/%s' % (tag, n1), pairs

    for be in BACKENDS:
        def upsert(S, be=be):
            S.call('configure', be)
            if be == 'sql':
                return
            i = lambda: S.m(S.call('insert_into', 't'), 'values', a=1)
            vs = [('plain', i())]
            if be == 'mysql':
                vs += [(repr(k), S.m(i(), 'on_duplicate_key_update', **k)) for k in ({'u': 1}, {'u': 2}, {'v': 1}, {'u': 1, 'v': 1}, {'u': True}, {'u': '1'}, {'u': None})]
            elif be == 'postgresql':
                vs += [(repr((t, k)), S.m(i(), 'on_duplicate_key_update', t, **k)) for t in ('x', 'y') for k in ({'u': 1}, {'u': 2}, {'v': 1}, {'u': 1, 'v': 1}, {'u': True}, {'u': '1'}, {'u': None})]
            else:
                vs += [('replace', S.m(i(), 'on_duplicate_key_update')), ('ignore', S.m(i(), 'ignore')), ('replace ignore', S.m(S.m(i(), 'ignore'), 'on_duplicate_key_update'))]
            for (n1, a), (n2, b) in itertools.combinations(vs, 2):
                agree(S, a, b, '%s insert %s / %s' % (be, n1, n2))
                differ(S, a, b, '%s insert %s / %s' % (be, n1, n2))
            for n, a in vs:
                S.check(both(S, a, S.m(a, 'copy'), n), '%s insert %s: copy is not equal' % (be, n))
        yield 'upsert/%s' % be, upsert

    bes = BACKENDS if tier == 'thorough' else ['sql', 'postgresql']
    for slot, (choices, make) in SLOTS.items():
        for be in bes:
            def ob(S, choices=choices, make=make, slot=slot, be=be):
                S.configure(be)
                first, second, labels = [], [], []
                for (l, v), (l2, v2) in zip(choices(S), choices(S)):
                    r = S.outcome(lambda: make(S, v))
                    if r[0] == 'ok':            # not every operand suits every slot
                        first.append(r[1])
                        second.append(make(S, v2))
                        labels.append(l)
                n = len(first)
                texts = [S.outcome(lambda: S.text(q)) for q in first]
                for x in range(n):
                    if texts[x][0] == 'ok':
                        S.check(both(S, first[x], second[x], slot), '%s %s: built twice, not equal' % (slot, labels[x]))
                        S.check(both(S, first[x], S.m(first[x], 'copy'), slot), '%s %s: copy is not equal' % (slot, labels[x]))
                    for y in range(x + 1, n):
                        what = '%s %s / %s' % (slot, labels[x], labels[y])
                        r = both(S, first[x], second[y], what)
                        if r and texts[x][0] == 'ok' == texts[y][0]:
                            S.check(S.same(texts[x][1], texts[y][1]), '%s: equal, but the texts differ: %s / %s' % (what, show(S.norm(texts[x][1])), show(S.norm(texts[y][1]))))
            yield 'operand/%s/%s' % (slot, be), ob

    for slot in ('where value', 'set value', 'insert value', 'on value', 'delete value', 'having value', 'Q value'):
        choices, make = SLOTS[slot]
        for kind in ('int', 'str', 'float', 'Decimal', 'bytes', 'date', 'datetime'):
            if kind == 'bytes' and slot not in ('set value', 'insert value') or kind == 'str' and slot == 'Q value':
                continue

            def anyop(S, choices=choices, make=make, slot=slot, kind=kind):
                # any value of the type against every constant operand
                for l, v in choices(S):
                    if kind == 'float' and l == '0.0':
                        continue                # sign of zero
                    rb = S.outcome(lambda: make(S, v))
                    if rb[0] != 'ok':
                        continue
                    a, b = make(S, S.scalar(kind, 'op')), rb[1]
                    r = both(S, a, b, slot)
                    tb = S.outcome(lambda: S.text(b))
                    if r and tb[0] == 'ok':
                        S.check(S.same(S.text(a), tb[1]), '%s any %s / %s: equal, but the texts differ: %s / %s' % (slot, kind, l, show(S.norm(S.text(a))), show(S.norm(tb[1]))))
            yield 'any value/%s/%s' % (slot, kind), anyop

    for slot, mk_ in (('where', lambda S, v: S.m(SEL(S), 'where', 'c', v)), ('set', lambda S, v: S.m(S.m(S.call('update', 't'), 'where', i=1), 'set', 'c', v)),
                      ('values', lambda S, v: S.m(S.call('insert_into', 't'), 'values', 'c', v)), ('having', lambda S, v: S.m(SEL(S), 'having', 'c', v)),
                      ('limit', lambda S, v: S.m(SEL(S), 'limit', v)), ('offset', lambda S, v: S.m(SEL(S), 'offset', v)), ('outfile', lambda S, v: S.m(SEL(S), 'into_outfile', v)),
                      ('column', lambda S, v: S.call('select', v)), ('table', lambda S, v: S.call('select_from', v)), ('alias', lambda S, v: S.call('select', S.tuple('c', v))),
                      ('order', lambda S, v: S.m(SEL(S), 'order_by', v)), ('on', lambda S, v: S.m(S.m(SEL(S), 'join', 'u'), 'on', 'c', v))):
        for kind in ('int', 'str'):
            if kind == 'str' and slot in ('limit', 'offset') or kind == 'int' and slot in ('outfile', 'table', 'alias'):
                continue

            def anyval(S, mk_=mk_, slot=slot, kind=kind):
                # any two values: equal exactly when the values are
                S.maybe_equal('x', 'y')
                x, y = (S.int('x'), S.int('y')) if kind == 'int' else (S.plain('x'), S.plain('y')) if slot in ('column', 'table', 'alias', 'order', 'on') else (S.str('x'), S.str('y'))
                a, b = mk_(S, x), mk_(S, y)
                r = both(S, a, b, slot)
                S.check(S.same(S.text(a), S.text(b)) if r else slot in ('offset', 'limit') or kind == 'str' or not S.same(S.text(a), S.text(b)), '%s: == is %s, texts %s / %s' % (slot, r, show(S.norm(S.text(a))), show(S.norm(S.text(b)))))
            yield 'any two values/%s/%s' % (slot, kind), anyval

    def count(S):
        return len(structures(S))
    N = 96
    for lo in range(0, N, 8):
        def struct(S, lo=lo):
            xs = structures(S)
            S.check(len(xs) == N, 'obligation: %d structures' % len(xs))
            ys = structures(S)
            tx, ty = [S.text(q) for n, q in xs], [S.text(q) for n, q in ys]
            for i in range(lo, min(lo + 8, N)):
                for j in range(N):
                    what = '%s / %s' % (xs[i][0], ys[j][0])
                    r = both(S, xs[i][1], ys[j][1], what)
                    if i == j:
                        S.check(r, '%s: built twice, not equal' % xs[i][0])
                    elif r:
                        S.check(S.same(tx[i], ty[j]), '%s: equal, but the texts differ: %s / %s' % (what, show(tx[i]), show(ty[j])))
        yield 'structure/%d-%d' % (lo, lo + 7), struct

    def mirrored(S):
        on = lambda *a: S.m(S.m(S.call('select_from', 't'), 'join', 'u'), 'on', *a)
        for r in ('GT', 'GE', 'LT', 'LE', 'EQ', 'NE', 'LIKE', 'REGEXP', 'NOT_LIKE'):
            for r2 in ('GT', 'GE', 'LT', 'LE', 'EQ', 'NE', 'LIKE', 'REGEXP', 'NOT_LIKE'):
                mirror = {'GT': 'LT', 'LT': 'GT', 'GE': 'LE', 'LE': 'GE', 'EQ': 'EQ', 'NE': 'NE'}.get(r)
                if r2 == mirror:
                    continue
                differ(S, on('a', S.rel(r, 'b')), on('b', S.rel(r2, 'a')), 'on a %s b / b %s a' % (r, r2))
        for x in (S.call('V', 'b'), S.call('C', 'b'), 1, None, S.call('R', 'b')):
            differ(S, on('a', x), on('b', 'a'), 'value is not a reference')
        differ(S, on('a', 'b'), on('b', 'c'), 'half mirrored')
        differ(S, on('a', 'b'), on('c', 'a'), 'half mirrored')
        differ(S, on('a', S.rel('GT', 'b')), on('a', S.rel('LT', 'b')), 'not mirrored')
        # the same with more conditions
        two = lambda x, y: S.m(on(*x), 'on', *y)
        differ(S, two(('a', 'b'), ('c', 'd')), two(('b', 'a'), ('c', 'e')), 'only one mirrored')
        differ(S, two(('a', 'b'), ('c', 'd')), on('b', 'a'), 'one condition missing')
        differ(S, S.m(SEL(S), 'where', 'a', 'b'), S.m(SEL(S), 'where', 'b', 'a'), 'where is not mirrored')
    yield 'structure/mirrored', mirrored

    def unions(S):
        a, b, c = (S.call('select', n) for n in 'abc')
        U = lambda x, y: S.op('BitOr', x, y)
        A = lambda x, y: S.op('BitAnd', x, y)
        mk_ = [lambda: U(a, b), lambda: A(a, b), lambda: U(b, a), lambda: A(b, a), lambda: U(a, a), lambda: U(U(a, b), c), lambda: U(A(a, b), c), lambda: A(U(a, b), c), lambda: A(A(a, b), c), lambda: U(U(a, c), b),
               lambda: U(U(b, a), c), lambda: U(a, c), lambda: A(a, a)]
        for i, x in enumerate(mk_):
            S.check(both(S, x(), x(), 'union'), 'union %d: built twice, not equal' % i)
            S.check(both(S, x(), S.m(x(), 'copy'), 'union'), 'union %d: copy is not equal' % i)
            for j, y in enumerate(mk_):
                if i != j:
                    agree(S, x(), y(), 'unions %d / %d' % (i, j))
                    differ(S, x(), y(), 'unions %d / %d' % (i, j))
        for n, s in queries(S):
            if n.endswith('union'):
                continue
            for u in (mk_[0](), mk_[5]()):
                differ(S, u, s, 'union / ' + n)
        # operand changed after the union was made
        u = U(S.call('select', 'a'), b)
        v = S.m(u, 'copy')
        q = S.call('select', 'a')
        w = U(q, b)
        S.check(both(S, u, w, 'union'), 'unions of equal operands are not equal')
        S.m(q, 'where', z=S.int('z'))
        differ(S, u, w, 'union with changed operand')
        S.check(both(S, u, v, 'union'), 'copy of an unchanged union is not equal')
    yield 'structure/unions', unions

    def kindpairs(S):
        qs = queries(S)
        for (n1, a), (n2, b) in itertools.combinations(qs, 2):
            agree(S, a, b, '%s / %s' % (n1, n2))
            differ(S, a, b, '%s / %s' % (n1, n2))
    yield 'kinds/all pairs', kindpairs

    def qun(S):
        for n, q in queries(S):
            for l, x in unrelated(S):
                differ(S, q, x, '%s / unrelated %s' % (n, l))
            for l, o in objects(S):
                if both(S, q, o, '%s / %s' % (n, l)):
                    S.check(S.same(S.text(q), S.text(o)), '%s equals %s' % (n, l))
    yield 'unrelated/queries', qun

    def oun(S):
        for n, o in objects(S):
            for l, x in unrelated(S):
                if is_strlike(x):
                    continue
                differ(S, o, x, '%s / unrelated %s' % (n, l))
    yield 'unrelated/objects', oun

    def mun(S):
        # everything else that is public: conditions and relations
        q = S.call('Q', a=1)
        for n, o in (('Q', q), ('Q or', S.op('BitOr', q, S.call('Q', b=1))), ('Q empty', S.call('Q')), ('Q and', S.op('BitAnd', q, S.call('Q', b=1))), ('EQ', S.rel('EQ', 1)), ('IN', S.rel('IN', S.list(1))), ('IS', S.rel('IS', None))):
            for l, x in unrelated(S):
                if is_strlike(x):
                    continue
                differ(S, o, x, '%s / unrelated %s' % (n, l))
    yield 'unrelated/conditions and relations', mun

    def otext(S):
        os_ = objects(S)
        ps_ = objects(S)
        for n1, a in os_:
            ta = S.text(a)
            S.check(both(S, a, ta, n1), '%s: not equal to its own text' % n1)
            S.check(both(S, a, a, n1), '%s: not equal to itself' % n1)
            S.check(both(S, a, S.m(a, 'copy'), n1), '%s: not equal to its copy' % n1)
            for bad in ('', 'x', '"x"', "'x'", '1', 'NULL', 'count("x")', 'COUNT("x")', 'COUNT(DISTINCT "x")'):
                S.check(both(S, a, bad, n1) == S.same(ta, bad), '%s against the string %r' % (n1, bad))
            for n2, b in ps_:
                S.check(both(S, a, b, n1) == S.same(ta, S.text(b)), '%s against %s: == does not agree with the texts' % (n1, n2))
    yield 'objects/by text', otext

    def oany(S):
        S.precise()
        S.maybe_equal('x', 'y')
        x, y = S.str('x'), S.str('y')
        same = S.ip.truth(S.ip.compare('Eq', x, y))
        S.check(both(S, S.call('C', x), y, 'C') == same, 'C(x) == y')
        S.check(both(S, S.call('C', x), S.call('C', y), 'C') == same, 'C(x) == C(y)')
        S.check(both(S, S.call('C', x), x, 'C'), 'C(x) == x')
    yield 'objects/any text of C', oany

    def oint(S):
        S.precise()
        S.maybe_equal('x', 'y')
        x, y = S.int('x'), S.int('y')
        same = S.ip.truth(S.ip.compare('Eq', x, y))
        S.check(both(S, S.call('V', x), S.call('V', y), 'V') == same, 'V(x) == V(y)')
        S.check(both(S, S.call('V', x), S.V(x), 'V'), 'V(x) == text')
        S.check(both(S, S.call('V', x), S.call('C', S.V(x)), 'V'), 'V(x) == C(text)')
    yield 'objects/any integer of V', oint

    def okinds(S):
        for k in ('str', 'int', 'float', 'Decimal', 'bytes', 'date', 'datetime'):
            v = S.scalar(k, 'o' + k)
            S.check(both(S, S.call('V', v), S.V(v), k), 'V(%s) is not equal to its text' % k)
            S.check(both(S, S.call('V', v), S.call('V', v), k), 'V(%s) made twice is not equal' % k)
            S.check(both(S, S.call('V', v), S.call('C', S.V(v)), k), 'V(%s) is not equal to C() of its text' % k)
            S.check(not both(S, S.call('V', v), None, k), 'V(%s) == None' % k)
        s = S.str('s')
        S.check(both(S, S.call('R', s), S.R(s), 'R'), 'R is not equal to its text')
        S.check(both(S, S.call('count', s), S.text(S.call('count', s)), 'count'), 'count is not equal to its text')
    yield 'objects/any value of V and R', okinds
