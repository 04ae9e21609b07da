"""C03: whatever the string, R() renders a word of the language of quoted,
dot-separated parts (regular language inclusion, per partition and backend), and
every identifier sink renders exactly what R() renders."""
from .. import regexlang as L
from .common import *
from .strspec import *


def core(backend):
    def ob(S):
        S.configure(backend)
        q = QUOTE[backend]
        x = S.str('x')
        if S.constant:
            S.expect(S.R(x), spec_reference(x, q), 'R(%r) on %s' % (x, backend))
            return
        S.precise()
        t = S.norm(S.R(x))
        w = L.subset(shape_lang(S, t), reference_lang(q))
        if w is not None:
            S.terms = (t,)
            raise Violation('on %s R(x) can render %r, which is not made of quoted parts (shape %s)' % (backend, w, show(t)))
        pats = [k for k in S.ip.ctx.facts if isinstance(k, tuple) and k[0] == 're.split']
        want = expected(S, x, q)
        if want is not None and not S.same(t, want):
            S.terms = (t,)
            raise Violation('on %s R(x) renders %s, expected %s' % (backend, show(t), show(S.norm(want))))
        if want is None:
            raise NotDecided('R() is not built on splitting; language inclusion holds, content checked on constants')
    return ob


def expected(S, x, q):
    """Parts of the reference from the facts of this partition, if the string is
    split by (a pattern equivalent to) the specified token pattern."""
    from .. import strlib
    facts = S.ip.ctx.facts
    spec = L.lang('fullmatch', '%s(?:[^%s]|%s%s)+%s|\\.' % (q, q, q, q, q))
    content = L.lang('fullmatch', '(?:[^%s]|%s%s)+' % (q, q, q))
    splits = [(k, c) for k, c in facts.items() if isinstance(k, tuple) and k[0] == 're.split' and k[3] == x]
    if len(splits) != 1:
        return None
    (_, pat, flags, _), n = splits[0]
    try:
        if L.equal(L.lang('fullmatch', pat, flags), spec) is not None or L.equal(L.group_lang(pat, 1, flags), content) is not None:
            return None
        if re.compile(pat, flags).groups != 1:
            return None
    except L.NotRegular:
        return None
    seps = L.single_only(pat, flags)
    excl = L.group_excludes(pat, 1, flags)
    out = []

    def piece(i, g):
        return Atom('x', 'str', (('repiece', pat, seps if g == 'text' else excl, i, g, n + 1),))
    for i in range(n + 1):
        a = piece(i, 'text')
        if facts.get(('nonempty', a)) == 0:
            v = S.ip.resolve(strlib.hom(SStr((a,)), {q: q + q}))
            out.append('*' if v == '*' or S.ip.resolve(SStr((a,))) == '*' else cat(q, v, q))
        elif facts.get(('nonempty', a)) is None:
            return None
        if i < n:
            if facts.get(('re.split-group', pat, x, n, i, 1)) == 0:
                v = S.ip.resolve(SStr((piece(i, 1),)))
                out.append('*' if v == '*' else cat(q, v, q))
    return join('.', out)


SINKS = {}


def sink(name):
    def deco(f):
        SINKS[name] = f
        return f
    return deco


def A(S, x, y):
    return cat(S.R(x), ' AS ', S.R(y))


T = 't'


@sink('select(x)')
def _(S, x):
    return S.call('select', x), cat('SELECT ', S.R(x))


@sink('select((x, alias))')
def _(S, x):
    return S.call('select', S.tuple(x, 'al')), cat('SELECT ', A(S, x, 'al'))


@sink('select((c, x))')
def _(S, x):
    return S.call('select', S.tuple('c', x)), cat('SELECT ', A(S, 'c', x))


@sink('select(dict)')
def _(S, x):
    return S.call('select', S.dict((x, 'al'))), cat('SELECT ', A(S, x, 'al'))


@sink('select(kw alias)')
def _(S, x):
    return S.call('select', c=x), cat('SELECT ', A(S, 'c', x))


@sink('columns second')
def _(S, x):
    return S.m(S.call('select', S.nstr('y')), 'columns', x), cat('SELECT ', S.R(S.nstr('y')), ', ', S.R(x))


@sink('function column with alias')
def _(S, x):
    return S.call('select', S.tuple(S.call('count', 'c'), x)), cat('SELECT COUNT(', S.R('c'), ') AS ', S.R(x))


@sink('subselect column with alias')
def _(S, x):
    return S.call('select', S.tuple(sub(S), x)), cat('SELECT (', S.text(sub(S)), ') AS ', S.R(x))


@sink('from_(x)')
def _(S, x):
    return S.m(S.call('select', 'c'), 'from_', x), cat('SELECT ', S.R('c'), ' FROM ', S.R(x))


@sink('select_from(x)')
def _(S, x):
    return S.call('select_from', x), cat('SELECT * FROM ', S.R(x))


@sink('from_((x, alias))')
def _(S, x):
    return S.call('select_from', S.tuple(x, 'al')), cat('SELECT * FROM ', A(S, x, 'al'))


@sink('from_((t, x))')
def _(S, x):
    return S.call('select_from', S.tuple('t', x)), cat('SELECT * FROM ', A(S, 't', x))


@sink('from_table')
def _(S, x):
    return S.m(S.call('select', 'c'), 'from_table', x, S.nstr('y')), cat('SELECT ', S.R('c'), ' FROM ', A(S, x, S.nstr('y')))


@sink('from_ kw')
def _(S, x):
    return S.call('select_from', t=x), cat('SELECT * FROM ', A(S, 't', x))


@sink('subselect table alias')
def _(S, x):
    return S.call('select_from', S.tuple(sub(S), x)), cat('SELECT * FROM (', S.text(sub(S)), ') AS ', S.R(x))


@sink('join(x)')
def _(S, x):
    return S.m(S.call('select_from', 't'), 'join', x), cat('SELECT * FROM ', S.R('t'), ' JOIN ', S.R(x))


@sink('left_join((x, alias))')
def _(S, x):
    return S.m(S.call('select_from', 't'), 'left_join', S.tuple(x, 'al')), cat('SELECT * FROM ', S.R('t'), ' LEFT JOIN ', A(S, x, 'al'))


@sink('right_join({u: x})')
def _(S, x):
    return S.m(S.call('select_from', 't'), 'right_join', S.dict(('u', x))), cat('SELECT * FROM ', S.R('t'), ' RIGHT JOIN ', A(S, 'u', x))


@sink('on(x, d)')
def _(S, x):
    return S.chain(S.call('select_from', 't'), ('join', 'u'), ('on', (x, 'd'))), cat('SELECT * FROM ', S.R('t'), ' JOIN ', S.R('u'), ' ON ', S.R(x), ' = ', S.R('d'))


@sink('on(c, x)')
def _(S, x):
    return S.chain(S.call('select_from', 't'), ('join', 'u'), ('on', ('c', x))), cat('SELECT * FROM ', S.R('t'), ' JOIN ', S.R('u'), ' ON ', S.R('c'), ' = ', S.R(x))


@sink('on(c, GT(x))')
def _(S, x):
    return (S.chain(S.call('select_from', 't'), ('join', 'u'), ('on', ('c', S.rel('GT', x)))),
            cat('SELECT * FROM ', S.R('t'), ' JOIN ', S.R('u'), ' ON ', S.R('c'), ' > ', S.R(x)))


@sink('where(x, 1)')
def _(S, x):
    return S.m(S.call('select_from', 't'), 'where', x, 1), cat('SELECT * FROM ', S.R('t'), ' WHERE ', S.R(x), ' = 1')


@sink('where(dict)')
def _(S, x):
    return S.m(S.call('select_from', 't'), 'where', S.dict((x, None))), cat('SELECT * FROM ', S.R('t'), ' WHERE ', S.R(x), ' IS NULL')


@sink('where(dict, IN)')
def _(S, x):
    return S.m(S.call('select_from', 't'), 'where', S.dict((x, S.list(1, None)))), cat('SELECT * FROM ', S.R('t'), ' WHERE (', S.R(x), ' IN (1) OR ', S.R(x), ' IS NULL)')


@sink('where(dict, NOT_IN)')
def _(S, x):
    return (S.m(S.call('select_from', 't'), 'where', S.dict((x, S.rel('NOT_IN', None)))) if False else
            S.m(S.call('select_from', 't'), 'where', S.dict((x, S.rel('NOT_IN', S.list(1, None))))),
            cat('SELECT * FROM ', S.R('t'), ' WHERE (', S.R(x), ' NOT IN (1) AND ', S.R(x), ' IS NOT NULL)'))


@sink('where(c=R(x))')
def _(S, x):
    return S.m(S.call('select_from', 't'), 'where', c=S.call('R', x)), cat('SELECT * FROM ', S.R('t'), ' WHERE ', S.R('c'), ' = ', S.R(x))


@sink('having')
def _(S, x):
    return S.m(S.call('select_from', 't'), 'having', x, 1), cat('SELECT * FROM ', S.R('t'), ' HAVING ', S.R(x), ' = 1')


@sink('Q')
def _(S, x):
    return S.call('Q', S.dict((x, 1))), cat(S.R(x), ' = 1')


@sink('Not')
def _(S, x):
    return S.call('Not', x, 1), cat('NOT(', S.R(x), ' = 1)')


@sink('group_by')
def _(S, x):
    return S.m(S.call('select_from', 't'), 'group_by', x), cat('SELECT * FROM ', S.R('t'), ' GROUP BY ', S.R(x))


@sink('group_by desc')
def _(S, x):
    return S.m(S.call('select_from', 't'), 'group_by', S.tuple(x, 'desc')), cat('SELECT * FROM ', S.R('t'), ' GROUP BY ', S.R(x), ' DESC')


@sink('order_by')
def _(S, x):
    return S.m(S.call('select_from', 't'), 'order_by', x), cat('SELECT * FROM ', S.R('t'), ' ORDER BY ', S.R(x))


@sink('order_by desc')
def _(S, x):
    return S.m(S.call('select_from', 't'), 'order_by', S.dict((x, 'desc'))), cat('SELECT * FROM ', S.R('t'), ' ORDER BY ', S.R(x), ' DESC')


@sink('insert into')
def _(S, x):
    return S.m(S.call('insert_into', x), 'values', a=1), cat('INSERT INTO ', S.R(x), ' (', S.R('a'), ') VALUES (1)')


@sink('insert column')
def _(S, x):
    return S.m(S.call('insert_into', 't'), 'values', S.dict((x, 1))), cat('INSERT INTO ', S.R('t'), ' (', S.R(x), ') VALUES (1)')


@sink('update table')
def _(S, x):
    return S.chain(S.call('update', x), ('set', (), {'a': 1}), 'allow_update_all'), cat('UPDATE ', S.R(x), ' SET ', S.R('a'), ' = 1')


@sink('update set column')
def _(S, x):
    return S.chain(S.call('update', 't'), ('set', (x, 1)), 'allow_update_all'), cat('UPDATE ', S.R('t'), ' SET ', S.R(x), ' = 1')


@sink('delete table')
def _(S, x):
    return S.chain(S.call('delete', x), ('from_', 't'), 'allow_delete_all'), cat('DELETE ', S.R(x), ' FROM ', S.R('t'))


@sink('delete_from')
def _(S, x):
    return S.m(S.call('delete_from', x), 'allow_delete_all'), cat('DELETE FROM ', S.R(x))


for _f, _n in (('avg', 'AVG'), ('count', 'COUNT'), ('max', 'MAX'), ('min', 'MIN'), ('sum', 'SUM')):
    def _g(S, x, _f=_f, _n=_n):
        return S.call(_f, x), cat(_n, '(', S.R(x), ')')
    SINKS[_f] = _g


@sink('count_distinct')
def _(S, x):
    return S.call('count_distinct', x), cat('COUNT(DISTINCT ', S.R(x), ')')


@sink('avg(tuple)')
def _(S, x):
    return S.call('count', S.tuple('c', x)), cat('COUNT(', S.R('c'), ', ', S.R(x), ')')


@sink('concat')
def _(S, x):
    return S.call('concat', S.nstr('y'), x), cat('CONCAT(', S.R(S.nstr('y')), ', ', S.R(x), ')')


@sink('group_concat order')
def _(S, x):
    return S.m(S.call('group_concat', 'c'), 'order_by', x), cat('GROUP_CONCAT(', S.R('c'), ' ORDER BY ', S.R(x), ')')


@sink('group_concat')
def _(S, x):
    return S.call('group_concat', x), cat('GROUP_CONCAT(', S.R(x), ')')


@sink('convert')
def _(S, x):
    return S.call('convert', x, 'unsigned'), cat('CONVERT(', S.R(x), ', UNSIGNED)')


@sink('R(R(x))')
def _(S, x):
    return S.call('R', S.call('R', x)), S.R(x)


@sink('V(R(x))')
def _(S, x):
    return S.call('V', S.call('R', x)), S.R(x)


# a star alone is rendered through COUNT/columns specially; it is a word of the language anyway


def obligations(tier):
    for b in BACKENDS:
        yield 'reference/%s/R(any string)' % b, core(b), {'max_paths': 4000}

        def consts(S, b=b):
            S.call('configure', b)
            q = QUOTE[b]
            for c in CONSTS:
                c = c.replace('Q', q)
                S.expect(S.R(c), spec_reference(c, q), 'R(%r) on %s' % (c, b))
            x = S.plain('p')
            y = S.plain('r')
            S.expect(S.R(x), cat(q, x, q), 'R(identifier)')
            S.expect(S.R(cat(x, '.', y)), cat(q, x, q, '.', q, y, q), 'R(a.b)')
            S.expect(S.R(cat(x, '.*')), cat(q, x, q, '.*'), 'R(a.*)')
            S.expect(S.R(cat(q, x, q)), cat(q, x, q), 'R of a quoted identifier')
        yield 'reference/%s/constants' % b, consts

        def subclass(S, b=b):
            S.configure(b)
            q = QUOTE[b]
            for v in ('a', 'a.b', 'aQb', 'Q; x', "a'b", '*', 'a.*'):
                v = v.replace('Q', q)
                x = lambda: S.sub('str', v)
                r = spec_reference(v, q)
                S.expect(S.R(x()), r, 'R(subclass of str %r)' % v)
                S.expect(S.call('select', x()), cat('SELECT ', r), 'column')
                S.expect(S.call('select', S.tuple('c', x())), cat('SELECT ', S.R('c'), ' AS ', r), 'alias')
                S.expect(S.call('select_from', x()), cat('SELECT * FROM ', r), 'table')
                S.expect(S.m(S.call('select_from', 't'), 'order_by', x()), cat('SELECT * FROM ', S.R('t'), ' ORDER BY ', r), 'order')
                S.expect(S.m(S.call('select_from', 't'), 'join', x()), cat('SELECT * FROM ', S.R('t'), ' JOIN ', r), 'join')
                S.expect(S.m(S.call('select_from', 't'), 'where', x(), 1), cat('SELECT * FROM ', S.R('t'), ' WHERE ', r, ' = 1'), 'condition column')
                S.expect(S.call('max', x()), cat('MAX(', r, ')'), 'function argument')
        yield 'reference/%s/subclass of str' % b, subclass
        for name, f in SINKS.items():
            def ob(S, b=b, f=f, name=name):
                S.configure(b)
                x = S.nstr('x')
                got = S.text(f(S, x)[0])
                S.expect(got, f(S, x)[1], '%s on %s' % (name, b))
            yield 'sink/%s/%s' % (b, name), ob

    def target(S):
        S.call('configure', 'postgresql')
        x = S.nstr('x')
        q = S.chain(S.call('insert_into', 't'), ('values', (), {'a': 1}), ('on_duplicate_key_update', (x, S.dict(('u', 2)))))
        S.expect(q, cat('INSERT INTO "t" ("a") VALUES (1) ON CONFLICT (', S.R(x), ') DO UPDATE "u" = 2'), 'conflict target')
        q = S.chain(S.call('insert_into', 't'), ('values', (), {'a': 1}), ('on_duplicate_key_update', ('id', S.dict((x, 2)))))
        S.expect(q, cat('INSERT INTO "t" ("a") VALUES (1) ON CONFLICT ("id") DO UPDATE ', S.R(x), ' = 2'), 'conflict column')
    yield 'sink/postgresql/on_duplicate_key_update', target

    def target(S):
        S.call('configure', 'mysql')
        x = S.nstr('x')
        q = S.chain(S.call('insert_into', 't'), ('values', (), {'a': 1}), ('on_duplicate_key_update', (S.dict((x, 2)),)))
        S.expect(q, cat('INSERT INTO `t` (`a`) VALUES (1) ON DUPLICATE KEY UPDATE ', S.R(x), ' = 2'), 'duplicate key column')
    yield 'sink/mysql/on_duplicate_key_update', target

    def full(S):
        S.call('configure', 'postgresql')
        x = S.nstr('x')
        S.expect(S.m(S.call('select_from', 't'), 'full_join', x), cat('SELECT * FROM "t" FULL JOIN ', S.R(x)), 'full join')
    yield 'sink/postgresql/full_join', full


CONSTS = ['a', 'a.b', 'a.b.c', 'a.b.c.d', '*', 'a.*', '*.*', '', '.', '..', 'a..b', '.a', 'a.', 'QaQ', 'QaQ.QbQ', 'Qa.bQ', 'Qa.bQ.c', 'c.Qa.bQ', 'aQb',
          'aQ', 'Qa', 'QQ', 'QQQ', 'QQQQ', 'QaQQbQ', 'QaQbQ', 'a b', ' a ', "a'b", 'a\\b', 'a\nb', 'a;b--', 'Q*Q', 'Q*Q.a', 'é', 'a*', '**', 'a.Q.Q.b',
          'x' * 200, 'a.' * 30 + 'b', 'Qa b.cQ', 'aQbQc', 'aQ.Qb', 'Q.Q', 'QaQQ', 'QQaQ', 'QQaQQ', '\x00', '%s', '{0}', '{}', '1', '1.5', 'select', 'Qa\nbQ', '$', '(', ')', '[a]', '`a`', '"a"', "'a'"]
