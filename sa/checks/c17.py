"""C17: configure() with every name, letter case and sequence; FULL JOIN and
on_duplicate_key_update on every backend with every argument shape."""
import itertools
from .common import *

IQ = 'InvalidQueryException'


def probe(S):
    """Text that identifies the active backend."""
    return S.text(S.call('select', 'a', S.call('V', True), S.call('V', b'a')))


PROBE = {'sql': 'SELECT "a", 1, x\'61\'', 'sqlite': 'SELECT "a", 1, x\'61\'', 'mysql': 'SELECT `a`, 1, x\'61\'', 'postgresql': 'SELECT "a", true, E\'\\\\x61\''}


def features(S, be, what):
    """Everything that depends on the backend behaves like `be`."""
    S.expect(probe(S), PROBE[be], '%s: literals' % what)
    fj = lambda: S.m(S.m(S.call('select_from', 't'), 'full_join', 'u'), 'on', 'x', 'y')
    if be == 'postgresql':
        S.expect(fj(), 'SELECT * FROM "t" FULL JOIN "u" ON "x" = "y"', '%s: full join' % what)
    else:
        S.expect_raise(fj, IQ, what='%s: full join' % what)
    i = S.int('up')
    base = lambda: S.m(S.call('insert_into', 't'), 'values', a=1)
    if be == 'mysql':
        S.expect(S.m(base(), 'on_duplicate_key_update', b=i), cat('INSERT INTO `t` (`a`) VALUES (1) ON DUPLICATE KEY UPDATE `b` = ', S.V(i)), '%s: upsert' % what)
    elif be == 'postgresql':
        S.expect(S.m(base(), 'on_duplicate_key_update', 'id', b=i), cat('INSERT INTO "t" ("a") VALUES (1) ON CONFLICT ("id") DO UPDATE "b" = ', S.V(i)), '%s: upsert' % what)
        S.expect_raise(lambda: S.m(base(), 'on_duplicate_key_update', b=i), IQ, what='%s: upsert without target' % what)
    elif be == 'sqlite':
        S.expect(S.m(base(), 'on_duplicate_key_update'), 'REPLACE INTO "t" ("a") VALUES (1)', '%s: upsert' % what)
        S.expect_raise(lambda: S.m(base(), 'on_duplicate_key_update', b=i), IQ, what='%s: upsert with arguments' % what)
    else:
        S.expect_raise(lambda: S.m(base(), 'on_duplicate_key_update', b=i), IQ, what='%s: upsert' % what)
        S.expect_raise(lambda: S.m(base(), 'on_duplicate_key_update'), IQ, what='%s: upsert' % what)
        S.expect_raise(lambda: S.m(base(), 'on_duplicate_key_update', 'id', b=i), IQ, what='%s: upsert' % what)


def cases(name):
    out = {name, name.upper(), name.capitalize(), name[0] + name[1:].upper(), name[:-1] + name[-1].upper(), name.swapcase()}
    out.add(''.join(c.upper() if i % 2 else c for i, c in enumerate(name)))
    return sorted(out)


UNKNOWN = ['oracle', '', 'mysql ', ' mysql', 'my sql', 'mysq', 'mysqll', 'postgres', 'sqlite3', 'SQL Server', 'none', 'sql.', 'mysql\n', 'pgsql', 'sqlpuzzle', 'default', 'name',
           'po\u017ftgresql', '\u017fql', 'mysql+x', 'sql+x', 'postgresql:', 'postgresql.x', 'mysql-x', 'mysql_', 'sql/ite', 'mysql;', '"mysql"', 'm\u0131sql', 'mysql\x00', 'sqlite\u0307',
           '\uff4dysql', 'mysqlbackend', 'mysql4', '1sql', 'sql,mysql']


def obligations(tier):
    def default(S):
        features(S, 'sql', 'unconfigured')
    yield 'backend/default', default
    for be in BACKENDS:
        def one(S, be=be):
            for n in cases(be):
                S.call('configure', 'sql' if be != 'sql' else 'mysql')
                S.call('configure', n)
                features(S, be, 'configure(%r)' % n)
        yield 'backend/%s in any letter case' % be, one

        def unknown(S, be=be):
            S.call('configure', be)
            for bad in UNKNOWN:
                S.expect_raise(lambda: S.call('configure', bad), LIBEXC, what='configure(%r)' % bad)
                S.expect(probe(S), PROBE[be], 'after configure(%r)' % bad)
            for bad in (None, 1, True, S.list(), S.tuple('mysql'), b'mysql', S.opaque(), S.dict(('mysql', 1)), S.call('select'), 1.5):
                S.expect_raise(lambda: S.call('configure', bad), LIBEXC, what='configure() with a wrong type')
                S.expect(probe(S), PROBE[be], 'after configure() with a wrong type')
            features(S, be, 'after refused configure() calls')
        yield 'backend/unknown names leave %s active' % be, unknown

        def anyname(S, be=be):
            # any string: accepted exactly when its lower case is a known name
            S.call('configure', be)
            n = S.str('name')
            r = S.outcome(lambda: S.call('configure', n))
            if r[0] == 'exc':
                S.check(S.is_exc(r[1], LIBEXC), 'configure() raises %s' % r[1].obj.cls.name)
                S.expect(probe(S), PROBE[be], 'after a refused configure()')
        yield 'backend/any name on %s' % be, anyname

    for a in BACKENDS:
        def seqs(S, a=a):
            for b in BACKENDS:
                for c in BACKENDS:
                    for n in (a, b, c):
                        S.call('configure', n)
                    features(S, c, 'configure %s, %s, %s' % (a, b, c))
        yield 'backend/sequences from %s' % a, seqs

        def existing(S, a=a):
            # objects made before are rendered for the new backend
            S.call('configure', a)
            q = S.m(S.m(S.call('select', 'c'), 'from_', 't'), 'where', w=True, b=S.int('i'))
            ins = S.m(S.call('insert_into', 't'), 'values', a=True, b=b'a')
            for b in BACKENDS:
                S.call('configure', b)
                k = QUOTE_[b]
                tr = 'true' if b == 'postgresql' else '1'
                by = "E'\\\\x61'" if b == 'postgresql' else "x'61'"
                S.expect(q, cat(k('SELECT @c@ FROM @t@ WHERE @b@ = '), S.V(S.int('i')), k(' AND @w@ = ' + tr)), 'query made on %s rendered on %s' % (a, b))
                S.expect(ins, k('INSERT INTO @t@ (@a@, @b@) VALUES (%s, ' % tr) + by + ')', 'insert made on %s rendered on %s' % (a, b))
                S.expect(S.call('select', S.tuple('x', 'y')), k('SELECT @x@ AS @y@'), 'query made on %s' % b)
        yield 'backend/objects made on %s rendered on all' % a, existing

    base = lambda S: S.m(S.call('insert_into', 't'), 'values', a=1)

    def mysql(S):
        S.call('configure', 'mysql')
        i, j = S.int('i'), S.int('j')
        head = 'INSERT INTO `t` (`a`) VALUES (1) ON DUPLICATE KEY UPDATE '
        two = cat(head, eqc(S, 'b', i), ', ', eqc(S, 'c', j))
        up = lambda *a, **k: S.m(base(S), 'on_duplicate_key_update', *a, **k)
        S.expect(up(b=i, c=j), two, 'keywords')
        S.expect(up(S.dict(('c', j), ('b', i))), two, 'dict')
        S.expect(up(S.list(S.tuple('b', i), S.tuple('c', j))), two, 'list')
        S.expect(up(S.tuple('b', i), S.tuple('c', j)), two, 'tuples')
        S.expect(up('b', i), cat(head, eqc(S, 'b', i)), 'pair')
        S.expect(up(S.call('C', 'x = x + 1')), head + 'x = x + 1', 'custom')
        S.expect(S.m(up(b=i), 'on_duplicate_key_update', c=j), two, 'two calls')
        S.expect(up(S.dict(('b', i)), c=j), two, 'dict and keywords')
        for bad in (('b',), (1,), ('a', 1, 2)):
            S.expect_raise(lambda: up(*bad), INVALID, what='wrong arguments on mysql')
        for v in (0, '', False, None):
            S.expect(up(b=v), cat(head, '`b` = ', S.V(v)), 'falsy value')
    yield 'upsert/mysql', mysql

    def pg(S):
        S.call('configure', 'postgresql')
        i, j = S.int('i'), S.int('j')
        t = S.plain('target')
        head = cat('INSERT INTO "t" ("a") VALUES (1) ON CONFLICT (', S.R(t), ') DO UPDATE ')
        two = cat(head, eqc(S, 'b', i), ', ', eqc(S, 'c', j))
        up = lambda *a, **k: S.m(base(S), 'on_duplicate_key_update', *a, **k)
        S.expect(up(t, b=i, c=j), two, 'keywords')
        S.expect(up(t, S.dict(('c', j), ('b', i))), two, 'dict')
        S.expect(up(t, S.list(S.tuple('b', i), S.tuple('c', j))), two, 'list')
        S.expect(up(t, S.tuple('b', i), S.tuple('c', j)), two, 'tuples')
        S.expect(up(t, 'b', i), cat(head, eqc(S, 'b', i)), 'pair')
        S.expect(up(t, S.call('C', 'x = x + 1')), cat(head, 'x = x + 1'), 'custom')
        S.expect(S.m(up(t, b=i), 'on_duplicate_key_update', t, c=j), two, 'two calls')
        for a, k in (((), {}), ((), {'b': i}), ((S.dict(('b', i)),), {}), ((S.list(S.tuple('b', i)),), {}), ((1,), {'b': i}), ((None,), {'b': i}), ((S.tuple('id'),), {'b': i}), ((True,), {'b': i}), ((S.list('id'),), {'b': i}), ((S.dict(),), {'b': i}), ((b'id',), {'b': i}), ((0,), {}), ((1.5,), {'b': i})):
            S.expect_raise(lambda: up(*a, **k), INVALID, what='no target on postgresql')
        S.expect_raise(lambda: up(), IQ, what='no target on postgresql')
        S.expect_raise(lambda: up(b=i), IQ, what='no target on postgresql')
        S.expect_raise(lambda: up(S.dict(('b', i))), IQ, what='no target on postgresql')
        for bad in (('id', 'b'), ('id', 1), ('id', 'a', 1, 2)):
            S.expect_raise(lambda: up(*bad), INVALID, what='wrong arguments on postgresql')
    yield 'upsert/postgresql', pg

    def lite(S):
        S.call('configure', 'sqlite')
        i = S.int('i')
        up = lambda *a, **k: S.m(base(S), 'on_duplicate_key_update', *a, **k)
        S.expect(up(), 'REPLACE INTO "t" ("a") VALUES (1)', 'no arguments')
        S.expect(S.m(up(), 'on_duplicate_key_update'), 'REPLACE INTO "t" ("a") VALUES (1)', 'twice')
        S.expect(S.m(up(), 'values', a=i), cat('REPLACE INTO "t" ("a") VALUES (1), (', S.V(i), ')'), 'then values')
        S.expect(S.m(up(), 'ignore'), 'REPLACE IGNORE INTO "t" ("a") VALUES (1)', 'ignore')
        S.expect(base(S), 'INSERT INTO "t" ("a") VALUES (1)', 'another insert')
        for a, k in (((), {'b': i}), (('id',), {}), (('id',), {'b': i}), ((S.dict(('b', i)),), {}), ((S.list(S.tuple('b', i)),), {}), ((None,), {}), ((S.dict(),), {}), ((0,), {}), (('',), {}), ((S.list(),), {}), ((), {'b': None}), (('b', i), {})):
            q = base(S)
            S.expect_raise(lambda: S.m(q, 'on_duplicate_key_update', *a, **k), IQ, what='arguments on sqlite')
    yield 'upsert/sqlite', lite

    def plain(S):
        i = S.int('i')
        for a, k in (((), {}), ((), {'b': i}), (('id',), {}), (('id',), {'b': i}), ((S.dict(('b', i)),), {}), ((S.list(S.tuple('b', i)),), {}), ((None,), {}), (('b', i), {})):
            q = base(S)
            S.expect_raise(lambda: S.m(q, 'on_duplicate_key_update', *a, **k), IQ, what='upsert on plain SQL')
            S.expect(q, 'INSERT INTO "t" ("a") VALUES (1)', 'insert after a refused upsert')
    yield 'upsert/plain SQL', plain

    def full(S):
        for be in BACKENDS:
            S.call('configure', be)
            for arg, tx in (('u', '"u"'), (S.tuple('u', 'x'), '"u" AS "x"'), (S.dict(('u', 'x')), '"u" AS "x"'), (S.tuple(sub(S), 'x'), cat('(', S.text(sub(S)), ') AS "x"'))):
                q = S.call('select_from', 't')
                if be == 'postgresql':
                    S.expect(S.m(q, 'full_join', arg), cat('SELECT * FROM "t" FULL JOIN ', tx), 'full join')
                else:
                    before = S.text(q)
                    S.expect_raise(lambda: S.m(q, 'full_join', arg), IQ, what='full join on ' + be)
                    S.expect(q, before, 'query after a refused full join on ' + be)
            for jm, kw in (('join', 'JOIN'), ('inner_join', 'JOIN'), ('left_join', 'LEFT JOIN'), ('right_join', 'RIGHT JOIN')):
                S.expect(S.m(S.call('select_from', 't'), jm, 'u'), cat('SELECT * FROM ', S.R('t'), ' ', kw, ' ', S.R('u')), '%s on %s' % (jm, be))
    yield 'join/full join only on postgresql', full


def _k(be):
    return lambda s: s.replace('@', '`' if be == 'mysql' else '"')


QUOTE_ = {b: _k(b) for b in BACKENDS}
