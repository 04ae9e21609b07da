"""C12: a history with observations (str, repr, tosql, ==, !=, has, copy) and
backend switches at every point gives, step by step, the same texts as the same
history without them; rendering repeated without changes gives the same text."""
import itertools
from .common import *
from . import strspec

KINDS = ['select', 'insert', 'update', 'delete', 'union']
CLAUSES = {
    'select': ['select_options', 'columns', 'tables', 'where', 'group_by', 'having', 'order_by', 'limit', 'into_outfile', 'select_for_update', 'distinct', 'nonsense'],
    'insert': ['tables', 'values', 'insert_options', 'on_duplicate_key_update', 'on_conflict_do_update', 'keyword', 'nonsense'],
    'update': ['tables', 'values', 'where', 'update_options', 'nonsense'],
    'delete': ['tables', 'references', 'where', 'delete_options', 'nonsense'],
    'union': ['where', 'nonsense'],
}


def observe(S, q, kind, which=None):
    """Every kind of observation; exceptions of rendering are fine."""
    obs = {
        'str': lambda: S.text(q),
        'repr': lambda: S.repr(q),
        'tosql': lambda: S.m(q, 'tosql'),
        'copy': lambda: S.text(S.m(q, 'copy')),
        'eq copy': lambda: S.eq(q, S.m(q, 'copy')),
        'ne other': lambda: S.ne(q, start(S, kind)),
        'eq other': lambda: S.eq(start(S, kind), q),
        'eq str': lambda: S.eq(q, 'x'),
        'hash': lambda: S.ip.call(S.ip.builtins['hash'], [q]),
        'has': lambda: [S.m(q, 'has', c) for c in CLAUSES[kind]],
        'has text': lambda: [S.m(q, 'has', c, x) for c in CLAUSES[kind] if c != 'select_for_update' for x in ('t', 'id')],
    }
    for n, f in obs.items():
        if which is None or n in which:
            S.outcome(f)


ALL = {'str', 'repr', 'tosql', 'copy', 'eq copy', 'ne other', 'eq other', 'eq str', 'hash', 'has', 'has text'}


def texts(S, q):
    r = S.outcome(lambda: S.text(q))
    return r[1] if r[0] == 'ok' else '!' + r[1].obj.cls.name


def twin_check(S, q, w, what):
    a, b = texts(S, q), texts(S, w)
    if isinstance(b, str) and b.startswith('!') or isinstance(a, str) and a.startswith('!'):
        S.check(a == b, '%s: %s instead of %s' % (what, show(a), show(b)))
    else:
        S.expect(a, b, what)


def obligations(tier):
    for kind in KINDS:
        for make in (start, rich):
            tag = '%s %s' % (make.__name__, kind)

            def again(S, kind=kind, make=make):
                q = make(S, kind)
                t = S.text(q)
                for n in range(3):
                    observe(S, q, kind)
                    S.expect(q, t, 'rendering %d' % n)
                    S.expect(S.m(q, 'tosql'), t, 'tosql %d' % n)
                    S.expect(S.m(q, 'copy'), t, 'copy %d' % n)
                S.expect(q, S.text(make(S, kind)), 'against a query never observed')
                S.check(S.eq(q, make(S, kind)) is True, 'after observations the query differs from one never observed')
            yield 'observe/%s/repeated' % tag, again

            bs = builders(kind, make is rich)
            for name, b in bs.items():
                def one(S, kind=kind, make=make, b=b, name=name):
                    q, w = make(S, kind), make(S, kind)
                    # looking for a text inside an abstract literal splits too far
                    which = ALL - {'has text'} if name in ('values(dict)', 'where(str)', 'where(dict)', 'set(dict)') else None
                    for n in range(2):
                        observe(S, q, kind, which)
                        r1 = S.outcome(lambda: apply(S, q, b))
                        r2 = S.outcome(lambda: apply(S, w, b))
                        S.check(r1[0] == r2[0], '%s behaves differently after observations' % name)
                        observe(S, q, kind, which)
                        twin_check(S, q, S.m(w, 'copy'), '%s after observations' % name)
                    twin_check(S, q, w, '%s after observations' % name)
                    S.check(S.eq(q, w) is True, 'after observations and %s the query differs from one never observed' % name)
                    twin_check(S, q, w, '%s rendered again' % name)
                yield 'observe/%s/%s' % (tag, name), one
            pairs = list(itertools.product(bs, repeat=2))
            if tier == 'quick':
                pairs = pairs[::11] if kind == 'select' else pairs[::3]
            for i in range(0, len(pairs), 25):
                def two(S, kind=kind, make=make, bs=bs, chunk=pairs[i:i + 25]):
                    for x, y in chunk:
                        q, w = make(S, kind), make(S, kind)
                        S.outcome(lambda: apply(S, q, bs[x]))
                        observe(S, q, kind, ('str', 'has', 'eq copy'))
                        S.outcome(lambda: apply(S, q, bs[y]))
                        S.outcome(lambda: apply(S, w, bs[x]))
                        S.outcome(lambda: apply(S, w, bs[y]))
                        twin_check(S, q, w, '%s, observed, %s' % (x, y))
                yield 'observe/%s/pairs %d' % (tag, i), two

            def switch(S, kind=kind, make=make):
                S.call('configure', 'sql')
                q = make(S, kind)
                for seq in (('sql', 'mysql'), ('postgresql', 'sqlite'), ('mysql', 'postgresql'), ('sql', 'postgresql'), ('mysql', 'sql')):
                    for be in seq:
                        S.call('configure', be)
                        observe(S, q, kind, ('str', 'repr', 'has'))
                        w = S.m(make(S, kind), 'copy')
                        S.expect(q, S.text(w), 'on %s after rendering on others' % be)
            yield 'observe/%s/backend switches' % tag, switch

    objs = {
        'V str': lambda S: S.call('V', S.str('s')), 'V bool': lambda S: S.call('V', True), 'V bytes': lambda S: S.call('V', S.num('b', 'bytes')),
        'V list': lambda S: S.call('V', S.list(S.str('s'), True, None)), 'V generator': lambda S: S.call('V', S.gen(S.int('g0'), S.str('s'))),
        'V tuple': lambda S: S.call('V', S.tuple(1, 'x')), 'V set': lambda S: S.call('V', S.set(1)),
        'V sub': lambda S: S.call('V', sub(S)), 'R': lambda S: S.call('R', S.plain('r')), 'R any': lambda S: S.call('R', S.str('s')), 'C': lambda S: S.call('C', S.plain('c')),
        'count': lambda S: S.call('count', 'x'), 'avg': lambda S: S.call('avg_distinct', 'x'), 'concat': lambda S: S.call('concat', 'x', S.call('V', 'y')),
        'group_concat': lambda S: S.m(S.m(S.call('group_concat', 'x'), 'order_by', 'y'), 'separator', S.str('s')),
        'convert': lambda S: S.call('convert', 'x', 'signed'), 'Q': lambda S: S.call('Q', a=S.int('i'), b=True), 'Q|Q': lambda S: S.op('BitOr', S.call('Q', a=True), S.call('Q', b=S.str('s'))),
        'Not': lambda S: S.call('Not', a=True), 'exists': lambda S: S.call('exists', S.m(sub(S), 'where', a=True)),
        'Q IN': lambda S: S.call('Q', a=S.rel('IN', S.gen(S.int('g0'), None))), 'Q list': lambda S: S.call('Q', a=S.gen(S.int('g0'), True)),
    }
    for name, f in objs.items():
        def ob(S, f=f, name=name):
            o = f(S)
            for be in ('sql', 'mysql', 'postgresql', 'sqlite', 'mysql', 'sql', 'postgresql'):
                S.call('configure', be)
                w = f(S)
                S.expect(o, S.text(w), '%s on %s' % (name, be))
                S.repr(o)
                S.eq(o, w)
                S.expect(S.m(o, 'tosql'), S.text(w), '%s rendered again' % name)
                S.expect(S.m(o, 'copy'), S.text(w), 'copy of %s' % name)
        yield 'observe/object %s' % name, ob

        def emb(S, f=f, name=name):
            o = f(S)
            if 'Q' in name or name in ('Not', 'exists'):
                mk_ = lambda x: S.m(S.call('select_from', 't'), 'where', x)
            else:
                mk_ = lambda x: S.m(S.call('select', x), 'from_', 't')
            q = mk_(o)
            for be in ('sql', 'postgresql', 'mysql', 'sqlite', 'postgresql', 'sql'):
                S.call('configure', be)
                S.expect(q, S.text(mk_(f(S))), '%s embedded, on %s' % (name, be))
                S.expect(q, S.text(q), '%s embedded, again' % name)
        yield 'observe/embedded object %s' % name, emb

    def subs(S):
        # observing an outer query does not freeze or change what it embeds
        for emb in ('from', 'column', 'value', 'in', 'join', 'exists', 'union'):
            def build(s):
                if emb == 'from':
                    return S.call('select_from', S.tuple(s, 'x'))
                if emb == 'column':
                    return S.m(S.call('select', S.tuple(s, 'x')), 'from_', 't')
                if emb == 'value':
                    return S.m(S.call('select_from', 't'), 'where', k=s)
                if emb == 'in':
                    return S.m(S.call('select_from', 't'), 'where', k=S.rel('IN', s))
                if emb == 'join':
                    return S.m(S.m(S.call('select_from', 't'), 'join', S.tuple(s, 'x')), 'on', 'a', 'b')
                if emb == 'exists':
                    return S.m(S.call('select_from', 't'), 'where', S.call('exists', s))
                return S.op('BitOr', S.call('select_from', 't'), s)
            s1, s2 = sub(S), sub(S)
            q1, q2 = build(s1), build(s2)
            S.text(q1)
            S.eq(q1, S.m(q1, 'copy'))
            for st in (('where', (), {'w': S.int('w')}), ('limit', (3,), {}), ('columns', ('z',), {})):
                S.m(s1, st[0], *st[1], **st[2])
                S.m(s2, st[0], *st[1], **st[2])
                S.text(s1)
                S.text(q1)
            S.expect(q1, S.text(q2), 'subquery in %s, outer query observed before' % emb)
            S.expect(s1, S.text(s2), 'subquery in %s itself' % emb)
    yield 'observe/subqueries', subs

    def falsy(S):
        # settings that count as false: observing between two calls changes nothing
        steps = [('limit', (0, 5), {}), ('limit', (0,), {}), ('limit', (1,), {}), ('limit', (10,), {}), ('limit', (None,), {}), ('offset', (0,), {}), ('offset', (7,), {}), ('offset', (None,), {}),
                 ('where', (), {'w': 0}), ('where', (), {'w': ''}), ('where', (), {'w': None}), ('having', (), {'h': False}), ('columns', ('',), {}), ('columns', (0,), {}),
                 ('into_outfile', ('',), {}), ('fields_terminated_by', ('',), {}), ('into_outfile', ('f',), {}), ('for_update', (False,), {}), ('for_update', (), {}), ('distinct', (False,), {}), ('distinct', (), {})]
        for a in steps:
            for b in steps:
                q, w = S.call('select_from', 't'), S.call('select_from', 't')
                for st in (a, b):
                    observe(S, q, 'select', ('str', 'has', 'eq copy'))
                    r1 = S.outcome(lambda: S.m(q, st[0], *st[1], **st[2]))
                    r2 = S.outcome(lambda: S.m(w, st[0], *st[1], **st[2]))
                    S.check(r1[0] == r2[0], '%s%r behaves differently after observations' % st[:2])
                twin_check(S, q, w, '%s%r, observed, %s%r' % (a[:2] + b[:2]))
    yield 'observe/falsy settings', falsy

    def funcs(S):
        # functions reflect their current state after being rendered
        c = S.call('count', 'x')
        S.expect(c, 'COUNT("x")', 'count')
        q = S.call('select', c)
        S.expect(q, 'SELECT COUNT("x")', 'count in select')
        S.m(c, 'distinct')
        S.expect(c, 'COUNT(DISTINCT "x")', 'count after distinct')
        S.m(c, 'distinct', False)
        S.expect(c, 'COUNT("x")', 'count after distinct(False)')
        g = S.call('group_concat', 'x')
        S.text(g)
        S.m(g, 'order_by', 'y')
        S.expect(g, 'GROUP_CONCAT("x" ORDER BY "y")', 'group_concat after order_by')
        S.m(g, 'separator', '-')
        S.expect(g, 'GROUP_CONCAT("x" ORDER BY "y" SEPARATOR \'-\')', 'group_concat after separator')
        v = S.call('convert', 'x', 'signed')
        S.text(v)
        S.m(v, 'to', 'char')
        S.expect(v, 'CONVERT("x", CHAR)', 'convert after to')
        Q = S.call('Q', a=1)
        S.text(Q)
        S.m(Q, 'where', b=S.int('i'))
        S.expect(Q, cat('"a" = 1 AND ', eqc(S, 'b', S.int('i'))), 'Q after where')
    yield 'observe/functions', funcs

    for first, second in itertools.product(('join', 'left_join', 'right_join'), repeat=2):
        def joins(S, first=first, second=second):
            # joins that collapse in the text are still separate afterwards
            j = lambda m: [(m, ('u',)), ('on', ('t.id', 'u.id'))]
            for steps in (j(first) + j(second) + [('on', ('t.x', 'u.x'))], j(first) + j(second) + j(first), j(first) + j(second) + [('on', ('t.x', 'u.x'))] + j(second),
                          [(first, ('u',)), (second, ('u',)), ('on', ('t.id', 'u.id')), (first, ('u',))],
                          j(first) + [(second, ('u',)), ('on', ('u.id', 't.id')), ('on', ('a', S.int('i')))]):
                q, w = S.call('select_from', 't'), S.call('select_from', 't')
                for st in steps:
                    q = S.m(q, st[0], *st[1])
                    observe(S, q, 'select', ('str', 'eq copy', 'eq other', 'copy', 'has'))
                    w = S.m(w, st[0], *st[1])
                S.expect(q, S.text(w), '%s and %s of one table, observed at every step' % (first, second))
                S.check(S.eq(q, w) is True, 'after observations the joins differ from those never observed')
        yield 'observe/joins/%s, %s' % (first, second), joins

    for bes in itertools.permutations(BACKENDS, 3):
        def spec(S, bes=bes):
            # the text on every backend, given explicitly, after renderings on others
            names = ('a', 'a.b', 'a`b', 'x"y', '`q`.r', '"q".r', 'S', 'a.*')
            make = {
                'R': (lambda n: S.call('R', n), lambda r, q: r),
                'count': (lambda n: S.call('count', n), lambda r, q: 'COUNT(%s)' % r),
                'select': (lambda n: S.m(S.call('select', n, S.tuple(n, n)), 'from_', 't'), lambda r, q: 'SELECT {0}, {0} AS {0} FROM {1}t{1}'.format(r, q)),
                'from': (lambda n: S.call('select_from', n), lambda r, q: 'SELECT * FROM %s' % r),
                'where': (lambda n: S.m(S.call('select_from', 't'), 'where', n, True), lambda r, q: 'SELECT * FROM %st%s WHERE %s = %s' % (q, q, r, 'true' if be == 'postgresql' else '1')),
                'order': (lambda n: S.m(S.call('select_from', 't'), 'order_by', n), lambda r, q: 'SELECT * FROM %st%s ORDER BY %s' % (q, q, r)),
                'group': (lambda n: S.m(S.call('select_from', 't'), 'group_by', n), lambda r, q: 'SELECT * FROM %st%s GROUP BY %s' % (q, q, r)),
                'join': (lambda n: S.m(S.m(S.call('select_from', 't'), 'join', n), 'on', n, n), lambda r, q: 'SELECT * FROM {1}t{1} JOIN {0} ON {0} = {0}'.format(r, q)),
                'set': (lambda n: S.m(S.m(S.call('update', 't'), 'set', n, b'x'), 'allow_update_all'),
                        lambda r, q: 'UPDATE %st%s SET %s = %s' % (q, q, r, "E'\\\\x78'" if be == 'postgresql' else "x'78'")),
                'insert': (lambda n: S.m(S.call('insert_into', 't'), 'values', n, None), lambda r, q: 'INSERT INTO %st%s (%s) VALUES (NULL)' % (q, q, r)),
            }
            old = {}
            for be in bes + bes[:1]:
                S.call('configure', be)
                for k, (f, text) in make.items():
                    for n in names:
                        want = text(strspec.spec_reference(n, QUOTE[be]), QUOTE[be])
                        for o in (old.setdefault((k, n), f(n)), f(n)):
                            S.expect(o, want, '%s of %r on %s after rendering on %s' % (k, n, be, ', '.join(bes)))
                for v in ('x', "it's", '`q`', '"q"', '`q`.r', '"q".r'):
                    want = strspec.spec_value(v, QUOTE[be])
                    for o in (old.setdefault(('V', v), S.call('V', v)), S.call('V', v)):
                        S.expect(o, want, 'V of %r on %s after rendering on %s' % (v, be, ', '.join(bes)))
                for v, w in ((True, 'true'), (False, 'false'), (1, '1'), (0, '0'), (1.0, '1.00000'), (S.list(1, True), '(1, true)')):
                    if be != 'postgresql':
                        w = w.replace('true', '1').replace('false', '0')
                    S.expect(S.call('V', v), w, 'V of %s on %s' % (show(v), be))
        yield 'observe/backend sequence %s' % ', '.join(bes), spec

    def refused(S):
        # a refused rendering or a refused call leaves the query usable
        for kind, f in (('update', lambda: S.m(S.call('update', 't'), 'set', a=S.int('i'))), ('delete', lambda: S.call('delete_from', 't'))):
            q, w = f(), f()
            for _ in range(2):
                S.expect_raise(lambda: S.text(q), 'ConfirmException', what='rendering without condition')
                S.expect_raise(lambda: S.repr(q), 'ConfirmException', what='rendering without condition')
            S.m(q, 'where', k=S.int('k'))
            S.m(w, 'where', k=S.int('k'))
            S.expect(q, S.text(w), 'after a refused rendering')
        # empty list refused at rendering
        q = S.m(S.call('select_from', 't'), 'where', k=S.list())
        S.expect_raise(lambda: S.text(q), INVALID, what='empty list')
        S.expect_raise(lambda: S.text(q), INVALID, what='empty list again')
    yield 'observe/refused renderings', refused
