"""C19: every argument position x every type of argument: accepted types do not
raise, every other type raises InvalidArgumentException (at the call, or at
rendering for values inside collections and functions); every backend; types of
all exceptions the library raises."""
import datetime
import decimal
from .common import *

# label -> make
PLAIN = {
    'str': lambda S: S.nstr('xs'), 'int': lambda S: S.int('xi'), 'float': lambda S: S.num('xf', 'float'), 'True': lambda S: True, 'False': lambda S: False,
    'None': lambda S: None, 'bytes': lambda S: S.scalar('bytes', 'xb'), 'bytearray': lambda S: bytearray(b'ab'),
    'Decimal': lambda S: S.num('xd', 'Decimal'), 'date': lambda S: S.scalar('date', 'xt'), 'datetime': lambda S: S.scalar('datetime', 'xdt'),
    'time': lambda S: datetime.time(1), 'timedelta': lambda S: datetime.timedelta(1), 'complex': lambda S: 1j,
    '[]': lambda S: S.list(), '[1]': lambda S: S.list('a'), '[2]': lambda S: S.list('a', 'b'), '[3]': lambda S: S.list('a', 'b', 'c'), '[n]': lambda S: S.list(1, 2),
    '()': lambda S: S.tuple(), '(1)': lambda S: S.tuple('a'), '(2)': lambda S: S.tuple('a', 'b'), '(3)': lambda S: S.tuple('a', 'b', 'c'), '(True,)': lambda S: S.tuple(True), '[None]': lambda S: S.list(None),
    '{}': lambda S: S.dict(), '{1}': lambda S: S.dict(('a', 'b')), '{2}': lambda S: S.dict(('a', 'b'), ('c', 'd')), 'OrderedDict': lambda S: S.dict(('a', 'b'), kind='OrderedDict'),
    'set': lambda S: S.set('a'), 'frozenset': lambda S: S.set('a', kind='frozenset'), 'set()': lambda S: S.set(), 'gen': lambda S: S.gen('a'), 'range': lambda S: S.range(2),
    'opaque': lambda S: S.opaque(), 'class': lambda S: S.opaque().cls, 'function': lambda S: S.ip.builtins['len'],
}
SQL = {
    'C': lambda S: S.call('C', 'x'), 'V': lambda S: S.call('V', 1), 'R': lambda S: S.call('R', 'x'), 'select': lambda S: sub(S),
    'union': lambda S: S.op('BitOr', sub(S), sub(S)), 'count': lambda S: S.call('count', 'x'), 'concat': lambda S: S.call('concat', 'x'),
    'Q': lambda S: S.call('Q', a=1), 'Q|Q': lambda S: S.op('BitOr', S.call('Q', a=1), S.call('Q', b=1)), 'Not': lambda S: S.call('Not', a=1),
    'exists': lambda S: S.call('exists', sub(S)), 'EQ': lambda S: S.rel('EQ', 1), 'IN': lambda S: S.rel('IN', S.list(1)),
}
ALLSQL = set(SQL)
TYPES = dict(PLAIN, **SQL)
SEQ12 = {'[1]', '[2]', '(1)', '(2)', '[n]'}
NUM = {'int', 'float', 'Decimal'}
DATES = {'date', 'datetime'}
COLL = {'[]', '[1]', '[2]', '[3]', '[n]', '()', '(1)', '(2)', '(3)', '(True,)', '[None]', 'gen', 'range'}
DICTS = {'{}', '{1}', '{2}', 'OrderedDict'}

T = lambda S: S.call('select_from', 't')
J = lambda S: S.m(T(S), 'join', 'u')
U = lambda S: S.m(S.call('update', 't'), 'where', i=1)
I = lambda S: S.call('insert_into', 't')
O = lambda S: S.m(T(S), 'into_outfile', 'f')
COND = {'str'} | NUM | {'True', 'False', 'None'} | DATES | COLL
ASSIGN = {'str', 'bytes'} | NUM | {'True', 'False', 'None'} | DATES
COL = {'str', 'int', '[1]', '[2]', '(1)', '(2)'}
TAB = {'str', 'None', '[1]', '[2]', '(1)', '(2)'} | DICTS
ORD = {'str', 'int', '[1]', '(1)'}
PAIRS = {'[]', '()'} | DICTS

# position -> (call, accepted types, undetermined types)
POS = {}


def pos(name, f, ok, free=(), sql=True, late=False):
    POS[name] = (f, set(ok) | (ALLSQL if sql else set()), set(free), late)


for n, f in {'select': lambda S, x: S.call('select', x), 'columns': lambda S, x: S.m(S.call('select'), 'columns', x)}.items():
    pos('column of ' + n, f, COL | DICTS, ['[n]'])
pos('second column', lambda S, x: S.call('select', 'c', x), COL, ['[n]'])
pos('first column', lambda S, x: S.call('select', x, 'c'), COL, ['[n]'])
pos('column alias', lambda S, x: S.call('select', S.tuple('c', x)), ['str', 'None'])
pos('column alias in list', lambda S, x: S.call('select', S.list('c', x)), ['str', 'None'])
pos('column alias in dict', lambda S, x: S.call('select', S.dict(('c', x))), ['str', 'None'])
pos('column alias by keyword', lambda S, x: S.call('select', c=x), ['str', 'None'])
pos('column with alias', lambda S, x: S.call('select', S.tuple(x, 'a')), ['str', 'int'])
for n, f in {'select_from': lambda S, x: S.call('select_from', x), 'from_': lambda S, x: S.m(S.call('select'), 'from_', x), 'from_tables': lambda S, x: S.m(S.call('select'), 'from_tables', x),
             'second': lambda S, x: S.m(S.call('select'), 'from_', 'k', x),
             'update': lambda S, x: S.chain(S.call('update', x), ('set', (), {'a': 1}), ('where', (), {'i': 1})), 'insert_into': lambda S, x: S.m(S.call('insert_into', x), 'values', a=1),
             'delete_from': lambda S, x: S.m(S.call('delete_from', x), 'where', a=1), 'into': lambda S, x: S.m(S.m(S.call('insert'), 'into', x), 'values', a=1)}.items():
    pos('table of ' + n, f, TAB - (DICTS if n == 'second' else set()), ['()', '[]'] if n == 'into' else [])
pos('table alias', lambda S, x: S.call('select_from', S.tuple('c', x)), ['str', 'None'])
pos('table alias in dict', lambda S, x: S.call('select_from', S.dict(('c', x))), ['str', 'None'])
pos('table alias by keyword', lambda S, x: S.call('select_from', c=x), ['str', 'None'])
pos('table with alias', lambda S, x: S.call('select_from', S.tuple(x, 'a')), ['str'])
pos('from_table', lambda S, x: S.m(S.call('select'), 'from_table', x), ['str'])
pos('from_table alias', lambda S, x: S.m(S.call('select'), 'from_table', 't', x), ['str', 'None'])
for n in ('order_by', 'group_by'):
    pos(n, lambda S, x, n=n: S.m(T(S), n, x), ORD, ['{}', '[2]', '(2)', '[n]', '{1}', '{2}', 'OrderedDict'])
    pos(n + ' second', lambda S, x, n=n: S.m(T(S), n, 'k', x), ORD, ['[2]', '(2)', '[n]'])
    pos(n + ' direction', lambda S, x, n=n: S.m(T(S), n, S.tuple('c', x)), ['None'], ['str'], sql=False)
    pos(n + ' direction in dict', lambda S, x, n=n: S.m(T(S), n, S.dict(('c', x))), ['None'], ['str'], sql=False)
    pos(n + ' direction by keyword', lambda S, x, n=n: S.m(T(S), n, c=x), ['None'], ['str'], sql=False)
    pos(n + ' in pair', lambda S, x, n=n: S.m(T(S), n, S.tuple(x, 'asc')), ['str', 'int'])
for n, q in {'where': T, 'having': T, 'on': J, 'where of update': lambda S: S.m(S.m(S.call('update', 't'), 'set', a=1), 'allow_update_all'), 'where of delete': lambda S: S.m(S.call('delete_from', 't'), 'allow_delete_all')}.items():
    m = n.split()[0]
    pos('sole argument of ' + n, lambda S, x, q=q, m=m: S.m(q(S), m, x), DICTS, PAIRS)
    pos('column of ' + n, lambda S, x, q=q, m=m: S.m(q(S), m, x, 1), ['str'])
    pos('column in list of ' + n, lambda S, x, q=q, m=m: S.m(q(S), m, S.list(S.tuple(x, 1))), ['str'])
    pos('value of ' + n, lambda S, x, q=q, m=m: S.m(q(S), m, 'c', x), COND - {'[]', '()'}, ['[]', '()'])
    pos('value by keyword of ' + n, lambda S, x, q=q, m=m: S.m(q(S), m, c=x), COND - {'[]', '()'}, ['[]', '()'])
    pos('value in dict of ' + n, lambda S, x, q=q, m=m: S.m(q(S), m, S.dict(('c', x))), COND - {'[]', '()'}, ['[]', '()'])
    pos('value in list of ' + n, lambda S, x, q=q, m=m: S.m(q(S), m, S.list(S.tuple('c', x))), COND - {'[]', '()'}, ['[]', '()'])
    pos('empty collection as value of ' + n, lambda S, x, q=q, m=m: S.text(S.m(q(S), m, 'c', x)), COND - {'[]', '()'})
for n in ('Q', 'Not'):
    pos('sole argument of ' + n, lambda S, x, n=n: S.call(n, x), DICTS - {'{}'}, PAIRS)
    pos('column of ' + n, lambda S, x, n=n: S.call(n, x, 1), ['str'])
    pos('value of ' + n, lambda S, x, n=n: S.call(n, c=x), COND - {'[]', '()'}, ['[]', '()'])
for n in ('join', 'inner_join', 'left_join', 'right_join'):
    pos(n, lambda S, x, n=n: S.m(T(S), n, x), ['str', '[2]', '(2)', '{1}', 'OrderedDict'], ['[1]', '(1)', '[n]'] + list(SQL), sql=False)
    pos(n + ' table', lambda S, x, n=n: S.m(T(S), n, S.tuple(x, 'u')), ['str'])
    pos(n + ' alias', lambda S, x, n=n: S.m(T(S), n, S.tuple('u', x)), ['str', 'None'])
    pos(n + ' alias in dict', lambda S, x, n=n: S.m(T(S), n, S.dict(('u', x))), ['str', 'None'])
pos('limit', lambda S, x: S.m(T(S), 'limit', x), ['int', 'None'], sql=False)
pos('offset', lambda S, x: S.m(T(S), 'offset', x), ['int', 'None'], sql=False)
pos('offset of limit', lambda S, x: S.m(T(S), 'limit', 1, x), ['int', 'None'], sql=False)
pos('limit with offset', lambda S, x: S.m(T(S), 'limit', x, 1), ['int'], ['None'], sql=False)
pos('into_outfile', lambda S, x: S.m(T(S), 'into_outfile', x), ['str'])
for n in ('fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by'):
    pos(n, lambda S, x, n=n: S.m(O(S), n, x), ['str'])
for n, m, q in (('set', 'set', U), ('values', 'values', I)):
    pos('sole argument of ' + n, lambda S, x, m=m, q=q: S.m(q(S), m, x), DICTS - {'{}'}, PAIRS | (ALLSQL if m == 'set' else set()), sql=False)
    pos('column of ' + n, lambda S, x, m=m, q=q: S.m(q(S), m, x, 1), ['str'])
    pos('column in list of ' + n, lambda S, x, m=m, q=q: S.m(q(S), m, S.list(S.tuple(x, 1))), ['str'])
    pos('value of ' + n, lambda S, x, m=m, q=q: S.m(q(S), m, 'c', x), ASSIGN)
    pos('value by keyword of ' + n, lambda S, x, m=m, q=q: S.m(q(S), m, c=x), ASSIGN)
    pos('value in dict of ' + n, lambda S, x, m=m, q=q: S.m(q(S), m, S.dict(('c', x))), ASSIGN)
    pos('value in list of ' + n, lambda S, x, m=m, q=q: S.m(q(S), m, S.list(S.tuple('c', x))), ASSIGN)
for n in ('BitOr', 'BitAnd'):
    pos('operand of %s' % n, lambda S, x, n=n: S.op(n, sub(S), x), ['select', 'union'], SQL, sql=False)
    pos('operand of %s with union' % n, lambda S, x, n=n: S.op(n, S.op('BitOr', sub(S), sub(S)), x), ['select', 'union'], SQL, sql=False)
REL = {'EQ': {'str', 'True', 'False'} | NUM | DATES, 'NE': {'str', 'True', 'False'} | NUM | DATES, 'LIKE': {'str'}, 'NOT_LIKE': {'str'}, 'REGEXP': {'str'}, 'IS': {'True', 'False', 'None'}, 'IS_NOT': {'True', 'False', 'None'}}
for n in ('GT', 'GE', 'LT', 'LE'):
    REL[n] = {'str'} | NUM | DATES
for n, ok in REL.items():
    pos('relation ' + n, lambda S, x, n=n: S.rel(n, x), ok)
for n in ('IN', 'NOT_IN'):
    pos('relation ' + n, lambda S, x, n=n: S.rel(n, x), {'set', 'frozenset'} | COLL - {'[]', '()'}, ['[]', '()', 'set()', 'str', 'bytes', 'bytearray'] + list(DICTS))
    pos('rendered relation ' + n, lambda S, x, n=n: S.m(T(S), 'where', c=S.rel(n, x)), {'set', 'frozenset'} | COLL - {'[]', '()'}, ['str', 'bytes', 'bytearray'] + list(DICTS), late=True)
pos('backend name', lambda S, x: S.call('configure', x), [], ['str'], sql=False)
VAL = {'str', 'bytes'} | NUM | {'True', 'False', 'None'} | DATES | COLL - {'[]', '()'} | {'set', 'frozenset'}
pos('V', lambda S, x: S.call('V', x), VAL, ['set()'], late=True)
pos('item of V', lambda S, x: S.call('V', S.list(1, x)), VAL, ['set()'], late=True)
pos('item of nested V', lambda S, x: S.call('V', S.tuple(S.list(x), 2)), VAL, ['set()'], late=True)
pos('item of a condition value', lambda S, x: S.m(T(S), 'where', c=S.list(1, x)), VAL, ['set()'], late=True)
pos('item of IN', lambda S, x: S.m(T(S), 'where', c=S.rel('IN', S.tuple(x, 2))), VAL, ['set()'], late=True)
pos('item of NOT_IN generator', lambda S, x: S.m(T(S), 'where', c=S.rel('NOT_IN', S.gen(x, 2))), VAL, ['set()'], late=True)
pos('R', lambda S, x: S.call('R', x), ['str', 'int'], late=True)
for n in ('avg', 'max', 'min', 'sum', 'avg_distinct', 'count_distinct'):
    pos('argument of ' + n, lambda S, x, n=n: S.call(n, x), ['str'], ['int', 'False', 'None'] + list(COLL) + ['{}', 'set()'] + (['float', 'Decimal', 'bytes'] if n.startswith('count') else []), late=True)
pos('argument of count', lambda S, x: S.call('count', x), ['str', 'None'], ['int', 'False', 'None'] + list(COLL) + ['{}', 'set()', 'float', 'Decimal', 'bytes'], late=True)
pos('first argument of convert', lambda S, x: S.call('convert', x, 'int'), ['str'], ['int', 'False', 'None'] + list(COLL) + ['{}', 'set()'], late=True)
for n in ('concat', 'group_concat'):
    pos('argument of ' + n, lambda S, x, n=n: S.call(n, x), ['str', 'int'], ['[1]', '[2]', '(1)', '(2)', '[n]', '{1}', '{2}', 'OrderedDict'])
    pos('second argument of ' + n, lambda S, x, n=n: S.call(n, 'k', x), ['str', 'int'], ['[1]', '[2]', '(1)', '(2)', '[n]'])
pos('order of group_concat', lambda S, x: S.m(S.call('group_concat', 'k'), 'order_by', x), ORD, ['{}', '[2]', '(2)', '[n]', '{1}', '{2}', 'OrderedDict'])
pos('separator of group_concat', lambda S, x: S.m(S.call('group_concat', 'k'), 'separator', x), ['str'], ['bytes', 'int', 'float', 'True', 'False', 'None', 'Decimal', 'date', 'datetime'] + list(COLL) + ['set', 'frozenset', 'set()'], late=True)
POS_BACKEND = {
    'mysql': {
        'value of on_duplicate_key_update': (lambda S, x: S.m(S.m(I(S), 'values', a=1), 'on_duplicate_key_update', b=x), ASSIGN | ALLSQL, set(), False),
        'column of on_duplicate_key_update': (lambda S, x: S.m(S.m(I(S), 'values', a=1), 'on_duplicate_key_update', x, 1), {'str'} | ALLSQL, set(), False),
    },
    'postgresql': {
        'value of on_conflict_do_update': (lambda S, x: S.m(S.m(I(S), 'values', a=1), 'on_duplicate_key_update', 'k', b=x), ASSIGN | ALLSQL, set(), False),
        'column of on_conflict_do_update': (lambda S, x: S.m(S.m(I(S), 'values', a=1), 'on_duplicate_key_update', 'k', S.dict((x, 1)) if not isinstance(x, (Seq, PyDict, PySet, bytearray)) else S.list(S.tuple(x, 1))), {'str'} | ALLSQL, {'str'}, False),
    },
}
BADNAMES = ['', 'mysql ', 'oracle', 'postgres', 'sqlite3', 'sql\n', 'None', 'mysqlpostgresql', 'sq']


def judge(S, name, f, ok, free, late, t, mk_):
    if t in ('str', 'bytes') and name.endswith('IN'):
        x = 'ab' if t == 'str' else b'ab'       # characters of an arbitrary string cannot be enumerated
    elif name == 'backend name' and t in ('bytes', 'date', 'datetime', 'float', 'Decimal'):
        x = {'bytes': b'sql', 'date': datetime.date(2020, 1, 1), 'datetime': datetime.datetime(2020, 1, 1), 'float': 1.5, 'Decimal': decimal.Decimal(1)}[t]     # their text is no name
    else:
        x = mk_(S)
    r = S.outcome(lambda: f(S, x))
    what = '%s given %s' % (name, t)
    if r[0] == 'exc':
        S.check(S.is_exc(r[1], INVALID), '%s: raises %s at %s, not InvalidArgumentException' % (what, r[1].obj.cls.name, r[1].site))
        S.check(t not in ok, '%s: refused at %s' % (what, r[1].site))
        return
    rr = S.outcome(lambda: S.text(r[1]))
    if rr[0] == 'exc':
        S.check(S.is_exc(rr[1], INVALID), '%s: rendering raises %s at %s, not InvalidArgumentException' % (what, rr[1].obj.cls.name, rr[1].site))
        S.check(t not in ok, '%s: accepted, refused at rendering (%s)' % (what, rr[1].site))
        S.check(late or t in free, '%s: not refused at the call, only at rendering' % what)
        return
    S.check(t in ok or t in free, '%s: not refused, renders %s' % (what, show(S.norm(rr[1]))))


def obligations(tier):
    for name, (f, ok, free, late) in POS.items():
        bes = BACKENDS if tier == 'thorough' else ['sql']
        for be in bes:
            for grp, ts in (('plain', PLAIN), ('sql objects', SQL)):
                def types(S, be=be, name=name, f=f, ok=ok, free=free, late=late, ts=ts):
                    S.configure(be)
                    for t, mk_ in ts.items():
                        judge(S, name, f, ok, free, late, t, mk_)
                yield 'type/%s/%s/%s' % (be, name, grp), types

    for be, ps in POS_BACKEND.items():
        for name, (f, ok, free, late) in ps.items():
            def types(S, be=be, name=name, f=f, ok=ok, free=free, late=late):
                S.configure(be)
                for t, mk_ in TYPES.items():
                    judge(S, name, f, ok, free, late, t, mk_)
            yield 'type/%s/%s' % (be, name), types

    def alias_empty(S):
        # the empty string is a str: accepted or refused as such, never another error
        for name, (f, ok, free, late) in POS.items():
            if 'str' not in ok and 'str' not in free:
                continue
            r = S.outcome(lambda: S.text(f(S, '')))
            if r[0] == 'exc':
                S.check(S.is_exc(r[1], INVALID), '%s given an empty string: raises %s at %s' % (name, r[1].obj.cls.name, r[1].site))
    yield 'type/empty string', alias_empty

    def numbers(S):
        for name, (f, ok, free, late) in POS.items():
            for t, x in (('int', 0), ('int', -1), ('float', 0.0), ('float', float('nan')), ('bytes', b''), ('bytearray', bytearray()), ('complex', 0j)):
                if t in free or 'count' in name:
                    continue
                r = S.outcome(lambda: f(S, x))
                if r[0] == 'exc':
                    S.check(S.is_exc(r[1], INVALID) and t not in ok, '%s given %r: raises %s at %s' % (name, x, r[1].obj.cls.name, r[1].site))
                    continue
                rr = S.outcome(lambda: S.text(r[1]))
                if rr[0] == 'exc':
                    S.check(S.is_exc(rr[1], INVALID) and late and t not in ok, '%s given %r: rendering raises %s at %s' % (name, x, rr[1].obj.cls.name, rr[1].site))
                else:
                    S.check(t in ok, '%s given %r: not refused, renders %s' % (name, x, show(S.norm(rr[1]))))
    yield 'type/zero values', numbers

    def direction(S):
        s = S.str('dir')
        for n in ('order_by', 'group_by'):
            q = T(S)
            S.hint('dir', 'asc'), S.hint('dir', 'DESC'), S.hint('dir', 'descending'), S.hint('dir', '')
            r = S.outcome(lambda: S.text(S.m(q, n, S.tuple('c', s))))
            if r[0] == 'exc':
                S.check(S.is_exc(r[1], INVALID), 'direction of %s: raises %s at %s' % (n, r[1].obj.cls.name, r[1].site))
    yield 'type/any direction', direction

    def directions(S):
        for n in ('order_by', 'group_by'):
            for d in ('', 'up', 'ascending', 'ASC ', ' desc', 'descc', 'de', 'asc;', 'rand()', '1', 'asc, x', 'none', 'true'):
                S.expect_raise(lambda: S.text(S.m(T(S), n, S.tuple('c', d))), INVALID, what='%s direction %r' % (n, d))
            for d in ('asc', 'ASC', 'desc', 'Desc'):
                S.text(S.m(T(S), n, S.tuple('c', d)))
    yield 'type/wrong directions', directions

    def backend(S):
        s = S.str('name')
        for n in BADNAMES + BACKENDS:
            S.hint('name', n)
        r = S.outcome(lambda: S.call('configure', s))
        if r[0] == 'exc':
            S.check(S.is_exc(r[1], INVALID), 'configure raises %s at %s' % (r[1].obj.cls.name, r[1].site))
            for n in BACKENDS:
                S.check(not S.ip.truth(S.ip.compare('Eq', S.m(s, 'lower'), n)), 'configure refuses %r' % n)
        else:
            low = S.m(s, 'lower')       # names are case-insensitive
            S.check(any(S.ip.truth(S.ip.compare('Eq', low, n)) for n in BACKENDS), 'configure accepts a name that is no backend')
    yield 'type/any backend name', backend

    def backends(S):
        for n in BADNAMES:
            S.expect_raise(lambda: S.call('configure', n), INVALID, what='configure(%r)' % n)
            S.expect(S.call('select', 'a'), 'SELECT "a"', 'backend after a refused configure(%r)' % n)
        S.call('configure', 'mysql')
        for n in BADNAMES:
            S.expect_raise(lambda: S.call('configure', n), INVALID, what='configure(%r)' % n)
            S.expect(S.call('select', 'a'), 'SELECT `a`', 'backend after a refused configure(%r)' % n)
    yield 'type/wrong backend names', backends

    def conditions(S):
        # combining conditions with something else: library exception or TypeError
        for l in ('Q', 'Not', 'Q|Q', 'exists'):
            for n in ('BitOr', 'BitAnd'):
                for t, mk_ in TYPES.items():
                    if t in SQL:
                        continue
                    for swap in (False, True):
                        a, b = SQL[l](S), mk_(S)
                        if t in ('set', 'frozenset', 'set()') and swap:
                            continue
                        r = S.outcome(lambda: S.op(n, b, a) if swap else S.op(n, a, b))
                        S.check(r[0] == 'exc', '%s %s %s: not refused' % (l, n, t))
                        S.check(S.is_exc(r[1], INVALID, 'TypeError'), '%s %s %s: raises %s' % (l, n, t, r[1].obj.cls.name))
    yield 'type/combining conditions', conditions

    def misuse(S):
        for thunk, what in (
            (lambda: S.m(T(S), 'on', 'a', 'b'), 'on without join'),
            (lambda: S.m(S.call('select'), 'join', 'a'), 'join without table'),
            (lambda: S.m(S.call('select'), 'on', 'a', 'b'), 'on without table'),
            (lambda: S.m(S.call('select'), 'left_join', 'a'), 'left join without table'),
            (lambda: S.m(S.call('select'), 'right_join', 'a'), 'right join without table'),
        ):
            S.expect_raise(thunk, 'InvalidQueryException', what=what)
        for be in ('sql', 'mysql', 'sqlite'):
            S.call('configure', be)
            r = S.outcome(lambda: S.m(T(S), 'full_join', 'u'))
            if r[0] == 'exc':
                S.check(S.is_exc(r[1], INVALID), 'full join on %s raises %s' % (be, r[1].obj.cls.name))
        S.call('configure', 'sql')
        for thunk, what in (
            (lambda: S.m(T(S), 'where', 'a'), 'where with one string'), (lambda: S.m(T(S), 'where', 'a', 1, 2), 'where with three arguments'),
            (lambda: S.m(T(S), 'having', 'a', 1, 2), 'having with three arguments'), (lambda: S.m(J(S), 'on', 'a', 1, 2), 'on with three arguments'),
            (lambda: S.m(U(S), 'set', 'a'), 'set with one string'), (lambda: S.m(U(S), 'set', 'a', 1, 2), 'set with three arguments'),
            (lambda: S.m(I(S), 'values', 'a'), 'values with one string'), (lambda: S.m(I(S), 'values', 'a', 1, 2), 'values with three arguments'),
            (lambda: S.call('select', S.tuple('a', 'b', 'c')), 'column of three items'), (lambda: S.call('select_from', S.tuple('a', 'b', 'c')), 'table of three items'),
            (lambda: S.m(T(S), 'order_by', S.tuple('a', 'asc', 'c')), 'order of three items'), (lambda: S.m(T(S), 'join', S.tuple('a', 'b', 'c')), 'join of three items'),
            (lambda: S.m(T(S), 'where', S.list(S.tuple('a', 1, 2))), 'triple in where'), (lambda: S.m(T(S), 'where', S.list(S.tuple('a'))), 'single in where'),
            (lambda: S.m(T(S), 'where', S.list('ab')), 'string in the list of where'), (lambda: S.m(U(S), 'set', S.list(S.tuple('a', 1, 2))), 'triple in set'),
            (lambda: S.m(T(S), 'where', S.dict(('a', 1)), S.dict(('b', 1))), 'two dicts in where'),
            (lambda: S.call('select', S.dict(('a', 'x')), S.dict(('b', 'y'))), 'two dicts in select'),
            (lambda: S.call('concat'), 'concat of nothing'), (lambda: S.call('group_concat'), 'group_concat of nothing'),
        ):
            S.expect_raise(lambda: S.text(thunk()), INVALID, what=what)
        for q, n in ((S.m(S.call('update', 't'), 'set', a=1), 'ConfirmUpdateAllException'), (S.call('delete_from', 't'), 'ConfirmDeleteAllException')):
            e = S.expect_raise(lambda: S.text(q), n, what='unconditional')
            S.check(S.is_exc(e, 'ConfirmException') and S.is_exc(e, LIBEXC), '%s is no ConfirmException' % n)
    yield 'misuse', misuse

    def hierarchy(S):
        tree = {'SqlPuzzleException': ('Exception',), 'ConfirmException': (LIBEXC,), 'ConfirmUpdateAllException': ('ConfirmException', LIBEXC), 'ConfirmDeleteAllException': ('ConfirmException', LIBEXC),
                INVALID: (LIBEXC,), 'InvalidQueryException': (INVALID, LIBEXC)}
        for n, sup in tree.items():
            c = S.fn('exceptions.' + n)
            for s in sup:
                p = S.ip.builtins[s] if s in S.ip.builtins else S.fn('exceptions.' + s)
                S.check(S.ip.issub(c, p), '%s is no subclass of %s' % (n, s))
            if n != 'ConfirmException':
                o = S.call(c) if n != LIBEXC else S.call(c, 'm')
                S.text(o), S.repr(o)
    yield 'exceptions/hierarchy', hierarchy
