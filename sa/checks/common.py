"""Vocabulary shared by the obligations: query kinds, builder calls, spec text."""
from ..scenario import Violation, NotDecided, show, mk, source_ints          # noqa: F401
from ..values import *                                           # noqa: F401,F403
from ..values import Seq, PyDict, PySet, PyObj, Sym, SStr, Atom, Raise, Unsupported, is_strlike  # noqa: F401

BACKENDS = ['sql', 'mysql', 'postgresql', 'sqlite']
QUOTE = {'sql': '"', 'mysql': '`', 'postgresql': '"', 'sqlite': '"'}
LIBEXC = 'SqlPuzzleException'
INVALID = 'InvalidArgumentException'


def join(sep, parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append(sep)
        out.append(p)
    return mk(out)


def cat(*parts):
    return mk([p for p in parts])


def start(S, kind):
    """Smallest useful query of each kind (renders once it has a condition)."""
    if kind == 'select':
        return S.call('select_from', 't')
    if kind == 'insert':
        return S.m(S.call('insert_into', 't'), 'values', a=S.int('i0'))
    if kind == 'update':
        return S.m(S.m(S.call('update', 't'), 'set', a=S.int('i0')), 'where', id=S.int('id0'))
    if kind == 'delete':
        return S.m(S.call('delete_from', 't'), 'where', id=S.int('id0'))
    if kind == 'union':
        return S.op('BitOr', S.call('select_from', 't'), S.m(S.call('select_from', 'u'), 'where', a=S.int('i0')))
    raise KeyError(kind)


def rich(S, kind):
    """A query with (nearly) every clause set."""
    if kind == 'select':
        q = S.call('select', 'a', ('x', 'y') and S.tuple('x', 'y'))
        return S.chain(q, ('from_', 't'), ('left_join', 'u'), ('on', ('t.id', 'u.id')),
                       ('where', (), {'w': S.int('i1')}), ('group_by', 'g'), ('having', (), {'h': S.int('i2')}),
                       ('order_by', (S.tuple('o', 'desc'),)), ('limit', (5, 6)), ('into_outfile', 'f.csv'), ('distinct',), ('for_update',))
    if kind == 'insert':
        return S.chain(S.call('insert_into', 't'), ('values', (), {'a': S.int('i1'), 'b': S.int('i2')}), ('values', (), {'a': S.int('i3')}), 'ignore')
    if kind == 'update':
        return S.chain(S.call('update', 't'), ('join', 'u'), ('on', ('t.id', 'u.id')), ('set', (), {'a': S.int('i1')}),
                       ('where', (), {'w': S.int('i2')}), 'ignore')
    if kind == 'delete':
        return S.chain(S.call('delete', 't'), ('from_', 't'), ('join', 'u'), ('on', ('t.id', 'u.id')),
                       ('where', (), {'w': S.int('i2')}), 'ignore')
    if kind == 'union':
        return S.op('BitAnd', rich(S, 'select'), S.m(S.call('select_from', 'u'), 'where', a=S.int('i0')))
    raise KeyError(kind)


def sub(S):
    return S.m(S.call('select', 's'), 'from_', 'sub')


# builder calls per kind: label -> S -> (method, args, kwargs); arguments are
# made afresh on every use
SELECT = {
    'columns(str)': lambda S: ('columns', ('k1',), {}),
    'columns(pair)': lambda S: ('columns', (S.tuple('k2', 'al'),), {}),
    'columns(kw)': lambda S: ('columns', (), {'k3': 'al3'}),
    'columns(func)': lambda S: ('columns', (S.call('count', 'k4'),), {}),
    'from_(str)': lambda S: ('from_', ('t2',), {}),
    'from_(pair)': lambda S: ('from_', (S.tuple('t3', 'x3'),), {}),
    'from_(sub)': lambda S: ('from_', (S.tuple(sub(S), 'x4'),), {}),
    'from_table': lambda S: ('from_table', ('t5', 'x5'), {}),
    'from_tables': lambda S: ('from_tables', ('t6', 't7'), {}),
    'join': lambda S: ('join', ('j1',), {}),
    'inner_join': lambda S: ('inner_join', (S.tuple('j2', 'x'),), {}),
    'left_join': lambda S: ('left_join', (S.dict(('j3', 'y')),), {}),
    'right_join': lambda S: ('right_join', ('j4',), {}),
    'where(kw)': lambda S: ('where', (), {'n1': S.int('n1')}),
    'where(str)': lambda S: ('where', (), {'n2': S.str('s2')}),
    'where(dict)': lambda S: ('where', (S.dict(('n3', S.int('n3'))),), {}),
    'where(pair)': lambda S: ('where', ('n4', S.int('n4')), {}),
    'where(list)': lambda S: ('where', (S.list(S.tuple('n5', S.list(1, 2))),), {}),
    'where(Q)': lambda S: ('where', (S.op('BitOr', S.call('Q', p=1), S.call('Q', q=S.int('n6'))),), {}),
    'where(C)': lambda S: ('where', (S.call('C', 'cust'),), {}),
    'where(sub)': lambda S: ('where', (), {'n7': sub(S)}),
    'where(IN)': lambda S: ('where', (), {'n8': S.rel('IN', S.list(None, 1, 2))}),
    'having(kw)': lambda S: ('having', (), {'hh': S.int('hh')}),
    'having(GT)': lambda S: ('having', (), {'hg': S.rel('GT', S.int('hg'))}),
    'group_by': lambda S: ('group_by', ('gg',), {}),
    'group_by(desc)': lambda S: ('group_by', (S.tuple('gd', 'desc'),), {}),
    'order_by': lambda S: ('order_by', ('oo',), {}),
    'order_by(desc)': lambda S: ('order_by', (S.tuple('od', 'DESC'),), {}),
    'order_by(flip)': lambda S: ('order_by', (S.tuple('o', 'asc'),), {}),
    'limit': lambda S: ('limit', (S.int('lim'),), {}),
    'limit(None)': lambda S: ('limit', (None,), {}),
    'limit2': lambda S: ('limit', (3, 4), {}),
    'offset': lambda S: ('offset', (9,), {}),
    'into_outfile': lambda S: ('into_outfile', ('out',), {}),
    'fields_terminated_by': lambda S: ('fields_terminated_by', (';',), {}),
    'lines_terminated_by': lambda S: ('lines_terminated_by', ('|',), {}),
    'optionally_enclosed_by': lambda S: ('optionally_enclosed_by', ('#',), {}),
    'sql_cache': lambda S: ('sql_cache', (), {}),
    'sql_no_cache': lambda S: ('sql_no_cache', (), {}),
    'all': lambda S: ('all', (), {}),
    'distinct': lambda S: ('distinct', (), {}),
    'distinct(False)': lambda S: ('distinct', (False,), {}),
    'distinctrow': lambda S: ('distinctrow', (), {}),
    'sql_small_result': lambda S: ('sql_small_result', (), {}),
    'sql_big_result': lambda S: ('sql_big_result', (), {}),
    'sql_buffer_result': lambda S: ('sql_buffer_result', (), {}),
    'sql_calc_found_rows': lambda S: ('sql_calc_found_rows', (), {}),
    'straight_join': lambda S: ('straight_join', (), {}),
    'high_priority': lambda S: ('high_priority', (), {}),
    'for_update': lambda S: ('for_update', (), {}),
    'for_update(False)': lambda S: ('for_update', (False,), {}),
}
SELECT_RICH = {
    'on(pair)': lambda S: ('on', ('a.x', 'b.x'), {}),
    'on(value)': lambda S: ('on', (), {'c': S.int('onv')}),
}
INSERT = {
    'values(kw)': lambda S: ('values', (), {'b': S.int('n1')}),
    'values(dict)': lambda S: ('values', (S.dict(('a', S.str('s2')), ('c', None)),), {}),
    'values(list)': lambda S: ('values', (S.list(S.tuple('d', S.int('n3'))),), {}),
    'into': lambda S: ('into', ('t9',), {}),
    'ignore': lambda S: ('ignore', (), {}),
    'ignore(False)': lambda S: ('ignore', (False,), {}),
}
UPDATE = {
    'set(kw)': lambda S: ('set', (), {'n1': S.int('n1')}),
    'set(dict)': lambda S: ('set', (S.dict(('n2', S.str('s2'))),), {}),
    'set(C)': lambda S: ('set', (S.call('C', 'cust'),), {}),
    'set(None)': lambda S: ('set', (), {'n9': None}),
    'where(kw)': lambda S: ('where', (), {'n1': S.int('n1')}),
    'where(Q)': lambda S: ('where', (S.op('BitOr', S.call('Q', p=1), S.call('Q', q=S.int('n6'))),), {}),
    'where(pair)': lambda S: ('where', ('n4', S.int('n4')), {}),
    'table': lambda S: ('table', ('t2',), {}),
    'join': lambda S: ('join', ('j1',), {}),
    'inner_join': lambda S: ('inner_join', ('j5',), {}),
    'left_join': lambda S: ('left_join', (S.dict(('j3', 'y')),), {}),
    'right_join': lambda S: ('right_join', (S.tuple('j4', 'z'),), {}),
    'ignore': lambda S: ('ignore', (), {}),
    'ignore(False)': lambda S: ('ignore', (False,), {}),
}
DELETE = {
    'delete': lambda S: ('delete', ('d1',), {}),
    'from_': lambda S: ('from_', ('t2',), {}),
    'from_table': lambda S: ('from_table', ('t5', 'x5'), {}),
    'from_tables': lambda S: ('from_tables', ('t6', 't7'), {}),
    'where(kw)': lambda S: ('where', (), {'n1': S.int('n1')}),
    'where(Q)': lambda S: ('where', (S.op('BitOr', S.call('Q', p=1), S.call('Q', q=S.int('n6'))),), {}),
    'where(dict)': lambda S: ('where', (S.dict(('n3', S.str('s3'))),), {}),
    'join': lambda S: ('join', ('j1',), {}),
    'inner_join': lambda S: ('inner_join', ('j5',), {}),
    'left_join': lambda S: ('left_join', (S.dict(('j3', 'y')),), {}),
    'right_join': lambda S: ('right_join', (S.tuple('j4', 'z'),), {}),
    'ignore': lambda S: ('ignore', (), {}),
    'ignore(False)': lambda S: ('ignore', (False,), {}),
}
ALLOW = {
    'update': {'allow_update_all': lambda S: ('allow_update_all', (), {}), 'forbid_update_all': lambda S: ('forbid_update_all', (), {})},
    'delete': {'allow_delete_all': lambda S: ('allow_delete_all', (), {}), 'forbid_delete_all': lambda S: ('forbid_delete_all', (), {})},
}
UPSERT = {
    'mysql': lambda S: ('on_duplicate_key_update', (), {'u': S.int('up')}),
    'postgresql': lambda S: ('on_duplicate_key_update', ('id',), {'u': S.int('up')}),
    'sqlite': lambda S: ('on_duplicate_key_update', (), {}),
}


def builders(kind, is_rich=False, allow=True):
    d = dict({'select': SELECT, 'insert': INSERT, 'update': UPDATE, 'delete': DELETE, 'union': {}}[kind])
    if kind in ('select', 'update', 'delete') and is_rich:
        d.update(SELECT_RICH)
    if allow:
        d.update(ALLOW.get(kind, {}))
    return d


def apply(S, q, b):
    name, a, k = b(S)
    return S.m(q, name, *a, **k)


# spec of single conditions -----------------------------------------------

def cond(S, col, op, val):
    return cat(S.R(col), ' ', op, ' ', S.V(val))


def eqc(S, col, val):
    return cond(S, col, '=', val)


def sizes(S, *base, most=40):
    """Numbers of parts to try: the given ones and those just beyond every
    number the source itself mentions."""
    return sorted(set(base) | {n + 1 for n in source_ints(S.ip.root) if 3 < n <= most})
