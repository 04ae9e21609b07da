"""Clauses that take pairs, the ways of passing pairs, and the text they give."""
import itertools
from .common import *


class Clause:
    """head + join(sep, parts) + tail; `start` makes the query, `m` adds parts."""
    def __init__(self, name, start, method, head, sep, part, tail='', backend='sql', prefix=(), single=True, lists=True, fresh=False):
        self.name, self.start, self.method, self.head, self.sep, self.part = name, start, method, head, sep, part
        self.tail, self.backend, self.prefix, self.single, self.lists, self.fresh = tail, backend, prefix, single, lists, fresh

    def begin(self, S):
        return None if self.fresh else self.start(S)

    def add(self, S, q, /, *a, **k):
        if self.fresh:
            return S.call(self.method, *a, **k)
        return S.m(q, self.method, *(tuple(self.prefix) + a), **k)

    def text(self, S, pairs):
        return cat(self.head, join(self.sep, [self.part(S, k, v) for k, v in pairs]), self.tail)

    def q(self, S, /, *a, **k):
        return self.add(S, self.begin(S), *a, **k)


def flat(S):
    return S.call('select_from', 't')


def _assign(S, k, v):
    return cat(S.R(k), ' = ', S.V(v))


def _cond(S, k, v):
    if v is None:
        return cat(S.R(k), ' IS NULL')
    return cat(S.R(k), ' = ', S.V(v))


PAIRS = [
    Clause('where', flat, 'where', 'SELECT * FROM "t" WHERE ', ' AND ', _cond),
    Clause('having', flat, 'having', 'SELECT * FROM "t" HAVING ', ' AND ', _cond),
    Clause('on', lambda S: S.m(flat(S), 'join', 'u'), 'on', 'SELECT * FROM "t" JOIN "u" ON ', ' AND ', _cond),
    Clause('where of delete', lambda S: S.call('delete_from', 't'), 'where', 'DELETE FROM "t" WHERE ', ' AND ', _cond),
    Clause('where of update', lambda S: S.m(S.call('update', 't'), 'set', zz=1), 'where', 'UPDATE "t" SET "zz" = 1 WHERE ', ' AND ', _cond),
    Clause('on of update', lambda S: S.chain(S.call('update', 't'), ('set', (), {'zz': 1}), 'allow_update_all', ('left_join', 'u')), 'on',
           'UPDATE "t" LEFT JOIN "u" ON ', ' AND ', _cond, tail=' SET "zz" = 1'),
    Clause('on of delete', lambda S: S.chain(S.call('delete_from', 't'), 'allow_delete_all', ('right_join', 'u')), 'on', 'DELETE FROM "t" RIGHT JOIN "u" ON ', ' AND ', _cond),
    Clause('Q', None, 'Q', '', ' AND ', _cond, fresh=True),
    Clause('Not', None, 'Not', 'NOT(', ' AND ', _cond, tail=')', fresh=True),
    Clause('set', lambda S: S.m(S.call('update', 't'), 'where', zz=1), 'set', 'UPDATE "t" SET ', ', ', _assign, tail=' WHERE "zz" = 1'),
    Clause('on duplicate key', lambda S: S.m(S.call('insert_into', 't'), 'values', zz=1), 'on_duplicate_key_update',
           'INSERT INTO `t` (`zz`) VALUES (1) ON DUPLICATE KEY UPDATE ', ', ', _assign, backend='mysql'),
    Clause('on conflict', lambda S: S.m(S.call('insert_into', 't'), 'values', zz=1), 'on_duplicate_key_update',
           'INSERT INTO "t" ("zz") VALUES (1) ON CONFLICT ("idx") DO UPDATE ', ', ', _assign, backend='postgresql', prefix=('idx',)),
]


def _alias(S, k, v):
    return S.R(k) if v is None else cat(S.R(k), ' AS ', S.R(v))


def _order(S, k, v):
    return S.R(k) if v is None or v.upper() == 'ASC' else cat(S.R(k), ' ', v.upper())


ALIASES = [
    Clause('columns', lambda S: S.call('select'), 'columns', 'SELECT ', ', ', _alias),
    Clause('select', None, 'select', 'SELECT ', ', ', _alias, fresh=True),
    Clause('from_', lambda S: S.call('select'), 'from_', 'SELECT * FROM ', ', ', _alias),
    Clause('from_tables', lambda S: S.call('select'), 'from_tables', 'SELECT * FROM ', ', ', _alias),
    Clause('select_from', None, 'select_from', 'SELECT * FROM ', ', ', _alias, fresh=True),
    Clause('delete from_', lambda S: S.m(S.call('delete'), 'where', zz=1), 'from_', 'DELETE FROM ', ', ', _alias, tail=' WHERE "zz" = 1'),
    Clause('delete from_tables', lambda S: S.m(S.call('delete'), 'where', zz=1), 'from_tables', 'DELETE FROM ', ', ', _alias, tail=' WHERE "zz" = 1'),
]
ORDERS = [
    Clause('order_by', flat, 'order_by', 'SELECT * FROM "t" ORDER BY ', ', ', _order),
    Clause('group_by', flat, 'group_by', 'SELECT * FROM "t" GROUP BY ', ', ', _order),
]
POSITIONAL = [
    Clause('concat', None, 'concat', 'CONCAT(', ', ', _alias, tail=')', fresh=True),
    Clause('group_concat', None, 'group_concat', 'GROUP_CONCAT(', ', ', _alias, tail=')', fresh=True),
    Clause('delete', None, 'delete', 'DELETE ', ', ', _alias, fresh=True),
    Clause('group_concat order_by', lambda S: S.call('group_concat', 'x'), 'order_by', 'GROUP_CONCAT("x" ORDER BY ', ', ', _order, tail=')'),
]


def sortpairs(ps):
    return sorted(ps, key=lambda p: p[0])


def forms(pairs, kind):
    """(label, S -> list of (args, kwargs) calls, expected pairs in order).
    kind: 'pair' (two items required, list allowed) or 'alias' (second optional)."""
    T = lambda S, p: S.tuple(*p)
    L = lambda S, p: S.list(*p)
    kw = lambda ps: {k: v for k, v in ps}
    n = len(pairs)
    out = []
    out.append(('keywords', lambda S: [((), kw(pairs))], sortpairs(pairs)))
    out.append(('dict', lambda S: [((S.dict(*pairs),), {})], sortpairs(pairs)))
    out.append(('OrderedDict', lambda S: [((S.dict(*pairs, kind='OrderedDict'),), {})], list(pairs)))
    out.append(('repeated calls', lambda S: [((), {k: v}) for k, v in pairs], list(pairs)))
    out.append(('repeated dicts', lambda S: [((S.dict((k, v)),), {}) for k, v in pairs], list(pairs)))
    if kind == 'pair':
        out.append(('list of tuples', lambda S: [((S.list(*[T(S, p) for p in pairs]),), {})], list(pairs)))
        out.append(('list of lists', lambda S: [((S.list(*[L(S, p) for p in pairs]),), {})], list(pairs)))
        out.append(('tuple of tuples', lambda S: [((S.tuple(*[T(S, p) for p in pairs]),), {})], list(pairs)))
        out.append(('repeated positional', lambda S: [((k, v), {}) for k, v in pairs], list(pairs)))
        if n > 1:
            out.append(('several tuples', lambda S: [(tuple(T(S, p) for p in pairs), {})], list(pairs)))
            out.append(('several lists', lambda S: [(tuple(L(S, p) for p in pairs), {})], list(pairs)))
            out.append(('list and keywords', lambda S: [((S.list(*[T(S, p) for p in pairs[:1]]),), kw(pairs[1:]))], pairs[:1] + sortpairs(pairs[1:])))
            out.append(('positional and keywords', lambda S: [(tuple(pairs[0]), kw(pairs[1:]))], pairs[:1] + sortpairs(pairs[1:])))
    else:
        out.append(('tuples', lambda S: [(tuple(T(S, p) for p in pairs), {})], list(pairs)))
        out.append(('lists', lambda S: [(tuple(L(S, p) for p in pairs), {})], list(pairs)))
        out.append(('repeated tuples', lambda S: [((T(S, p),), {}) for p in pairs], list(pairs)))
        if n > 1:
            out.append(('tuple and keywords', lambda S: [((T(S, pairs[0]),), kw(pairs[1:]))], pairs[:1] + sortpairs(pairs[1:])))
    if n > 1:
        out.append(('dict and keywords', lambda S: [((S.dict(*pairs[:1]),), kw(pairs[1:]))], pairs[:1] + sortpairs(pairs[1:])))
        out.append(('OrderedDict and keywords', lambda S: [((S.dict(*pairs[:-1], kind='OrderedDict'),), kw(pairs[-1:]))], list(pairs)))
        out.append(('keywords then dict', lambda S: [((), kw(pairs[:1])), ((S.dict(*pairs[1:]),), {})], pairs[:1] + sortpairs(pairs[1:])))
    if n > 2:
        if kind == 'pair':
            out.append(('tuples and keywords', lambda S: [(tuple(T(S, p) for p in pairs[:2]), kw(pairs[2:]))], pairs[:2] + sortpairs(pairs[2:])))
        else:
            out.append(('tuple, list and keywords', lambda S: [((T(S, pairs[0]), L(S, pairs[1])), kw(pairs[2:]))], pairs[:2] + sortpairs(pairs[2:])))
    return out


def run_form(S, c, calls):
    q = c.begin(S)
    for a, k in calls:
        q = c.add(S, q, *a, **k)
    return q
