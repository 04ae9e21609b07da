"""C13: every builder call on a query, for every kind and clause, leaves the
text of other queries, copies (both directions), queries made later and the
argument containers and objects as they were."""
import itertools
from .common import *

KINDS = ['select', 'insert', 'update', 'delete']


def texts(S, q):
    r = S.outcome(lambda: S.text(q))
    return r[1] if r[0] == 'ok' else '!' + r[1].obj.cls.name


def same(S, q, want, what):
    got = texts(S, q)
    if isinstance(got, str) and got.startswith('!') or isinstance(want, str) and want.startswith('!'):
        S.check(got == want, '%s: %s instead of %s' % (what, show(got), show(want)))
    else:
        S.expect(got, want, what)


def contents(S, x):
    """Structure of a caller's container, for comparison."""
    if isinstance(x, Seq):
        return (x.kind, tuple(contents(S, i) for i in x.items))
    if isinstance(x, PyDict):
        return (x.kind, tuple((contents(S, k), contents(S, v)) for k, v in S.ip.dict_items(x))) if hasattr(S.ip, 'dict_items') else \
            ('dict', contents(S, S.call(S.ip.builtins['list'], S.m(x, 'items'))))
    if isinstance(x, PySet):
        return ('set', tuple(contents(S, i) for i in x.items))
    if isinstance(x, PyObj):
        return ('object', id(x), S.norm(S.text(x)))
    return x


def obligations(tier):
    for kind in KINDS:
        for make in (start, rich):
            bs = builders(kind, make is rich)
            tag = '%s %s' % (make.__name__, kind)
            for name, b in bs.items():
                def others(S, kind=kind, make=make, b=b, name=name):
                    q, o = make(S, kind), make(S, kind)
                    t = texts(S, o)
                    base = {k: texts(S, start(S, k)) for k in KINDS}
                    r = rich(S, 'select')
                    tr = S.text(r)
                    for n in range(2):
                        S.outcome(lambda: apply(S, q, b))
                        texts(S, q)
                        same(S, o, t, 'another query after %s' % name)
                        same(S, r, tr, 'a select after %s' % name)
                    for k in KINDS:
                        same(S, start(S, k), base[k], 'a %s created after %s' % (k, name))
                    same(S, make(S, kind), t, 'a query created after %s' % name)
                yield 'isolate/%s/%s leaves other queries alone' % (tag, name), others

                def copies(S, kind=kind, make=make, b=b, name=name):
                    q = make(S, kind)
                    t = texts(S, q)
                    c = S.m(q, 'copy')
                    same(S, c, t, 'copy')
                    # reference: same call on a fresh twin
                    w = make(S, kind)
                    rw = S.outcome(lambda: apply(S, w, b))
                    tw = texts(S, w)
                    # change the copy
                    rc = S.outcome(lambda: apply(S, c, b))
                    S.check(rc[0] == rw[0], '%s behaves differently on a copy' % name)
                    same(S, c, tw, '%s on the copy' % name)
                    same(S, q, t, 'original after %s on the copy' % name)
                    # change the original, with a second copy
                    c2 = S.m(q, 'copy')
                    S.outcome(lambda: apply(S, q, b))
                    same(S, q, tw, '%s on the original' % name)
                    same(S, c2, t, 'copy after %s on the original' % name)
                    # a copy of a copy
                    c3 = S.m(S.m(c2, 'copy'), 'copy')
                    S.outcome(lambda: apply(S, c2, b))
                    same(S, c3, t, 'copy of the copy')
                    S.outcome(lambda: apply(S, c3, b))
                    same(S, c3, tw, '%s on the copy of the copy' % name)
                yield 'isolate/%s/%s and copies' % (tag, name), copies
            if tier != 'quick':
                pairs = list(itertools.product(bs, repeat=2))
                for i in range(0, len(pairs), 20):
                    def two(S, kind=kind, make=make, bs=bs, chunk=pairs[i:i + 20]):
                        for x, y in chunk:
                            q, w = make(S, kind), make(S, kind)
                            S.outcome(lambda: apply(S, q, bs[x]))
                            S.outcome(lambda: apply(S, w, bs[x]))
                            t = texts(S, w)
                            c = S.m(q, 'copy')
                            S.outcome(lambda: apply(S, q, bs[y]))
                            same(S, c, t, '%s, copy, %s on the original' % (x, y))
                            S.outcome(lambda: apply(S, w, bs[y]))
                            S.outcome(lambda: apply(S, c, bs[y]))
                            same(S, c, texts(S, w), '%s, copy, %s on the copy' % (x, y))
                    yield 'isolate/%s/pairs %d and copies' % (tag, i), two

    for be in ('mysql', 'postgresql', 'sqlite'):
        def upsert(S, be=be):
            S.call('configure', be)
            b = UPSERT[be]
            q, o = start(S, 'insert'), start(S, 'insert')
            t = S.text(o)
            c = S.m(q, 'copy')
            apply(S, q, b)
            tq = S.text(q)
            S.expect(o, t, 'another insert after on_duplicate_key_update')
            S.expect(c, t, 'copy after on_duplicate_key_update')
            S.expect(start(S, 'insert'), t, 'a later insert')
            c2 = S.m(q, 'copy')
            S.expect(c2, tq, 'copy with on_duplicate_key_update')
            S.m(c2, 'values', a=S.int('vb'))
            S.expect(q, tq, 'original after values() on the copy')
            if be != 'sqlite':
                S.m(c2, 'on_duplicate_key_update', *(('id2',) if be == 'postgresql' else ()), zz=1)
                S.expect(q, tq, 'original after on_duplicate_key_update on the copy')
        yield 'isolate/upsert on %s' % be, upsert

    def objects(S):
        # combined conditions, functions and unions copy independently
        pairs = {
            'Q': (lambda: S.call('Q', a=S.int('a')), lambda o: S.m(o, 'where', b=1)),
            'count': (lambda: S.call('count', 'x'), lambda o: S.m(o, 'distinct')),
            'group_concat order': (lambda: S.call('group_concat', 'x'), lambda o: S.m(o, 'order_by', 'y')),
            'group_concat order flip': (lambda: S.m(S.call('group_concat', 'x'), 'order_by', 'y'), lambda o: S.m(o, 'order_by', S.tuple('y', 'desc'))),
            'group_concat separator': (lambda: S.call('group_concat', 'x'), lambda o: S.m(o, 'separator', '-')),
            'convert': (lambda: S.call('convert', 'x', 'signed'), lambda o: S.m(o, 'to', 'char')),
        }
        for n, (f, g) in pairs.items():
            a, b = f(), f()
            t = S.text(b)
            c = S.m(a, 'copy')
            S.expect(c, t, 'copy of ' + n)
            g(a)
            S.check(not S.same(S.norm(S.text(a)), S.norm(t)), '%s does not change' % n)
            S.expect(b, t, 'another ' + n)
            S.expect(c, t, 'copy of %s after a change' % n)
            S.expect(f(), t, 'later ' + n)
            d = S.m(a, 'copy')
            ta = S.text(a)
            S.expect(d, ta, 'copy of changed ' + n)
            g(c)
            S.expect(c, ta, 'changed copy of ' + n)
    yield 'isolate/conditions and functions', objects

    def unions(S):
        a, b, c = [S.m(S.call('select_from', x), 'where', k=S.int('k' + x)) for x in ('ta', 'tb', 'tc')]
        ts = [S.text(x) for x in (a, b, c)]
        u = S.op('BitOr', a, b)
        tu = S.text(u)
        v = S.op('BitAnd', u, c)
        S.text(v)
        S.expect(u, tu, 'union after being extended')
        w = S.op('BitOr', u, u)
        S.text(w)
        S.expect(u, tu, 'union after being used twice')
        for x, t in zip((a, b, c), ts):
            S.expect(x, t, 'operand of a union')
        cp = S.m(u, 'copy')
        S.expect(cp, tu, 'copy of a union')
        S.m(a, 'where', z=1)
        S.expect(cp, tu, 'copy of a union after its operand changed')
        S.expect(b, ts[1], 'the other operand')
    yield 'isolate/unions', unions

    def nested(S):
        # copies of queries embedding others
        embeds = {
            'from': lambda s: S.call('select_from', S.tuple(s, 'x')), 'column': lambda s: S.m(S.call('select', S.tuple(s, 'x')), 'from_', 't'),
            'value': lambda s: S.m(S.call('select_from', 't'), 'where', k=s), 'in': lambda s: S.m(S.call('select_from', 't'), 'where', k=S.rel('IN', s)),
            'join': lambda s: S.m(S.m(S.call('select_from', 't'), 'join', S.tuple(s, 'x')), 'on', 'a', 'b'), 'exists': lambda s: S.m(S.call('select_from', 't'), 'where', S.call('exists', s)),
            'having': lambda s: S.m(S.call('select_from', 't'), 'having', k=s), 'set': lambda s: S.m(S.m(S.call('update', 't'), 'set', a=s), 'allow_update_all'),
            'values': lambda s: S.m(S.call('insert_into', 't'), 'values', a=s), 'order': lambda s: S.m(S.call('select_from', 't'), 'order_by', s),
            'function': lambda s: S.m(S.call('select', S.call('count', s)), 'from_', 't'), 'Q': lambda s: S.m(S.call('select_from', 't'), 'where', S.op('BitOr', S.call('Q', a=s), S.call('Q', b=1))),
            'V': lambda s: S.call('select', S.call('V', s)), 'list': lambda s: S.m(S.call('select_from', 't'), 'where', k=S.list(s, 1)),
        }
        for n, f in embeds.items():
            s = S.m(sub(S), 'where', w=S.int('w'))
            t0 = S.text(s)
            q = f(s)
            t = S.text(q)
            S.expect(s, t0, 'subquery after embedding in ' + n)
            c = S.m(q, 'copy')
            S.m(s, 'limit', 5)
            S.m(s, 'where', zz=1)
            S.expect(c, t, 'copy with a subquery in %s after the subquery changed' % n)
            # calls on the outer query never reach the subquery
            s2 = S.m(sub(S), 'where', w=S.int('w'))
            q2 = f(s2)
            for st in (('where', (), {'o': 1}), ('limit', (2,), {}), ('columns', ('cc',), {}), ('ignore', (), {}), ('values', (), {'b': 2}), ('set', (), {'b': 2}), ('join', ('jj',), {}), ('distinct', (), {})):
                r = S.outcome(lambda: S.m(q2, st[0], *st[1], **st[2]))
                texts(S, q2)
            S.expect(s2, t0, 'subquery in %s after calls on the outer query' % n)
    yield 'isolate/subqueries', nested

    def containers(S):
        i, j = S.int('i'), S.int('j')
        lst = lambda: S.list(S.tuple('a', i), S.tuple('b', j))
        d = lambda: S.dict(('b', j), ('a', i))
        od = lambda: S.dict(('b', j), ('a', i), kind='OrderedDict')
        al = lambda: S.dict(('b', 'y'), ('a', 'x'))
        inn = lambda: S.list(3, None, i)
        lol = lambda: S.list(S.list('a', i), S.list('b', S.list(1, None, 2)))
        sel = lambda: S.call('select_from', 't')
        calls = []
        for mk_ in (lst, d, od, lol):
            calls += [('where', sel, 'where', (mk_,)), ('having', sel, 'having', (mk_,)), ('on', lambda: S.m(sel(), 'join', 'u'), 'on', (mk_,))]
            if mk_ is not lol:
                calls += [('set', lambda: S.m(S.call('update', 't'), 'allow_update_all'), 'set', (mk_,)), ('values', lambda: S.call('insert_into', 't'), 'values', (mk_,))]
        for mk_ in (al, lambda: S.list('a', 'x'), lambda: S.dict(('b', 'y'), ('a', 'x'), kind='OrderedDict')):
            calls += [('columns', lambda: S.call('select'), 'columns', (mk_,)), ('from_', lambda: S.call('select'), 'from_', (mk_,))]
        od2 = lambda: S.dict(('b', 'desc'), ('a', 'asc'))
        calls += [('order_by', sel, 'order_by', (od2,)), ('group_by', sel, 'group_by', (od2,)), ('order_by list', sel, 'order_by', (lambda: S.list('a', 'desc'),))]
        for jn in ('join', 'inner_join', 'left_join', 'right_join'):
            calls += [(jn, sel, jn, (lambda: S.dict(('a', 'x')),)), (jn, sel, jn, (lambda: S.list('a', 'x'),))]
        for empty in (lambda: S.dict(), lambda: S.list(), lambda: S.dict(kind='OrderedDict')):
            calls += [('where', sel, 'where', (empty,)), ('having', sel, 'having', (empty,)), ('on', lambda: S.m(sel(), 'join', 'u'), 'on', (empty,)),
                      ('set', lambda: S.m(S.m(S.call('update', 't'), 'allow_update_all'), 'set', z=1), 'set', (empty,)),
                      ('Q in where', lambda: S.m(sel(), 'where', z=1), 'where', (lambda: empty(),))]
        for n, f, m, args in calls:
            vals = [a() for a in args]
            before = [contents(S, v) for v in vals]
            qs = []
            for _ in range(2):
                q = S.m(f(), m, *vals)
                S.text(q)
                S.m(q, 'copy')
                S.check([contents(S, v) for v in vals] == before, '%s() changed its argument' % n)
                qs.append(S.text(q))
            S.expect(qs[1], qs[0], '%s() with the same argument again' % n)
        for what, f in (('value of where', lambda x: S.m(sel(), 'where', k=x)), ('IN', lambda x: S.m(sel(), 'where', k=S.rel('IN', x))), ('NOT IN', lambda x: S.m(sel(), 'where', k=S.rel('NOT_IN', x))),
                        ('V', lambda x: S.call('select', S.call('V', x))), ('on', lambda x: S.m(S.m(sel(), 'join', 'u'), 'on', 'k', x))):
            x = inn()
            before = contents(S, x)
            t1 = S.text(f(x))
            S.check(contents(S, x) == before, '%s changed its list' % what)
            S.expect(f(x), t1, '%s with the same list again' % what)
            S.check(contents(S, x) == before, '%s changed its list' % what)
    yield 'isolate/argument containers', containers

    def later(S):
        # a container the caller changes after the call
        sel = lambda: S.call('select_from', 't')
        i, j = S.int('i'), S.int('j')
        inq = {'where': lambda x: S.m(sel(), 'where', k=x), 'IN': lambda x: S.m(sel(), 'where', k=S.rel('IN', x)), 'NOT IN': lambda x: S.m(sel(), 'where', k=S.rel('NOT_IN', x)),
               'having': lambda x: S.m(sel(), 'having', k=x), 'on': lambda x: S.m(S.m(sel(), 'join', 'u'), 'on', 'k', x), 'Q': lambda x: S.m(sel(), 'where', S.call('Q', k=x)),
               'pair': lambda x: S.m(sel(), 'where', 'k', x), 'dict': lambda x: S.m(sel(), 'where', S.dict(('k', x))), 'Not': lambda x: S.m(sel(), 'where', S.call('Not', k=x)),
               'delete': lambda x: S.m(S.call('delete_from', 't'), 'where', k=x), 'update': lambda x: S.m(S.m(S.call('update', 't'), 'set', a=1), 'where', k=x)}
        for n, f in inq.items():
            for items in ((i, j), (i, None), (i,)):
                for rendered in (True, False):
                    x = S.list(*items)
                    q = f(x)
                    t = S.text(q) if rendered else S.text(f(S.list(*items)))
                    S.m(x, 'append', 3)
                    S.expect(q, t, '%s after the list grew' % n)
                    S.m(x, 'clear')
                    S.expect(q, t, '%s after the list was cleared' % n)
                    S.expect(S.m(q, 'copy'), t, 'copy of %s after the list was cleared' % n)
        for n in ('IN', 'NOT IN'):
            x = S.set(1, 2)
            q = inq[n](x)
            t = S.text(q)
            S.m(x, 'clear')
            S.expect(q, t, '%s after the set was cleared' % n)
        al = lambda *p: (lambda: S.dict(*p))
        for n, f, mk_ in (('where', lambda d: S.m(sel(), 'where', d), al(('a', i), ('b', j))), ('having', lambda d: S.m(sel(), 'having', d), al(('a', i), ('b', j))),
                          ('set', lambda d: S.m(S.m(S.call('update', 't'), 'where', k=1), 'set', d), al(('a', i), ('b', j))), ('values', lambda d: S.m(S.call('insert_into', 't'), 'values', d), al(('a', i), ('b', j))),
                          ('columns', lambda d: S.call('select', d), al(('a', 'x'), ('b', 'y'))), ('from_', lambda d: S.call('select_from', d), al(('a', 'x'), ('b', 'y'))),
                          ('join', lambda d: S.m(sel(), 'join', d), al(('a', 'x'))), ('order_by', lambda d: S.m(sel(), 'order_by', d), al(('a', 'desc'))), ('group_by', lambda d: S.m(sel(), 'group_by', d), al(('a', 'desc'))),
                          ('Q', lambda d: S.m(sel(), 'where', S.call('Q', d)), al(('a', i), ('b', j))), ('on', lambda d: S.m(S.m(sel(), 'join', 'u'), 'on', d), al(('a', i), ('b', j)))):
            for kind in ('dict', 'OrderedDict'):
                d = mk_()
                d.kind = kind
                q = f(d)
                e = mk_()
                e.kind = kind
                t = S.text(f(e))
                S.ip.dict_set(d, 'zz', 'asc')
                S.expect(q, t, '%s after the dict grew' % n)
                S.ip.dict_set(d, 'a', 'desc')
                S.expect(q, t, '%s after the dict changed' % n)
                S.m(d, 'clear')
                S.expect(q, t, '%s after the dict was cleared' % n)
        for n, f in (('where', lambda x: S.m(sel(), 'where', x)), ('set', lambda x: S.m(S.m(S.call('update', 't'), 'where', k=1), 'set', x)), ('values', lambda x: S.m(S.call('insert_into', 't'), 'values', x))):
            p = S.list('a', i)
            x = S.list(p, S.tuple('b', j))
            q = f(x)
            t = S.text(f(S.list(S.list('a', i), S.tuple('b', j))))
            p.items[1] = 99
            S.m(x, 'append', S.tuple('c', 1))
            S.expect(q, t, '%s after the list of pairs changed' % n)
    yield 'isolate/containers changed after the call', later

    def shared(S):
        # one object passed to two queries
        sel = lambda: S.call('select_from', 't')
        kw = {'Q': lambda: S.call('Q', a=S.int('i')), 'Q|Q': lambda: S.op('BitOr', S.call('Q', a=S.int('i')), S.call('Q', b=2)), 'Not': lambda: S.call('Not', a=S.int('i')), 'C': lambda: S.call('C', 'cu'),
              'exists': lambda: S.call('exists', sub(S)), 'Q2': lambda: S.call('Q', a=S.int('i'), b=1)}
        for n, f in kw.items():
            for clause in ('where', 'having'):
                o = f()
                t0 = S.text(o)
                q1, q2 = S.m(sel(), clause, o), S.m(sel(), clause, o)
                t2 = S.text(q2)
                S.m(q1, clause, z=1)
                S.m(q1, clause, S.call('Q', y=1))
                S.m(q1, clause, o)
                S.text(q1)
                S.expect(o, t0, '%s after calls on the query' % n)
                S.expect(q2, t2, 'other query sharing ' + n)
        cols = {'count': lambda: S.call('count', 'x'), 'C': lambda: S.call('C', 'cu'), 'V': lambda: S.call('V', S.int('i')), 'R': lambda: S.call('R', 'r'), 'gc': lambda: S.m(S.call('group_concat', 'x'), 'order_by', 'y')}
        for n, f in cols.items():
            for clause in ('columns', 'order_by', 'group_by', 'from_'):
                o = f()
                t0 = S.text(o)
                q1, q2 = S.m(sel(), clause, o), S.m(sel(), clause, o)
                t2 = S.text(q2)
                S.m(q1, clause, 'z')
                S.m(q1, clause, S.tuple(o, 'desc'))
                S.text(q1)
                S.expect(o, t0, '%s after calls on the query' % n)
                S.expect(q2, t2, 'other query sharing ' + n)
        # a relation object used twice
        r = S.rel('GT', S.int('i'))
        q1, q2 = S.m(sel(), 'where', a=r), S.m(sel(), 'where', b=r)
        t2 = S.text(q2)
        S.m(q1, 'where', c=r)
        S.expect(q2, t2, 'other query sharing a relation')
        S.expect(q1, cat('SELECT * FROM "t" WHERE ', cond(S, 'a', '>', S.int('i')), ' AND ', cond(S, 'c', '>', S.int('i'))), 'relation used twice')
    yield 'isolate/shared objects', shared

    def failed(S):
        # a refused call on one query changes no other
        sel = lambda: S.call('select_from', 't')
        q, o = rich(S, 'select'), rich(S, 'select')
        t = S.text(o)
        for m, a, k in (('columns', (1.5,), {}), ('where', ('a',), {}), ('order_by', (S.tuple('a', 'up'),), {}), ('limit', ('x',), {}), ('join', (1,), {}), ('on', (1, 2), {}), ('from_', (True,), {})):
            S.expect_raise(lambda: S.m(q, m, *a, **k), INVALID, what=m)
            S.expect(o, t, 'another query after a refused %s' % m)
            S.expect(rich(S, 'select'), t, 'a later query after a refused %s' % m)
    yield 'isolate/refused calls', failed
