"""C01: unconditional UPDATE/DELETE are refused unless explicitly allowed."""
import itertools
from .common import *

EXC = {'update': 'ConfirmUpdateAllException', 'delete': 'ConfirmDeleteAllException'}
ALLOW_M = {'update': 'allow_update_all', 'delete': 'allow_delete_all'}
FORBID_M = {'update': 'forbid_update_all', 'delete': 'forbid_delete_all'}


def bare(S, kind):
    if kind == 'update':
        return S.m(S.call('update', 't'), 'set', a=S.int('i0'))
    return S.call('delete_from', 't')


def refused(S, q, kind, what):
    for how, f in (('str', S.text), ('repr', S.repr), ('tosql', lambda o: S.m(o, 'tosql'))):
        e = S.expect_raise(lambda: f(q), EXC[kind], what='%s of %s' % (how, what))
        S.check(S.is_exc(e, 'ConfirmException') and S.is_exc(e, LIBEXC), '%s: exception is no ConfirmException' % what)


EMPTY = {
    'where()': lambda S: ((), {}),
    'where({})': lambda S: ((S.dict(),), {}),
    'where(OrderedDict())': lambda S: ((S.dict(kind='OrderedDict'),), {}),
    'where([])': lambda S: ((S.list(),), {}),
    'where(())': lambda S: ((S.tuple(),), {}),
    'where(Q())': lambda S: ((S.call('Q'),), {}),
    'where(Q(), Q())': lambda S: ((S.call('Q'), S.call('Q')), {}),
    'where(Q() & Q())': lambda S: ((S.op('BitAnd', S.call('Q'), S.call('Q')),), {}),
    'where(Q() | Q())': lambda S: ((S.op('BitOr', S.call('Q'), S.call('Q')),), {}),
    'where(Q(Q()))': lambda S: ((S.call('Q', S.call('Q')),), {}),
    'where(Q({}))': lambda S: ((S.call('Q', S.dict()),), {}),
}

CONDS = {
    'int': lambda S: ((), {'c': S.int('v')}),
    'zero': lambda S: ((), {'c': 0}),
    'str': lambda S: ((), {'c': S.str('s')}),
    'empty str': lambda S: ((), {'c': ''}),
    'None': lambda S: ((), {'c': None}),
    'False': lambda S: ((), {'c': False}),
    'float': lambda S: ((), {'c': S.num('f', 'float')}),
    'list': lambda S: ((), {'c': S.list(S.int('v'))}),
    'tuple None': lambda S: ((), {'c': S.tuple(None)}),
    'dict': lambda S: ((S.dict(('c', S.int('v'))),), {}),
    'pair': lambda S: (('c', S.int('v')), {}),
    'list of pairs': lambda S: ((S.list(S.tuple('c', S.int('v'))),), {}),
    'custom': lambda S: ((S.call('C', S.plain('cu')),), {}),
    'Q': lambda S: ((S.call('Q', c=S.int('v')),), {}),
    'Q|Q': lambda S: ((S.op('BitOr', S.call('Q', c=S.int('v')), S.call('Q', d=1)),), {}),
    'Q()|Q': lambda S: ((S.op('BitOr', S.call('Q'), S.call('Q', d=1)),), {}),
    'Q&Q()': lambda S: ((S.op('BitAnd', S.call('Q', d=1), S.call('Q')),), {}),
    'Not': lambda S: ((S.call('Not', c=S.int('v')),), {}),
    'exists': lambda S: ((S.call('exists', sub(S)),), {}),
    'subselect': lambda S: ((), {'c': sub(S)}),
    'relation': lambda S: ((), {'c': S.rel('LIKE', S.str('s'))}),
    'many': lambda S: ((), {'c': S.list(S.int('v'), S.int('w'), many=True)}),
}


def seq_obligation(kind, seqs):
    """Check the guard against its two-bit model along builder histories."""
    def ob(S):
        allow_m, forbid_m = ALLOW_M[kind], FORBID_M[kind]
        for seq in seqs:
            q = bare(S, kind)
            allowed = has = False
            copies = []
            for step in seq:
                if step == 'allow':
                    q = S.m(q, allow_m)
                    allowed = True
                elif step == 'forbid':
                    q = S.m(q, forbid_m)
                    allowed = False
                elif step == 'where':
                    q = S.m(q, 'where', id=S.int('v'))
                    has = True
                elif step == 'empty':
                    q = S.m(q, 'where', S.call('Q'))
                elif step == 'render':
                    S.outcome(lambda: S.text(q))
                elif step == 'copy':
                    copies.append((q, allowed, has))
                    q = S.m(q, 'copy')
                elif step == 'ignore':
                    q = S.m(q, 'ignore')
                elif step == 'join':
                    q = S.m(S.m(q, 'join', 'u'), 'on', 't.a', 'u.a')
                elif step == 'set' and kind == 'update':
                    q = S.m(q, 'set', b=S.int('w'))
                elif step == 'has':
                    S.m(q, 'has', 'where')
                elif step == 'eq':
                    S.eq(q, bare(S, kind))
            for obj, al, hs in copies + [(q, allowed, has)]:
                what = '%s after %s' % (kind, '.'.join(seq))
                if al or hs:
                    t = S.outcome(lambda: S.text(obj))
                    S.check(t[0] == 'ok', '%s: refused although %s' % (what, 'allowed' if al else 'it has a condition'))
                    S.check(bool(hs) == (' WHERE ' in show(t[1])), '%s: WHERE clause %s in %s' % (what, 'missing' if hs else 'present', show(t[1])))
                else:
                    refused(S, obj, kind, what)
    return ob


def obligations(tier):
    for kind in ('update', 'delete'):
        def base(S, kind=kind):
            for b in BACKENDS:
                S.call('configure', b)
                refused(S, bare(S, kind), kind, 'bare %s on %s' % (kind, b))
                q = S.m(bare(S, kind), ALLOW_M[kind])
                t = S.text(q)
                S.check(' WHERE' not in show(t), 'allowed %s renders a WHERE: %s' % (kind, show(t)))
        yield 'guard/%s/bare query on every backend' % kind, base

        def incomplete(S, kind=kind):
            # queries not finished yet: no assignments, no table
            make = {'update': [lambda: S.call('update', 't'), lambda: S.call('update', None), lambda: S.m(S.call('update', None), 'set', a=1),
                               lambda: S.m(S.call('update', None), 'ignore'), lambda: S.m(S.m(S.call('update', None), 'table', 't'), 'ignore')],
                    'delete': [lambda: S.call('delete'), lambda: S.call('delete', 't'), lambda: S.m(S.call('delete'), 'ignore'),
                               lambda: S.m(S.call('delete'), 'from_', 't'), lambda: S.m(S.call('delete', 't'), 'from_', 't')]}[kind]
            for n, f in enumerate(make):
                what = 'unfinished %s no. %d' % (kind, n)
                refused(S, f(), kind, what)
                refused(S, S.m(f(), 'copy'), kind, 'copy of ' + what)
                refused(S, S.m(S.m(f(), ALLOW_M[kind]), FORBID_M[kind]), kind, what + ' after allow and forbid')
                S.text(S.m(f(), ALLOW_M[kind]))
                S.text(S.m(f(), 'where', a=S.int('v')))
        yield 'guard/%s/unfinished queries' % kind, incomplete
        for name, b in builders(kind, allow=False).items():
            if name.startswith('where'):
                continue

            def ob(S, kind=kind, b=b, name=name):
                q = apply(S, bare(S, kind), b)
                refused(S, q, kind, '%s then %s' % (kind, name))
                q = apply(S, S.m(bare(S, kind), ALLOW_M[kind]), b)
                S.text(q)
                q = apply(S, S.m(S.m(bare(S, kind), ALLOW_M[kind]), FORBID_M[kind]), b)
                refused(S, q, kind, '%s allow, forbid, %s' % (kind, name))
                q = S.m(apply(S, S.m(bare(S, kind), ALLOW_M[kind]), b), FORBID_M[kind])
                refused(S, q, kind, '%s allow, %s, forbid' % (kind, name))
                q = S.m(apply(S, bare(S, kind), b), 'copy')
                refused(S, q, kind, 'copy of %s then %s' % (kind, name))
            yield 'guard/%s/after %s' % (kind, name), ob
        for name, f in EMPTY.items():
            def ob(S, kind=kind, f=f, name=name):
                q = bare(S, kind)
                a, k = f(S)
                r = S.outcome(lambda: S.m(q, 'where', *a, **k))
                if r[0] == 'exc':
                    S.check(S.is_exc(r[1], LIBEXC), '%s raises %s' % (name, r[1].obj.cls.name))
                refused(S, q, kind, '%s.%s' % (kind, name))
                S.m(q, ALLOW_M[kind])
                t = S.text(q)
                S.check('WHERE' not in show(t), '%s.%s allowed renders a dangling WHERE: %s' % (kind, name, show(t)))
                S.m(q, FORBID_M[kind])
                S.m(q, 'where', z=1)
                S.check(' WHERE ' in show(S.text(q)), 'condition after %s is lost' % name)
            yield 'guard/%s/%s adds no condition' % (kind, name), ob
        for name, f in CONDS.items():
            def ob(S, kind=kind, f=f, name=name):
                for pre in ((), (ALLOW_M[kind],), (FORBID_M[kind],), (ALLOW_M[kind], FORBID_M[kind])):
                    q = S.chain(bare(S, kind), *pre)
                    a, k = f(S)
                    q = S.m(q, 'where', *a, **k)
                    ref = S.call('select_from', 't')
                    a, k = f(S)
                    ref = S.text(S.m(ref, 'where', *a, **k))
                    head = cat('DELETE FROM ', S.R('t')) if kind == 'delete' else cat('UPDATE ', S.R('t'), ' SET ', S.R('a'), ' = ', S.V(S.int('i0')))
                    tail = cut(ref, cat('SELECT * FROM ', S.R('t')))
                    S.expect(q, cat(head, tail), '%s with condition (%s)' % (kind, name))
            yield 'guard/%s/renders with condition %s' % (kind, name), ob

        def iso(S, kind=kind):
            q1, q2 = bare(S, kind), bare(S, kind)
            S.m(q1, ALLOW_M[kind])
            refused(S, q2, kind, 'another %s after allow on the first' % kind)
            refused(S, bare(S, kind), kind, 'new %s after allow on another' % kind)
            c = S.m(q2, 'copy')
            S.m(c, ALLOW_M[kind])
            S.text(c)
            refused(S, q2, kind, 'original after allow on its copy')
            c2 = S.m(q1, 'copy')
            S.m(q1, FORBID_M[kind])
            S.text(c2)
            refused(S, q1, kind, 'original after forbid')
            S.m(q1, 'where', z=1)
            S.text(q1)
            c3 = S.m(bare(S, kind), 'copy')
            S.m(c3, 'where', z=1)
            S.text(c3)
        yield 'guard/%s/permission belongs to one query' % kind, iso

        steps = ['allow', 'forbid', 'where', 'empty', 'render', 'copy', 'ignore', 'join', 'has', 'eq'] + (['set'] if kind == 'update' else [])
        n = 3 if tier == 'quick' else 4
        allseqs = [s for r in range(1, n + 1) for s in itertools.product(steps, repeat=r)
                   if not (r > 2 and all(x in ('ignore', 'join', 'has', 'eq', 'set', 'render') for x in s[:-1]))]
        size = 60
        for i in range(0, len(allseqs), size):
            yield 'guard/%s/histories %d..%d of length <= %d' % (kind, i, min(i + size, len(allseqs)) - 1, n), seq_obligation(kind, allseqs[i:i + size])


def cut(text, prefix):
    """Remove a known prefix from a shape."""
    from ..values import segs
    t, p = list(segs(text)), list(segs(prefix))
    while p:
        if not t:
            raise Violation('unexpected start of %s' % show(text))
        a, b = t[0], p[0]
        if isinstance(a, str) and isinstance(b, str):
            if a.startswith(b):
                t[0] = a[len(b):]
                p.pop(0)
                if not t[0]:
                    t.pop(0)
                continue
            if b.startswith(a):
                p[0] = b[len(a):]
                t.pop(0)
                continue
            raise Violation('unexpected start of %s' % show(text))
        if a != b:
            raise Violation('unexpected start of %s' % show(text))
        t.pop(0)
        p.pop(0)
    return mk(t)
