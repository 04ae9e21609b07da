"""C09: the same pairs through every argument form give the same parts; dict
and keyword arguments come out sorted by key for every insertion order,
OrderedDict and positional arguments in the caller's order."""
from .clauses import *

KEYSETS = [['b', 'a', 'c'], ['B', 'a', 'Z', 'b'], ['c10', 'c9', 'c1', 'c'], ['t.b', 't.a', 's.z'], ['_x', 'X', 'x'], ['a b', 'a', 'a!b', 'ab', 'a-b']]


def perms(ks, tier):
    ps = list(itertools.permutations(ks))
    if tier == 'quick' and len(ps) > 8:
        ps = ps[::3] + [tuple(sorted(ks)), tuple(sorted(ks, reverse=True))]
    return ps


def alias_too_long(c):
    return c in ALIASES


def obligations(tier):
    for c in PAIRS + ALIASES + ORDERS:
        alias = c in ALIASES
        order = c in ORDERS

        def val(S, k, alias=alias, order=order):
            if alias:
                return 'al_' + k.replace('.', '_')
            if order:
                return 'desc' if k < 'b' else 'asc'
            return S.int('v' + k)
        for ks in KEYSETS:
            def ob(S, c=c, ks=ks, val=val):
                S.configure(c.backend)
                for p in perms(ks, tier):
                    pairs = [(k, val(S, k)) for k in p]
                    srt = sortpairs(pairs)
                    if all(k.isidentifier() for k in ks):
                        S.expect(c.q(S, **dict(pairs)), c.text(S, srt), '%s keywords in order %s' % (c.name, p))
                    if not c.prefix:
                        S.expect(c.q(S, S.dict(*pairs)), c.text(S, srt), '%s dict in order %s' % (c.name, p))
                        S.expect(c.q(S, S.dict(*pairs, kind='defaultdict')), c.text(S, srt), '%s defaultdict in order %s' % (c.name, p))
                        S.expect(c.q(S, S.sub('dict', S.dict(*pairs))), c.text(S, srt), '%s dict subclass in order %s' % (c.name, p))
                        S.expect(c.q(S, S.dict(*pairs, kind='OrderedDict')), c.text(S, pairs), '%s OrderedDict in order %s' % (c.name, p))
                    if c in ALIASES or c in ORDERS:
                        S.expect(c.q(S, *[S.tuple(*x) for x in pairs]), c.text(S, pairs), '%s tuples in order %s' % (c.name, p))
                    else:
                        S.expect(c.q(S, S.list(*[S.tuple(*x) for x in pairs])), c.text(S, pairs), '%s list in order %s' % (c.name, p))
                        S.expect(c.q(S, *[S.tuple(*x) for x in pairs]), c.text(S, pairs), '%s tuples in order %s' % (c.name, p))
                    if not c.fresh:
                        q = c.begin(S)
                        for k, v in pairs:
                            q = c.add(S, q, S.list(S.tuple(k, v))) if c in PAIRS else c.add(S, q, S.tuple(k, v))
                        S.expect(q, c.text(S, pairs), '%s repeated calls in order %s' % (c.name, p))
            yield 'order/%s/keys %s' % (c.name, ','.join(ks)), ob

        def longkeys(S, c=c, val=val):
            # long names, equal up to their last character
            S.configure(c.backend)
            ks = ['m' * 70 + 'b', 'z', 'm' * 70 + 'a', 'b', 'm' * 33]
            for p in (ks, ks[::-1], ks[2:] + ks[:2]):
                pairs = [(k, val(S, k)) for k in p]
                if alias_too_long(c):
                    pairs = [(k, 'al%d' % i) for i, k in enumerate(p)]
                S.expect(c.q(S, **dict(pairs)), c.text(S, sortpairs(pairs)), '%s long keywords' % c.name)
                if not c.prefix:
                    S.expect(c.q(S, S.dict(*pairs)), c.text(S, sortpairs(pairs)), '%s dict of long names' % c.name)
                    S.expect(c.q(S, S.sub('OrderedDict', S.list(*[S.tuple(*x) for x in pairs]))), c.text(S, pairs), '%s OrderedDict subclass' % c.name)
        yield 'order/%s/long names, OrderedDict subclass' % c.name, longkeys

        def objs(S, c=c, alias=alias, order=order):
            # SQL objects as keys are sorted by their text
            if c.prefix:
                return
            S.configure(c.backend)
            ks = [('C', 'mm'), ('str', 'aa'), ('str', 'zz'), ('C', 'bb')]
            for p in itertools.permutations(ks):
                pairs = []
                for kind, k in p:
                    v = 'x' + k if alias else 'desc' if order else S.int('v' + k)
                    pairs.append((kind, k, v))
                d = S.dict(*[(S.call('C', k) if kind == 'C' else k, v) for kind, k, v in pairs])
                parts = []
                for kind, k, v in sorted(pairs, key=lambda x: x[1]):
                    t = k if kind == 'C' else S.R(k)
                    parts.append(cat(t, ' AS ', S.R(v)) if alias else cat(t, ' DESC') if order else cat(t, ' = ', S.V(v)))
                S.expect(c.q(S, d), cat(c.head, join(c.sep, parts), c.tail), '%s dict with SQL objects as keys' % c.name)
        yield 'order/%s/SQL objects as keys' % c.name, objs

        def posn(S, c=c, alias=alias, order=order):
            # abstract names keep the caller's order
            S.configure(c.backend)
            names = [S.plain('n%d' % i) for i in range(3)]
            for p in itertools.permutations(range(3)):
                ns = [names[i] for i in p]
                if alias or order:
                    S.expect(c.q(S, *ns), c.text(S, [(n, None) for n in ns]), '%s positional' % c.name)
                    v = (lambda i: S.plain('x%d' % i)) if alias else (lambda i: 'desc')
                    S.expect(c.q(S, *[S.tuple(n, v(i)) for i, n in zip(p, ns)]), c.text(S, [(n, v(i)) for i, n in zip(p, ns)]), '%s tuples' % c.name)
                    S.expect(c.q(S, S.dict(*[(n, v(i)) for i, n in zip(p, ns)], kind='OrderedDict')), c.text(S, [(n, v(i)) for i, n in zip(p, ns)]), '%s OrderedDict' % c.name)
                else:
                    ps = [(n, S.int('v%d' % i)) for i, n in zip(p, ns)]
                    S.expect(c.q(S, S.list(*[S.tuple(*x) for x in ps])), c.text(S, ps), '%s list' % c.name)
                    S.expect(c.q(S, *[S.tuple(*x) for x in ps]), c.text(S, ps), '%s tuples' % c.name)
                    if not c.prefix:
                        S.expect(c.q(S, S.dict(*ps, kind='OrderedDict')), c.text(S, ps), '%s OrderedDict' % c.name)
        yield 'order/%s/positional arguments of any name' % c.name, posn

    for ks in KEYSETS:
        def rows(S, ks=ks):
            hdr = ', '.join('.'.join('"%s"' % x for x in k.split('.')) for k in sorted(ks))
            for p in perms(ks, tier):
                pairs = [(k, S.int('v' + k)) for k in p]
                want = cat('INSERT INTO "t" (', hdr, ') VALUES (', join(', ', [S.V(S.int('v' + k)) for k in sorted(ks)]), ')')
                ins = lambda *a, **k: S.m(S.call('insert_into', 't'), 'values', *a, **k)
                S.expect(ins(S.dict(*pairs)), want, 'values dict in order %s' % (p,))
                S.expect(ins(S.list(*[S.tuple(*x) for x in pairs])), want, 'values list in order %s' % (p,))
                S.expect(ins(S.dict(*pairs, kind='OrderedDict')), want, 'values OrderedDict in order %s' % (p,))
                if all(k.isidentifier() for k in ks):
                    S.expect(ins(**dict(pairs)), want, 'values keywords in order %s' % (p,))
                # one column per row
                q = S.call('insert_into', 't')
                for k, v in pairs:
                    q = S.m(q, 'values', S.dict((k, v)))
                rws = [cat('(', join(', ', [S.V(v) if x == k else 'NULL' for x in sorted(ks)]), ')') for k, v in pairs]
                S.expect(q, cat('INSERT INTO "t" (', hdr, ') VALUES ', join(', ', rws)), 'a row per column in order %s' % (p,))
        yield 'order/values/keys %s' % ','.join(ks), rows

    def ints(S):
        for c in (ALIASES[0], ORDERS[0], ORDERS[1]):
            for p in itertools.permutations([10, 9, 2]):
                v = {10: 'x10', 9: 'x9', 2: 'x2'} if c in ALIASES else {10: 'asc', 9: 'desc', 2: 'asc'}
                S.expect(c.q(S, S.dict(*[(k, v[k]) for k in p])), cat(c.head, join(c.sep, [cat('%d' % k, (' AS ' + '"%s"' % v[k]) if c in ALIASES else '' if v[k] == 'asc' else ' DESC') for k in (2, 9, 10)]), c.tail),
                         '%s with int keys' % c.name)
            first = None
            for p in itertools.permutations([1, 'a', 2, 'b']):
                t = S.text(c.q(S, S.dict(*[(k, 'desc') for k in p])))
                first = t if first is None else first
                S.expect(t, first, '%s with int and string keys in order %r' % (c.name, p))
    yield 'order/int keys', ints

    def many(S):
        for n in sizes(S, 9, 17):
            ks = ['k%02d' % i for i in range(n)]
            for p in (ks[::-1], ks[1::2] + ks[::2], ks[n // 2:] + ks[:n // 2]):
                for c in PAIRS + ALIASES + ORDERS:
                    S.call('configure', c.backend)
                    v = (lambda k: 'a' + k) if c in ALIASES else (lambda k: 'desc') if c in ORDERS else (lambda k: S.int('v' + k))
                    pairs = [(k, v(k)) for k in p]
                    S.expect(c.q(S, **dict(pairs)), c.text(S, sortpairs(pairs)), '%s with %d keywords' % (c.name, n))
                    if not c.prefix:
                        S.expect(c.q(S, S.dict(*pairs, kind='OrderedDict')), c.text(S, pairs), '%s with an OrderedDict of %d' % (c.name, n))
                S.call('configure', 'sql')
                want = cat('INSERT INTO "t" (', ', '.join('"%s"' % k for k in ks), ') VALUES (', join(', ', [S.V(S.int('v' + k)) for k in ks]), ')')
                S.expect(S.m(S.call('insert_into', 't'), 'values', **{k: S.int('v' + k) for k in p}), want, '%d columns' % n)
    yield 'order/many keys', many

    def exprs(S):
        # order does not depend on what the values are
        for p in itertools.permutations('abc'):
            vals = {'a': S.rel('GT', S.int('i')), 'b': S.call('C', 'cu'), 'c': S.list(1, 2)}
            want = cat('SELECT * FROM "t" WHERE ', cond(S, 'a', '>', S.int('i')), ' AND "b" = cu AND "c" IN (1, 2)')
            S.expect(S.m(flat(S), 'where', **{k: vals[k] for k in p}), want, 'where keywords %s' % (p,))
            S.expect(S.m(flat(S), 'where', S.dict(*[(k, vals[k]) for k in p])), want, 'where dict %s' % (p,))
            S.expect(S.m(flat(S), 'where', S.call('Q', **{k: vals[k] for k in p})), want, 'where Q %s' % (p,))
            S.expect(S.m(flat(S), 'where', **{k: S.int('s') for k in p}),
                     cat('SELECT * FROM "t" WHERE ', join(' AND ', [eqc(S, k, S.int('s')) for k in 'abc'])), 'equal values %s' % (p,))
            d = S.dict(*[(k, S.int('d' + k)) for k in p])
            S.expect(S.m(flat(S), 'where', d, z=1, y=2), cat('SELECT * FROM "t" WHERE ', join(' AND ', [eqc(S, k, S.int('d' + k)) for k in 'abc']), ' AND "y" = 2 AND "z" = 1'),
                     'dict then keywords %s' % (p,))
    yield 'order/values do not matter', exprs
