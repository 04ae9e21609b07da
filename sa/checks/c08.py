"""C08: every pair passed to a clause, in every accepted mixture of argument
forms, with every kind of value (falsy ones included), is present in the text;
argument shapes a call cannot represent raise InvalidArgumentException."""
from .clauses import *

NAMES = ['k1', 'k2', 'k3']
CONDVALS = ['int', 'float', 'Decimal', 'date', 'datetime']
SETVALS = CONDVALS + ['bytes']
FALSY = [0, '', False, 0.0, None]


def obligations(tier):
    for c in PAIRS:
        kinds = SETVALS if c.name in ('set', 'on duplicate key', 'on conflict') else CONDVALS
        for form in FORMS_PAIR:
            def ob(S, c=c, form=form, kinds=kinds):
                S.configure(c.backend)
                for n in (1, 2, 3):
                    pairs = [(NAMES[i], S.int('v%d' % i)) for i in range(n)]
                    for label, calls, want in forms(pairs, 'pair'):
                        if label != form:
                            continue
                        if c.fresh and len(calls(S)) > 1 or c.prefix and 'dict' in label.lower() or c.prefix and label.startswith('positional'):
                            continue
                        if c.prefix and 'positional' in label:
                            continue
                        S.expect(run_form(S, c, calls(S)), c.text(S, want), '%s with %s of %d pairs' % (c.name, label, n))
            yield 'kept/%s/%s' % (c.name, form), ob

        def values(S, c=c, kinds=kinds):
            S.configure(c.backend)
            strs = [] if c.name.startswith('on of') or c.name == 'on' else ['str']
            for k in kinds + strs:
                v = S.scalar(k, 'x' + k)
                got = c.q(S, a=v)
                S.expect(got, c.text(S, [('a', v)]), '%s with a %s value' % (c.name, k))
        yield 'kept/%s/value kinds' % c.name, values

        def falsy(S, c=c):
            S.configure(c.backend)
            for v in FALSY:
                if v == '' and isinstance(v, str) and c.name.startswith('on') and c.name not in ('on duplicate key', 'on conflict'):
                    continue
                for pairs in ([('a', v)], [('a', v), ('b', 1)], [('b', 1), ('c', v)], [('a', v), ('b', v)]):
                    for label, calls, want in forms(pairs, 'pair'):
                        if c.fresh and len(calls(S)) > 1 or c.prefix and ('dict' in label.lower() or 'positional' in label):
                            continue
                        S.expect(run_form(S, c, calls(S)), c.text(S, want), '%s with %s of %r' % (c.name, label, pairs))
        yield 'kept/%s/falsy values' % c.name, falsy

        def bad(S, c=c):
            S.configure(c.backend)
            t, l = S.tuple, S.list
            cases = [
                ('one string', ('a',), {}), ('one int', (1,), {}), ('one None', (None,), {}),
                ('three positional', ('a', 1, 2), {}), ('four positional', ('a', 1, 'b', 2), {}),
                ('tuple of one', (l(t('a')),), {}), ('empty tuple item', (l(t()),), {}), ('tuple of three', (l(t('a', 1, 2)),), {}),
                ('short tuple after good', (t('a', 1), t('b')), {}), ('long tuple after good', (t('a', 1), t('b', 1, 2)), {}),
                ('bare item in list', (l('a'),), {}), ('bare items in list', (l('a', 'b'),), {}), ('item after tuple', (t('a', 1), 'b'), {}),
                ('tuple then dict', (t('a', 1), S.dict(('b', 1))), {}), ('string and keyword', ('a',), {'b': 1}),
                ('short tuple and keyword', (l(t('a')),), {'b': 1}),
                ('two dicts of three', (S.dict(('a', 1)), S.dict(('b', 1)), S.dict(('c', 1))), {}),
                ('int column', (1, 1), {}), ('None column', (None, 1), {}), ('dict column', (S.dict(('a', 1)), S.dict(('b', 1))), {}),
                ('list column', (l(t(l('a'), 1)),), {}), ('float column', (l(t(1.5, 1)),), {}), ('bool column', (l(t(True, 1)),), {}),
                ('string in a list', (l(t('a', 1), 'b'),), {}), ('int in a list', (l(t('a', 1), 5),), {}),
                ('None in a list', (l(t('a', 1), None),), {}),
            ]
            for x in (None, '', 0, False, 'c'):
                for n in (1, 2):
                    cases += [('surplus %r' % (x,), (l(t('a', 1, *[x] * n)),), {}), ('surplus %r after good' % (x,), (t('b', 1), t('a', 1, *[x] * n)), {}),
                              ('surplus argument %r' % (x,), ('a', 1) + (x,) * n, {})]
            for what, a, k in cases:
                S.expect_raise(lambda: c.q(S, *a, **k), INVALID, what='%s with %s' % (c.name, what))
                if not c.fresh:
                    S.expect_raise(lambda: c.add(S, c.add(S, c.begin(S), y=1), *a, **k), INVALID, what='%s with %s' % (c.name, what))
        yield 'refused/%s' % c.name, bad

        def both(S, c=c):
            # one key given in several places of one call, or in two calls
            S.configure(c.backend)
            v, w, x = S.int('v'), S.scalar('float', 'w'), S.scalar('date', 'x')
            for a in ('a', 'zz'):
                for kind in ('dict', 'OrderedDict'):
                    S.expect(c.q(S, S.dict((a, v), kind=kind), **{a: w}), c.text(S, [(a, v), (a, w)]), '%s with %r in a %s and as a keyword' % (c.name, a, kind))
                    S.expect(c.q(S, S.dict(('m', x), (a, v), kind='OrderedDict'), **{a: w, 'm': v}), c.text(S, [('m', x), (a, v)] + sortpairs([(a, w), ('m', v)])), '%s with the keys of a %s as keywords' % (c.name, kind))
                if not c.prefix:
                    S.expect(c.q(S, a, v, **{a: w}), c.text(S, [(a, v), (a, w)]), '%s with %r positional and as a keyword' % (c.name, a))
                    S.expect(c.q(S, S.list(S.tuple(a, v), S.tuple('m', v), S.tuple(a, x)), **{a: w}), c.text(S, [(a, v), ('m', v), (a, x), (a, w)]), '%s with %r in a list and as a keyword' % (c.name, a))
                if not c.fresh:
                    S.expect(c.add(S, c.q(S, **{a: v}), **{a: w}), c.text(S, [(a, v), (a, w)]), '%s with %r in two calls' % (c.name, a))
                    S.expect(c.add(S, c.q(S, S.dict((a, v))), S.dict((a, w))), c.text(S, [(a, v), (a, w)]), '%s with %r in two dicts' % (c.name, a))
                    S.expect(c.add(S, c.add(S, c.q(S, S.dict((a, v), ('m', v))), S.dict()), **{a: x, 'm': w}), c.text(S, sortpairs([(a, v), ('m', v)]) + sortpairs([(a, x), ('m', w)])), '%s in three calls' % c.name)
        yield 'kept/%s/one key in several places' % c.name, both

        def large(S, c=c):
            S.configure(c.backend)
            for k in sizes(S, 4, 9):
                ps = [('n%02d' % i, S.int('m%d' % i)) for i in range(k + 2)]
                S.expect(c.q(S, **dict(ps)), c.text(S, ps), '%s with %d keywords' % (c.name, k + 2))
                S.expect(c.q(S, S.dict(*ps)), c.text(S, ps), '%s with a dict of %d' % (c.name, k + 2))
                for i in {0, 1, 2, k // 2, k - 1, k}:
                    S.expect(c.q(S, S.dict(*ps[:i]), **dict(ps[i:])), c.text(S, ps), '%s with a dict of %d and %d keywords' % (c.name, i, k + 2 - i))
                    S.expect(c.q(S, S.dict(*ps[i:], kind='OrderedDict'), **dict(ps[:i])), c.text(S, ps[i:] + ps[:i]), '%s with an OrderedDict of %d and %d keywords' % (c.name, k + 2 - i, i))
                if not c.prefix:
                    S.expect(c.q(S, S.list(*[S.tuple(*p) for p in ps])), c.text(S, ps), '%s with a list of %d' % (c.name, k + 2))
                    S.expect(c.q(S, *[S.tuple(*p) for p in ps]), c.text(S, ps), '%s with %d tuples' % (c.name, k + 2))
                    S.expect(c.q(S, S.list(*[S.tuple(*p) for p in ps[:2]]), **dict(ps[2:])), c.text(S, ps), '%s with a list and %d keywords' % (c.name, k))
        yield 'kept/%s/many pairs' % c.name, large

    for c in PAIRS:
        if c.name in ('set', 'on duplicate key', 'on conflict'):
            continue

        def qs(S, c=c):
            Q = lambda **k: S.call('Q', **k)
            e = lambda n: _e(S, n)
            a, b, d, f, g = [e(n) for n in 'abdfg']
            kw = lambda *ns: {n: S.int('v' + n) for n in ns}
            h, t = c.head, c.tail
            AND = ' AND '
            S.expect(c.q(S, Q(**kw('a')), **kw('b')), cat(h, a, AND, b, t), '%s Q and keyword' % c.name)
            S.expect(c.q(S, Q(**kw('a')), Q(**kw('d')), **kw('b')), cat(h, a, AND, d, AND, b, t), '%s two Q and keyword' % c.name)
            S.expect(c.q(S, Q(**kw('a', 'b')), Q(**kw('d')), **kw('f', 'g')), cat(h, join(AND, [a, b, d, f, g]), t), '%s Q of two, Q and keywords' % c.name)
            S.expect(c.q(S, S.op('BitOr', Q(**kw('a')), Q(**kw('b'))), **kw('d')), cat(h, '(', a, ' OR ', b, ')', AND, d, t), '%s combined Q and keyword' % c.name)
            S.expect(c.q(S, S.op('BitOr', Q(**kw('a')), Q(**kw('b'))), Q(**kw('d')), **kw('f')), cat(h, '(', a, ' OR ', b, ')', AND, d, AND, f, t), '%s combined Q, Q and keyword' % c.name)
            S.expect(c.q(S, Q(), Q(**kw('a')), **kw('b')), cat(h, a, AND, b, t), '%s empty Q, Q and keyword' % c.name)
            S.expect(c.q(S, Q(), **kw('b')), cat(h, b, t), '%s empty Q and keyword' % c.name)
            if not c.fresh:
                q = c.add(S, c.begin(S), **kw('a'))
                q = c.add(S, q, Q(**kw('b')), **kw('d'))
                q = c.add(S, q, S.call('C', 'cu'))
                q = c.add(S, q, S.call('Not', **kw('f')))
                q = c.add(S, q, 'g', S.int('vg'))
                S.expect(q, cat(h, join(AND, [a, b, d, 'cu', cat('NOT(', f, ')'), g]), t), '%s sequence of forms' % c.name)
        yield 'kept/%s/Q objects' % c.name, qs

    for c in ALIASES + ORDERS:
        second = ['asc', 'desc', 'DESC'] if c in ORDERS else ['x1', 'x2', 'x3']
        for form in FORMS_ALIAS:
            def ob(S, c=c, form=form, second=second):
                for n in (1, 2, 3):
                    pairs = [(NAMES[i], second[i]) for i in range(n)]
                    for label, calls, want in forms(pairs, 'alias'):
                        if label != form or c.fresh and len(calls(S)) > 1:
                            continue
                        S.expect(run_form(S, c, calls(S)), c.text(S, want), '%s with %s of %d pairs' % (c.name, label, n))
            yield 'kept/%s/%s' % (c.name, form), ob

        def mix(S, c=c, second=second):
            a, b, d, e = [S.plain(x) for x in 'abde']
            s = second
            o = S.call('C', 'cu')
            ot = 'cu'
            S.expect(c.q(S, a), c.text(S, [(a, None)]), c.name)
            S.expect(c.q(S, a, b), c.text(S, [(a, None), (b, None)]), c.name)
            S.expect(c.q(S, a, b, d, e), c.text(S, [(a, None), (b, None), (d, None), (e, None)]), c.name)
            S.expect(c.q(S, S.tuple(a)), c.text(S, [(a, None)]), c.name)
            S.expect(c.q(S, S.tuple(a), S.list(b)), c.text(S, [(a, None), (b, None)]), c.name)
            S.expect(c.q(S, S.tuple(a, None), b), c.text(S, [(a, None), (b, None)]), c.name)
            S.expect(c.q(S, a, S.tuple(b, s[1]), d), c.text(S, [(a, None), (b, s[1]), (d, None)]), c.name)
            S.expect(c.q(S, S.tuple(a, s[1]), b, S.list(d, s[2])), c.text(S, [(a, s[1]), (b, None), (d, s[2])]), c.name)
            S.expect(c.q(S, a, S.tuple(b, s[1]), zz=s[2], yy=s[0]), c.text(S, [(a, None), (b, s[1]), ('yy', s[0]), ('zz', s[2])]), c.name)
            S.expect(c.q(S, a, zz=s[2]), c.text(S, [(a, None), ('zz', s[2])]), c.name)
            got = S.text(c.q(S, a, o, S.tuple(S.call('C', 'cv'), s[1]), S.call('R', b), S.call('V', S.int('i'))))
            parts = [S.R(a), ot]
            if c in ORDERS:
                parts += [cat('cv', ' DESC'), S.R(b), S.V(S.int('i'))]
            else:
                parts += [cat('cv', ' AS ', S.R(s[1])), S.R(b), S.V(S.int('i'))]
            S.expect(got, cat(c.head, join(c.sep, parts), c.tail), '%s of SQL objects' % c.name)
            if not c.fresh:
                q = c.begin(S)
                for x in (a, S.tuple(b, s[1]), S.dict((d, s[2])), e):
                    q = c.add(S, q, x)
                S.expect(q, c.text(S, [(a, None), (b, s[1]), (d, s[2]), (e, None)]), '%s in four calls' % c.name)
                q = c.begin(S)
                c.add(S, q)
                c.add(S, q, a)
                c.add(S, q)
                c.add(S, q, S.dict())
                S.expect(q, c.text(S, [(a, None)]), '%s empty calls' % c.name)
        yield 'kept/%s/mixtures' % c.name, mix

        def large(S, c=c, second=second):
            for k in sizes(S, 4, 9):
                ps = [('n%02d' % i, second[i % 3]) for i in range(k + 2)]
                S.expect(c.q(S, **dict(ps)), c.text(S, ps), '%s with %d keywords' % (c.name, k + 2))
                S.expect(c.q(S, S.dict(*ps)), c.text(S, ps), '%s with a dict of %d' % (c.name, k + 2))
                S.expect(c.q(S, *[S.tuple(*p) for p in ps]), c.text(S, ps), '%s with %d tuples' % (c.name, k + 2))
                S.expect(c.q(S, *[p[0] for p in ps]), c.text(S, [(p[0], None) for p in ps]), '%s with %d names' % (c.name, k + 2))
                for i in {0, 1, 2, k // 2, k - 1, k}:
                    S.expect(c.q(S, S.dict(*ps[:i]), **dict(ps[i:])), c.text(S, ps), '%s with a dict of %d and %d keywords' % (c.name, i, k + 2 - i))
                    S.expect(c.q(S, S.dict(*ps[i:], kind='OrderedDict'), **dict(ps[:i])), c.text(S, ps[i:] + ps[:i]), '%s with an OrderedDict of %d and %d keywords' % (c.name, k + 2 - i, i))
                    S.expect(c.q(S, *[p[0] for p in ps[:i]], **dict(ps[i:])), c.text(S, [(p[0], None) for p in ps[:i]] + ps[i:]), '%s with %d names and %d keywords' % (c.name, i, k + 2 - i))
            if c not in ORDERS:
                for kind in ('dict', 'OrderedDict'):
                    S.expect(c.q(S, S.dict(('a', 'x1'), kind=kind), a='x2'), c.text(S, [('a', 'x1'), ('a', 'x2')]), '%s with a key in a %s and as a keyword' % (c.name, kind))
                S.expect(c.q(S, 'a', S.tuple('a', 'x1'), a='x2'), c.text(S, [('a', None), ('a', 'x1'), ('a', 'x2')]), '%s with a name in three places' % c.name)
                S.expect(c.q(S, S.dict(('a', 'x1'), ('m', 'x1')), a='x2', m='x2'), c.text(S, [('a', 'x1'), ('m', 'x1'), ('a', 'x2'), ('m', 'x2')]), '%s with the keys of a dict as keywords' % c.name)
        yield 'kept/%s/many parts' % c.name, large

        def bad(S, c=c, second=second):
            t, l = S.tuple, S.list
            cases = [('tuple of three', (t('a', second[0], 'c'),), {}), ('empty tuple', (t(),), {}), ('empty list', (l(),), {}),
                     ('list of three', (l('a', second[0], 'c'),), {}), ('empty tuple after good', ('a', t()), {}),
                     ('long tuple after good', ('a', t('b', second[0], 'd')), {}), ('two dicts', (S.dict(('a', second[0])), S.dict(('b', second[0]))), {}),
                     ('string and dict', ('a', S.dict(('b', second[0]))), {}), ('nested tuple', (t(t('a', second[0]),),), {}),
                     ('empty tuple and keyword', (t(),), {'z': second[0]}), ('float', (1.5,), {}), ('set', (S.set('a'),), {}), ('True', (True,), {}), ('False', (False,), {}),
                     ('bytes', (b'a',), {}), ('object', (S.opaque(),), {}), ('number alias', (t('a', 1.5),), {}), ('list alias', (t('a', l('b')),), {})]
            for x in (None, '', 0, False, 'c', second[0]):
                for n in (1, 2):
                    cases += [('surplus %r' % (x,), (t('a', second[0], *[x] * n),), {}), ('surplus %r in a list' % (x,), (l('a', second[0], *[x] * n),), {}),
                              ('surplus %r after good' % (x,), ('a', t('b', None, *[x] * n)), {})]
            for what, a, k in cases:
                S.expect_raise(lambda: c.q(S, *a, **k), INVALID, what='%s with %s' % (c.name, what))
        yield 'refused/%s' % c.name, bad

    odd = ['*', 't.*', '1', '0', 'NULL', 'null', 'default', 'a b', '"q"', 'x.y.z', 'as', '-1', 'DESC', 'true', '*.*', 'é', '(a)', '%s', '{0}']
    for c in ALIASES + ORDERS + POSITIONAL + PAIRS:
        def names(S, c=c):
            # names a piece of code might be tempted to treat as something else
            S.configure(c.backend)
            fin = (lambda q: S.m(S.m(q, 'from_', 'z'), 'where', w=1)) if c.name == 'delete' else (lambda q: q)
            end = ' FROM "z" WHERE "w" = 1' if c.name == 'delete' else ''
            pair = c in PAIRS
            mkp = (lambda n: S.tuple(n, 5)) if pair else (lambda n: n)
            val = 5 if pair else None
            if c.prefix:
                return
            for x in odd:
                for ns in ([x, 'b'], ['b', x], ['b', x, 'd'], [x, 'b', odd[(odd.index(x) + 1) % len(odd)]]):
                    S.expect(fin(c.q(S, *[mkp(n) for n in ns])), cat(c.text(S, [(n, val) for n in ns]), end), '%s of %r' % (c.name, ns))
                    if not c.fresh:
                        q = c.begin(S)
                        for n in ns:
                            c.add(S, q, *((n, 5) if pair else (n,)))
                        S.expect(q, c.text(S, [(n, val) for n in ns]), '%s of %r in several calls' % (c.name, ns))
        yield 'kept/%s/odd names' % c.name, names

    for c in POSITIONAL:
        def pos(S, c=c):
            fin = (lambda q: S.m(S.m(q, 'from_', 'z'), 'where', w=1)) if c.name == 'delete' else (lambda q: q)
            end = ' FROM "z" WHERE "w" = 1' if c.name == 'delete' else ''
            s = 'desc' if 'order' in c.name else 'al'
            a, b, d, e = [S.plain(x) for x in 'abde']
            for xs in ([(a, None)], [(a, None), (b, None)], [(a, None), (b, None), (d, None), (e, None)], [(a, None), (b, s), (d, None)], [(a, s), (b, s)]):
                args = [x[0] if x[1] is None else S.tuple(*x) for x in xs]
                S.expect(fin(c.q(S, *args)), cat(c.text(S, xs), end), '%s of %d arguments' % (c.name, len(xs)))
            for bad in (S.tuple(), S.tuple('a', 'b', 'c'), 1.5, True, S.opaque()):
                S.expect_raise(lambda: c.q(S, 'a', bad), INVALID, what='%s with a wrong argument' % c.name)
        yield 'kept/%s' % c.name, pos

    def upsert(S):
        u, v, w = S.int('u'), S.scalar('float', 'v'), S.scalar('date', 'w')
        ins = lambda: S.m(S.call('insert_into', 't'), 'values', zz=1)
        for be, p in (('mysql', ()), ('postgresql', ('idx',))):
            S.call('configure', be)
            q0 = QUOTE[be]
            head = lambda tgt='idx': 'INSERT INTO {0}t{0} ({0}zz{0}) VALUES (1) '.format(q0) + ('ON DUPLICATE KEY UPDATE ' if be == 'mysql' else 'ON CONFLICT ("%s") DO UPDATE ' % tgt)
            text = lambda ps, tgt='idx': cat(head(tgt), join(', ', [cat(q0, n, q0, ' = ', S.V(x)) for n, x in ps]))
            step = lambda q, *a, p=p, **k: S.m(q, 'on_duplicate_key_update', *(p + a), **k)
            q = step(ins(), a=u)
            step(q, b=v)
            S.expect(q, text([('a', u), ('b', v)]), 'two upsert calls on %s' % be)
            step(q, S.dict(('d', w)))
            step(q)
            S.expect(q, text([('a', u), ('b', v), ('d', w)]), 'upsert calls, the last without assignments, on %s' % be)
            step(q, S.dict())
            step(q, a=w)
            S.expect(q, text([('a', u), ('b', v), ('d', w), ('a', w)]), 'five upsert calls on %s' % be)
            q = step(step(ins()), a=u)
            S.expect(q, text([('a', u)]), 'upsert without assignments first on %s' % be)
            if p:
                q = S.m(S.m(ins(), 'on_duplicate_key_update', 'i1', a=u), 'on_duplicate_key_update', 'i2', b=v)
                S.expect(q, text([('a', u), ('b', v)], 'i2'), 'upsert with another target')
                S.m(q, 'on_duplicate_key_update', 'i3')
                S.expect(q, text([('a', u), ('b', v)], 'i3'), 'upsert with another target only')
    yield 'kept/upsert in several calls', upsert

    def insert(S):
        names = NAMES
        for n in (1, 2, 3):
            pairs = [(names[i], S.int('v%d' % i)) for i in range(n)]
            want = cat('INSERT INTO "t" (', join(', ', [S.R(k) for k, v in pairs]), ') VALUES (', join(', ', [S.V(v) for k, v in pairs]), ')')
            for label, calls, _ in forms(pairs, 'pair'):
                cs = calls(S)
                if len(cs) > 1:
                    continue
                q = S.call('insert_into', 't')
                for a, k in cs:
                    q = S.m(q, 'values', *a, **k)
                S.expect(q, want, 'insert values with %s of %d pairs' % (label, n))
        for v in FALSY:
            for pairs in ([('a', v)], [('a', v), ('b', 1)], [('a', v), ('b', v)]):
                want = cat('INSERT INTO "t" (', join(', ', [S.R(k) for k, _ in pairs]), ') VALUES (', join(', ', [S.V(x) for _, x in pairs]), ')')
                for label, calls, _ in forms(pairs, 'pair'):
                    cs = calls(S)
                    if len(cs) == 1:
                        S.expect(S.m(S.call('insert_into', 't'), 'values', *cs[0][0], **cs[0][1]), want, 'insert values with %s of %r' % (label, pairs))
        for k in SETVALS + ['str']:
            v = S.scalar(k, 'x' + k)
            got = S.text(S.m(S.call('insert_into', 't'), 'values', a=v))
            S.expect(got, cat('INSERT INTO "t" ("a") VALUES (', S.V(v), ')'), 'insert of %s' % k)
    yield 'kept/values', insert

    def insert_bad(S):
        t, l = S.tuple, S.list
        for what, a, k in (('one string', ('a',), {}), ('three', ('a', 1, 2), {}), ('short', (l(t('a')),), {}), ('long', (l(t('a', 1, 2)),), {}),
                           ('custom SQL', (S.call('C', 'x'),), {}), ('short after good', (t('a', 1), t('b')), {}), ('value list', (), {'a': l(1)}),
                           ('value dict', (), {'a': S.dict()}), ('value set', (), {'a': S.set(1)}), ('value object', (), {'a': S.opaque()}), ('int column', (1, 2), {})):
            S.expect_raise(lambda: S.m(S.call('insert_into', 't'), 'values', *a, **k), INVALID, what='insert values with ' + what)
    yield 'refused/values', insert_bad

    def joins(S):
        a, b, d = [S.plain(x) for x in 'abd']
        for meth, kw in (('join', 'JOIN'), ('inner_join', 'JOIN'), ('left_join', 'LEFT JOIN'), ('right_join', 'RIGHT JOIN'), ('full_join', 'FULL JOIN')):
            S.call('configure', 'postgresql')
            for arg, tx in ((a, S.R(a)), (S.tuple(a, b), cat(S.R(a), ' AS ', S.R(b))), (S.list(a, b), cat(S.R(a), ' AS ', S.R(b))),
                            (S.dict((a, b)), cat(S.R(a), ' AS ', S.R(b))), (S.tuple(a, None), S.R(a)), (S.tuple(sub(S), b), cat('(', S.text(sub(S)), ') AS ', S.R(b))),
                            (S.dict((sub(S), b)), cat('(', S.text(sub(S)), ') AS ', S.R(b)))):
                q = S.m(S.m(flat(S), meth, arg), 'on', 'x', 'y')
                S.expect(q, cat('SELECT * FROM "t" ', kw, ' ', tx, ' ON "x" = "y"'), '%s' % meth)
            for bad in (S.tuple(), S.tuple(a), S.tuple(a, b, d), S.list(a, b, d), S.dict(), S.dict((a, b), (d, b)), None, 1, True, 1.5, S.set(a), S.tuple(1, b), S.tuple(a, 1),
                        S.tuple(None, a), S.opaque()):
                S.expect_raise(lambda: S.m(flat(S), meth, bad), INVALID, what='%s with a wrong argument' % meth)
    yield 'kept/join', joins

    def notable(S):
        for e in (None, ''):
            S.expect(S.m(S.call('select', 'a'), 'from_', e), 'SELECT "a"', 'from_ without table')
            S.expect(S.m(S.call('select', 'a'), 'from_', e, 'x'), 'SELECT "a" FROM "x"', 'from_ with an empty table and a table')
            S.expect(S.m(S.call('select', 'a'), 'from_', 'x', e, 'y'), 'SELECT "a" FROM "x", "y"', 'from_ with an empty table between')
            S.expect(S.m(S.m(S.call('delete', e), 'from_', 'x'), 'allow_delete_all'), 'DELETE FROM "x"', 'delete without table')
        for meth in ('from_', 'from_tables'):
            for bad in (0, False, S.list(), S.tuple(), 0.0, S.tuple(None, 'x'), S.tuple(None)):
                S.expect_raise(lambda: S.m(S.call('select', 'a'), meth, bad), INVALID, what='%s with a falsy wrong argument' % meth)
        for f in (lambda x: S.call('update', x), lambda x: S.call('insert_into', x), lambda x: S.call('delete', x), lambda x: S.call('delete_from', x)):
            for bad in (0, False, S.list(), 1, 1.5):
                S.expect_raise(lambda: f(bad), INVALID, what='table of wrong type')
        S.expect_raise(lambda: S.m(S.call('select'), 'from_table', None), INVALID, what='from_table(None)')
        S.expect(S.m(S.call('select'), 'from_table', S.plain('a'), S.plain('b')), cat('SELECT * FROM ', S.R(S.plain('a')), ' AS ', S.R(S.plain('b'))), 'from_table')
        S.expect(S.m(S.call('select'), 'from_table', S.plain('a')), cat('SELECT * FROM ', S.R(S.plain('a'))), 'from_table')
        S.expect(S.m(S.m(S.call('delete'), 'from_table', S.plain('a'), S.plain('b')), 'allow_delete_all'), cat('DELETE FROM ', S.R(S.plain('a')), ' AS ', S.R(S.plain('b'))), 'from_table')
    yield 'kept/tables', notable

    def many(S):
        # any number of parts
        for k in sizes(S, 5, 9):
            ps = [('n%02d' % i, S.int('m%d' % i)) for i in range(k)]
            S.expect(S.m(flat(S), 'where', **dict(ps)), cat('SELECT * FROM "t" WHERE ', join(' AND ', [eqc(S, n, v) for n, v in ps])), '%d conditions' % k)
            q = S.call('select', *[n for n, _ in ps])
            S.expect(q, cat('SELECT ', join(', ', [S.R(n) for n, _ in ps])), '%d columns' % k)
            q = S.m(S.m(S.call('update', 't'), 'set', **dict(ps)), 'allow_update_all')
            S.expect(q, cat('UPDATE "t" SET ', join(', ', [eqc(S, n, v) for n, v in ps])), '%d assignments' % k)
            S.expect(S.m(flat(S), 'order_by', *[n for n, _ in ps]), cat('SELECT * FROM "t" ORDER BY ', join(', ', [S.R(n) for n, _ in ps])), '%d orders' % k)
            S.expect(S.call('select_from', *[n for n, _ in ps]), cat('SELECT * FROM ', join(', ', [S.R(n) for n, _ in ps])), '%d tables' % k)
            q = S.call('select_from', 't')
            for n, _ in ps:
                q = S.m(S.m(q, 'left_join', n), 'on', 't.id', n + '.id')
            S.expect(q, cat('SELECT * FROM "t" ', join(' ', [cat('LEFT JOIN ', S.R(n), ' ON ', S.R('t.id'), ' = ', S.R(n + '.id')) for n, _ in ps])), '%d joins' % k)
    yield 'kept/many parts', many

    def outfile(S):
        x, y, z, w = [S.str(k) for k in ('fn', 'ft', 'lt', 'en')]
        o = lambda: S.m(S.call('select_from', 't'), 'into_outfile', x)
        head = cat('SELECT * FROM "t" INTO OUTFILE ', S.V(x))
        parts = {'fields_terminated_by': ' FIELDS TERMINATED BY ', 'lines_terminated_by': ' LINES TERMINATED BY ', 'optionally_enclosed_by': ' OPTIONALLY ENCLOSED BY '}
        for m, kw in parts.items():
            for v in ('', ' ', '0', y):
                S.expect(S.m(o(), m, v), cat(head, kw, S.V(v)), '%s(%r)' % (m, v))
        for ms in itertools.permutations(parts):
            for vs in (('', '', ''), (y, z, w), ('', z, ''), (y, '', '')):
                q = o()
                for m, v in zip(ms, vs):
                    S.m(q, m, v)
                d = dict(zip(ms, vs))
                S.expect(q, cat(head, *[cat(kw, S.V(d[m])) for m, kw in parts.items()]), 'all parts of the outfile')
    yield 'kept/outfile', outfile, {'max_paths': 1500}


def _e(S, n):
    return eqc(S, n, S.int('v' + n))


FORMS_PAIR = sorted({x[0] for n in (1, 2, 3) for x in forms([('k%d' % i, 0) for i in range(n)], 'pair')})
FORMS_ALIAS = sorted({x[0] for n in (1, 2, 3) for x in forms([('k%d' % i, 0) for i in range(n)], 'alias')})
