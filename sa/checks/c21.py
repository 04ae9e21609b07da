"""C21: every function with every expression type, number of arguments and
sequence of distinct/order_by/separator/to calls, on every backend."""
import itertools
from .common import *

AGG = ['avg', 'count', 'max', 'min', 'sum']


def exprs(S):
    """(label, expression, its text)"""
    s = sub(S)
    u = S.op('BitOr', sub(S), sub(S))
    p, q, r = S.plain('p'), S.plain('q'), S.plain('r')
    out = [
        ('name', p, S.R(p)), ('table.name', cat(p, '.', q), cat(S.R(p), '.', S.R(q))), ('db.table.name', cat(p, '.', q, '.', r), cat(S.R(p), '.', S.R(q), '.', S.R(r))),
        ('C', S.call('C', 'a + b'), 'a + b'), ('R', S.call('R', p), S.R(p)), ('V', S.call('V', 'x'), "'x'"), ('V(1)', S.call('V', 1), '1'),
        ('select', s, cat('(', S.text(s), ')')), ('union', u, cat('(', S.text(u), ')')),
    ]
    for f in AGG:
        out.append((f, S.call(f, 'z'), cat(f.upper(), '(', S.R('z'), ')')))
        out.append((f + '_distinct', S.call(f + '_distinct', 'z'), cat(f.upper(), '(DISTINCT ', S.R('z'), ')')))
    out.append(('concat', S.call('concat', 'z', 'y'), cat('CONCAT(', S.R('z'), ', ', S.R('y'), ')')))
    out.append(('convert', S.call('convert', 'z', 'int'), cat('CONVERT(', S.R('z'), ', INT)')))
    out.append(('group_concat', S.call('group_concat', 'z'), cat('GROUP_CONCAT(', S.R('z'), ')')))
    return out


def used(S, o, t, what):
    """The function renders the same alone and inside of queries."""
    S.expect(o, t, what)
    S.expect(S.call('select', o), cat('SELECT ', t), what + ' as column')
    S.expect(S.call('select', S.tuple(o, 'al')), cat('SELECT ', t, ' AS ', S.R('al')), what + ' as column with alias')
    S.expect(S.m(S.call('select', 1), 'order_by', S.tuple(o, 'desc')), cat('SELECT 1 ORDER BY ', t, ' DESC'), what + ' in order')
    S.expect(S.m(S.call('select', 1), 'having', o, 1), cat('SELECT 1 HAVING ', t, ' = 1'), what + ' as condition column')
    S.expect(S.m(S.call('select', 1), 'where', 'a', o), cat('SELECT 1 WHERE ', S.R('a'), ' = ', t), what + ' as condition value')


def obligations(tier):
    for be in BACKENDS:
        for f in AGG:
            def agg(S, be=be, f=f):
                S.configure(be)
                F = f.upper()
                for l, e, t in exprs(S):
                    used(S, S.call(f, e), cat(F, '(', t, ')'), '%s(%s)' % (f, l))
                    used(S, S.call(f + '_distinct', e), cat(F, '(DISTINCT ', t, ')'), '%s_distinct(%s)' % (f, l))
            yield 'aggregate/%s/%s' % (f, be), agg

            def seqs(S, be=be, f=f):
                S.configure(be)
                F = f.upper()
                steps = [((), True), ((True,), True), ((False,), False), ((1,), True), ((0,), False), ((None,), False)]
                p = S.plain('p')
                for first in (f, f + '_distinct'):
                    for n in (1, 2, 3) if tier == 'thorough' else (1, 2):
                        for st in itertools.product(steps, repeat=n):
                            o = S.call(first, p)
                            for a, on in st:
                                r = S.m(o, 'distinct', *a)
                                S.check(r is o, 'distinct() does not return the function')
                                S.expect(o, cat(F, '(', 'DISTINCT ' if on else '', S.R(p), ')'), '%s and distinct calls %s' % (first, [x[0] for x in st]))
                # no sharing
                a, b = S.call(f, p), S.call(f, p)
                S.m(a, 'distinct')
                S.expect(b, cat(F, '(', S.R(p), ')'), 'another %s' % f)
                c = S.m(a, 'copy')
                S.m(c, 'distinct', False)
                S.expect(a, cat(F, '(DISTINCT ', S.R(p), ')'), 'original after a change of the copy')
                S.expect(c, cat(F, '(', S.R(p), ')'), 'copy')
            yield 'distinct/%s/%s' % (f, be), seqs

            def lists(S, be=be, f=f):
                S.configure(be)
                F = f.upper()
                p, q, r = S.plain('p'), S.plain('q'), S.plain('r')
                k = S.call('C', 'k')
                for items, tx in (((p,), [S.R(p)]), ((p, q), [S.R(p), S.R(q)]), ((p, q, r), [S.R(p), S.R(q), S.R(r)]), ((r, k, p), [S.R(r), 'k', S.R(p)]), ((p, p), [S.R(p), S.R(p)])):
                    for mk_ in (S.list, S.tuple):
                        S.expect(S.call(f, mk_(*items)), cat(F, '(', join(', ', tx), ')'), '%s of %d columns' % (f, len(items)))
                        S.expect(S.call(f + '_distinct', mk_(*items)), cat(F, '(DISTINCT ', join(', ', tx), ')'), '%s_distinct of %d columns' % (f, len(items)))
            yield 'lists/%s/%s' % (f, be), lists

        def any_(S, be=be):
            S.configure(be)
            s = S.nstr('s')
            if S.ip.truth(S.ip.compare('Eq', s, '*')):
                return
            for f in AGG:
                S.expect(S.call(f, s), cat(f.upper(), '(', S.R(s), ')'), '%s of any name' % f)
                S.expect(S.call(f + '_distinct', s), cat(f.upper(), '(DISTINCT ', S.R(s), ')'), '%s_distinct of any name' % f)
            S.expect(S.call('convert', s, 'int'), cat('CONVERT(', S.R(s), ', INT)'), 'convert of any name')
            S.expect(S.call('concat', s, 'x'), cat('CONCAT(', S.R(s), ', ', S.R('x'), ')'), 'concat of any name')
            S.expect(S.call('group_concat', s), cat('GROUP_CONCAT(', S.R(s), ')'), 'group_concat of any name')
        yield 'any name/%s' % be, any_

        def star(S, be=be):
            S.configure(be)
            for o in (S.call('count'), S.call('count', None), S.call('count', '*')):
                used(S, o, 'COUNT(*)', 'count without expression')
                S.expect(S.m(o, 'distinct'), 'COUNT(DISTINCT *)', 'count without expression, distinct')
                S.expect(S.m(o, 'distinct', False), 'COUNT(*)', 'count without expression, not distinct')
            for o in (S.call('count_distinct'), S.call('count_distinct', '*')):
                S.expect(o, 'COUNT(DISTINCT *)', 'count_distinct without expression')
            S.expect(S.call('count', 't.*'), cat('COUNT(', S.R('t'), '.*)'), 'count of all columns of a table')
        yield 'count without expression/%s' % be, star

        for f in ('concat', 'group_concat'):
            def conc(S, be=be, f=f):
                S.configure(be)
                F = f.upper()
                es = exprs(S)
                for l, e, t in es:
                    used(S, S.call(f, e), cat(F, '(', t, ')'), '%s(%s)' % (f, l))
                    used(S, S.call(f, 'k', e, 'm'), cat(F, '(', S.R('k'), ', ', t, ', ', S.R('m'), ')'), '%s(k, %s, m)' % (f, l))
                for n in (2, 3, 5):
                    ps = [S.plain('c%d' % i) for i in range(n)]
                    for perm in list(itertools.permutations(ps))[:24]:
                        S.expect(S.call(f, *perm), cat(F, '(', join(', ', [S.R(p) for p in perm]), ')'), '%s of %d columns' % (f, n))
                p, q, v = S.plain('p'), S.plain('q'), S.call('V', ' ')
                for args in ((p, p), (p, q, p), (p, v, q, v, p), (v, v), (S.call('C', 'x'), S.call('C', 'x')), (sub(S), sub(S)), (p, S.call('R', p)), (p, p, p, q, q)):
                    tx = [cat('(', S.text(x), ')') if isinstance(x, PyObj) and x.cls.name == 'Select' else S.text(x) if isinstance(x, PyObj) else S.R(x) for x in args]
                    S.expect(S.call(f, *args), cat(F, '(', join(', ', tx), ')'), '%s with a repeated argument' % f)
                S.expect_raise(lambda: S.call(f), INVALID, what='%s()' % f)
                for bad in (None, 1.5, True, False, b'x', S.opaque(), S.set('x'), S.scalar('date', 'd')):
                    S.expect_raise(lambda: S.call(f, 'x', bad), INVALID, what='%s with a wrong type' % f)
            yield '%s/%s' % (f, be), conc

        def gc(S, be=be):
            S.configure(be)
            p, o, w = S.plain('p'), S.plain('o'), S.plain('w')
            s, s2 = S.str('s'), S.str('s2')
            head = cat('GROUP_CONCAT(', S.R(p))
            SEP = {'separator(any)': (s, S.V(s)), 'separator(other)': (s2, S.V(s2)), 'separator()': ('', "''"), 'separator(space)': (' ', "' '"), "separator(quote)": ("'", "''''"), 'separator(newline)': ('\n', "'\\n'"), 'separator(0)': ('0', "'0'"), 'separator(comma)': (',', "','")}
            ORD = {'order_by(o)': (('order_by', (o,)), [(o, '')]), 'order_by(o desc)': (('order_by', (S.tuple(o, 'desc'),)), [(o, ' DESC')]), 'order_by(w, o)': (('order_by', (w, o)), [(w, ''), (o, '')]), 'order_by(w asc)': (('order_by', (S.tuple(w, 'ASC'),)), [(w, '')])}
            for n1, (v1, t1) in SEP.items():
                for n2, ((m, a), cols) in ORD.items():
                    want = cat(head, ' ORDER BY ', join(', ', [cat(S.R(c), d) for c, d in cols]), ' SEPARATOR ', t1, ')')
                    for first in (0, 1):
                        g = S.call('group_concat', p)
                        for k in ((0, 1) if first else (1, 0)):
                            r = S.m(g, m, *a) if k else S.m(g, 'separator', v1)
                            S.check(r is g, 'group_concat builder does not return the function')
                        S.expect(g, want, 'group_concat with %s and %s' % (n1, n2))
                for n2, (v2, t2) in SEP.items():
                    S.expect(S.m(S.m(S.call('group_concat', p), 'separator', v1), 'separator', v2), cat(head, ' SEPARATOR ', t2, ')'), '%s then %s' % (n1, n2))
            for n1, ((m, a), cols) in ORD.items():
                S.expect(S.m(S.call('group_concat', p), m, *a), cat(head, ' ORDER BY ', join(', ', [cat(S.R(c), d) for c, d in cols]), ')'), n1)
            S.expect(S.m(S.m(S.call('group_concat', p), 'order_by', o), 'order_by', S.tuple(w, 'desc')), cat(head, ' ORDER BY ', S.R(o), ', ', S.R(w), ' DESC)'), 'order_by twice')
            S.expect(S.m(S.m(S.call('group_concat', p), 'order_by', o), 'order_by', S.tuple(o, 'desc')), cat(head, ' ORDER BY ', S.R(o), ' DESC)'), 'order_by replaced')
            S.expect(S.m(S.call('group_concat', p, o), 'separator', s), cat('GROUP_CONCAT(', S.R(p), ', ', S.R(o), ' SEPARATOR ', S.V(s), ')'), 'more columns')
            S.expect(S.m(S.call('group_concat', S.call('C', 'x + 1')), 'order_by', S.call('C', 'y + 1')), 'GROUP_CONCAT(x + 1 ORDER BY y + 1)', 'custom SQL')
            # no sharing
            g = S.m(S.m(S.call('group_concat', p), 'order_by', o), 'separator', s)
            h = S.m(g, 'copy')
            S.m(S.m(h, 'order_by', w), 'separator', '-')
            S.expect(g, cat(head, ' ORDER BY ', S.R(o), ' SEPARATOR ', S.V(s), ')'), 'original after a change of the copy')
            S.expect(h, cat(head, ' ORDER BY ', S.R(o), ', ', S.R(w), " SEPARATOR '-')"), 'copy')
            S.expect(S.call('group_concat', p), cat(head, ')'), 'another group_concat')
            used(S, g, cat(head, ' ORDER BY ', S.R(o), ' SEPARATOR ', S.V(s), ')'), 'group_concat')
        yield 'group_concat calls/%s' % be, gc

        def conv(S, be=be):
            S.configure(be)
            types = ['unsigned', 'Signed', 'CHAR', 'char(10)', 'decimal(10, 2)', 'binary', 'date', 'dateTime', 'sıgned', 'x']
            for l, e, t in exprs(S):
                used(S, S.call('convert', e, 'unsigned'), cat('CONVERT(', t, ', UNSIGNED)'), 'convert(%s, unsigned)' % l)
                S.expect(S.m(S.call('convert', e), 'to', 'char(5)'), cat('CONVERT(', t, ', CHAR(5))'), 'convert(%s).to(char(5))' % l)
            p = S.plain('p')
            for ty in types:
                want = cat('CONVERT(', S.R(p), ', ', ty.upper(), ')')
                S.expect(S.call('convert', p, ty), want, 'convert to %s' % ty)
                S.expect(S.call('convert', p, type_=ty), want, 'convert to %s' % ty)
                S.expect(S.m(S.call('convert', p), 'to', ty), want, 'convert().to(%s)' % ty)
                for t2 in types[:4]:
                    c = S.call('convert', p, t2)
                    S.check(S.m(c, 'to', ty) is c, 'to() does not return the function')
                    S.expect(c, want, 'convert to %s, then to %s' % (t2, ty))
            c = S.call('convert', p, 'char')
            d = S.m(S.m(c, 'copy'), 'to', 'int')
            S.expect(c, cat('CONVERT(', S.R(p), ', CHAR)'), 'original after a change of the copy')
            S.expect(d, cat('CONVERT(', S.R(p), ', INT)'), 'copy')
        yield 'convert/%s' % be, conv

    def anytype(S):
        t = S.nstr('t')
        up = S.m(t, 'upper') if False else S.ip.call(S.ip.getattr(t, 'upper'), [])
        S.expect(S.call('convert', 'x', t), cat('CONVERT("x", ', up, ')'), 'convert to any type')
        S.expect(S.m(S.call('convert', 'x'), 'to', t), cat('CONVERT("x", ', up, ')'), 'convert().to() any type')
    yield 'convert/any type', anytype

    def nest(S):
        # functions of functions
        p = S.plain('p')
        fs = [(f, lambda x, f=f: S.call(f, x), lambda t, f=f: cat(f.upper(), '(', t, ')')) for f in AGG]
        fs += [(f + '_distinct', lambda x, f=f: S.call(f + '_distinct', x), lambda t, f=f: cat(f.upper(), '(DISTINCT ', t, ')')) for f in AGG]
        fs += [('concat', lambda x: S.call('concat', x, 'y'), lambda t: cat('CONCAT(', t, ', "y")')), ('group_concat', lambda x: S.m(S.call('group_concat', x), 'separator', '-'), lambda t: cat('GROUP_CONCAT(', t, " SEPARATOR '-')")),
               ('convert', lambda x: S.call('convert', x, 'int'), lambda t: cat('CONVERT(', t, ', INT)'))]
        for n1, f1, t1 in fs:
            for n2, f2, t2 in fs:
                S.expect(f1(f2(p)), t1(t2(S.R(p))), '%s of %s' % (n1, n2))
                if n1 in ('count', 'concat', 'convert'):
                    for n3, f3, t3 in fs:
                        S.expect(f1(f2(f3(p))), t1(t2(t3(S.R(p)))), '%s of %s of %s' % (n1, n2, n3))
    yield 'nested', nest
