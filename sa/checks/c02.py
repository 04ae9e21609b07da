"""C02: a string given as a value renders as the escaped literal, on every
partition; the partition that renders a reference instead contains only strings
written as quoted identifiers (regular language inclusion), and every value sink
renders exactly what V() renders."""
from .. import regexlang as L
from .common import *
from .strspec import *


def core(backend, how='V'):
    def ob(S):
        S.configure(backend)
        q = QUOTE[backend]
        x = S.str('x')
        if S.constant:
            S.expect(S.V(x), spec_value(x, q), 'V(%r) on %s' % (x, backend))
            return
        S.precise()
        t = S.V(x)
        dom = path_lang(S, 'x')
        ref = L.strip_preimage(L.lang('fullmatch', ref_pattern(q)))
        if S.same(t, literal(x)):
            w = L.disjoint(dom, ref)
            if w is not None:
                S.hint('x', w)
                raise Violation('on %s a quoted identifier such as %r renders as a literal' % (backend, w))
        else:
            want = S.R(S.m(x, 'strip'))
            if not S.same(t, want):
                want = S.R(x)
                bad = L.disjoint(dom, L.boolop(ref, L.lang('fullmatch', '\\S+(?:[\\s\\S]*\\S)?'), lambda a, b: a and not b))
                if bad is not None or not S.same(t, want):
                    S.terms = (S.norm(t),)
                    raise Violation('on %s V(x) renders %s, neither the escaped literal nor the reference' % (backend, show(S.norm(t))))
            w = L.subset(dom, ref)
            if w is not None:
                S.hint('x', w)
                raise Violation('on %s the string %r, no quoted identifier, renders as a reference' % (backend, w))
    return ob


def V2(S, x):
    return S.V(x)


# every value sink: S, x -> (object, spec text)
SINKS = {}


def sink(name):
    def deco(f):
        SINKS[name] = f
        return f
    return deco


RELS = [('EQ', '='), ('NE', '!='), ('GT', '>'), ('GE', '>='), ('LT', '<'), ('LE', '<='), ('LIKE', 'LIKE'), ('NOT_LIKE', 'NOT LIKE'),
        ('REGEXP', 'REGEXP')]
for _n, _o in RELS:
    def _f(S, x, _n=_n, _o=_o):
        return S.m(S.call('select_from', 't'), 'where', c=S.rel(_n, x)), cat('SELECT * FROM ', S.R('t'), ' WHERE ', S.R('c'), ' ', _o, ' ', S.V(x))
    SINKS['where(c=%s(x))' % _n] = _f


def clause(build, spec):
    return lambda S, x: (build(S, x), spec(S, x))


def sel(S):
    return S.call('select_from', 't')


def head(S):
    return cat('SELECT * FROM ', S.R('t'))


@sink('where(c=x)')
def _(S, x):
    return S.m(sel(S), 'where', c=x), cat(head(S), ' WHERE ', eqc(S, 'c', x))


@sink('where(dict)')
def _(S, x):
    return S.m(sel(S), 'where', S.dict(('c', x))), cat(head(S), ' WHERE ', eqc(S, 'c', x))


@sink('where(pair)')
def _(S, x):
    return S.m(sel(S), 'where', 'c', x), cat(head(S), ' WHERE ', eqc(S, 'c', x))


@sink('where(list of pairs)')
def _(S, x):
    return S.m(sel(S), 'where', S.list(S.tuple('c', x))), cat(head(S), ' WHERE ', eqc(S, 'c', x))


@sink('where(Q)')
def _(S, x):
    return S.m(sel(S), 'where', S.op('BitOr', S.call('Q', c=x), S.call('Q', d=1))), cat(head(S), ' WHERE (', eqc(S, 'c', x), ' OR ', eqc(S, 'd', 1), ')')


@sink('where(Not)')
def _(S, x):
    return S.m(sel(S), 'where', S.call('Not', c=x)), cat(head(S), ' WHERE NOT(', eqc(S, 'c', x), ')')


@sink('having(c=x)')
def _(S, x):
    return S.m(sel(S), 'having', c=x), cat(head(S), ' HAVING ', eqc(S, 'c', x))


@sink('having(LIKE)')
def _(S, x):
    return S.m(sel(S), 'having', c=S.rel('LIKE', x)), cat(head(S), ' HAVING ', cond(S, 'c', 'LIKE', x))


@sink('on(c, V(x))')
def _(S, x):
    return S.chain(sel(S), ('join', 'u'), ('on', ('c', S.call('V', x)))), cat(head(S), ' JOIN ', S.R('u'), ' ON ', eqc(S, 'c', x))


@sink('on(c, [x])')
def _(S, x):
    return S.chain(sel(S), ('join', 'u'), ('on', ('c', S.list(x, 'k')))), cat(head(S), ' JOIN ', S.R('u'), ' ON ', S.R('c'), ' IN (', S.V(x), ', ', S.V('k'), ')')


for _k in ('list', 'tuple', 'gen'):
    def _f(S, x, _k=_k):
        return S.m(sel(S), 'where', c=getattr(S, _k)(1, x)), cat(head(S), ' WHERE ', S.R('c'), ' IN (1, ', S.V(x), ')')
    SINKS['where(c=%s of x)' % _k] = _f

    def _f(S, x, _k=_k):
        return S.call('V', getattr(S, _k)(x, 2)), cat('(', S.V(x), ', 2)')
    SINKS['V(%s of x)' % _k] = _f


@sink('IN(x, 1)')
def _(S, x):
    return S.m(sel(S), 'where', c=S.rel('IN', x, 1)), cat(head(S), ' WHERE ', S.R('c'), ' IN (', S.V(x), ', 1)')


@sink('IN([x])')
def _(S, x):
    return S.m(sel(S), 'where', c=S.rel('IN', S.list(x))), cat(head(S), ' WHERE ', S.R('c'), ' IN (', S.V(x), ')')


@sink('IN([x, None])')
def _(S, x):
    return S.m(sel(S), 'where', c=S.rel('IN', S.list(x, None))), cat(head(S), ' WHERE (', S.R('c'), ' IN (', S.V(x), ') OR ', S.R('c'), ' IS NULL)')


@sink('NOT_IN([1, x])')
def _(S, x):
    return S.m(sel(S), 'where', c=S.rel('NOT_IN', S.list(1, x))), cat(head(S), ' WHERE ', S.R('c'), ' NOT IN (1, ', S.V(x), ')')


@sink('NOT_IN(None, x)')
def _(S, x):
    return S.m(sel(S), 'where', c=S.rel('NOT_IN', None, x)), cat(head(S), ' WHERE (', S.R('c'), ' NOT IN (', S.V(x), ') AND ', S.R('c'), ' IS NOT NULL)')


@sink('V(set)')
def _(S, x):
    return S.call('V', S.set(x)), cat('(', S.V(x), ')')


@sink('V(frozenset)')
def _(S, x):
    return S.call('V', S.set(x, kind='frozenset')), cat('(', S.V(x), ')')


@sink('V(nested list)')
def _(S, x):
    return S.call('V', S.list(S.tuple(x, 1), S.tuple(2, x))), cat('((', S.V(x), ', 1), (2, ', S.V(x), '))')


@sink('V(V(x))')
def _(S, x):
    return S.call('V', S.call('V', x)), S.V(x)


@sink('R(V(x))')
def _(S, x):
    return S.call('R', S.call('V', x)), S.V(x)


@sink('column V(x)')
def _(S, x):
    return S.m(S.call('select', S.call('V', x)), 'from_', 't'), cat('SELECT ', S.V(x), ' FROM ', S.R('t'))


@sink('function argument V(x)')
def _(S, x):
    return S.call('max', S.call('V', x)), cat('MAX(', S.V(x), ')')


@sink('concat argument V(x)')
def _(S, x):
    return S.call('concat', 'a', S.call('V', x)), cat('CONCAT(', S.R('a'), ', ', S.V(x), ')')


@sink('update.set(a=x)')
def _(S, x):
    return S.chain(S.call('update', 't'), ('set', (), {'a': x}), 'allow_update_all'), cat('UPDATE ', S.R('t'), ' SET ', eqc(S, 'a', x))


@sink('update.set(dict)')
def _(S, x):
    return S.chain(S.call('update', 't'), ('set', (S.dict(('a', x), ('b', 1)),)), 'allow_update_all'), cat('UPDATE ', S.R('t'), ' SET ', eqc(S, 'a', x), ', ', eqc(S, 'b', 1))


@sink('update.set(pair)')
def _(S, x):
    return S.chain(S.call('update', 't'), ('set', ('a', x)), 'allow_update_all'), cat('UPDATE ', S.R('t'), ' SET ', eqc(S, 'a', x))


@sink('update.where')
def _(S, x):
    return S.chain(S.call('update', 't'), ('set', ('a', 1)), ('where', (), {'c': x})), cat('UPDATE ', S.R('t'), ' SET ', eqc(S, 'a', 1), ' WHERE ', eqc(S, 'c', x))


@sink('delete.where')
def _(S, x):
    return S.chain(S.call('delete_from', 't'), ('where', (), {'c': x})), cat('DELETE FROM ', S.R('t'), ' WHERE ', eqc(S, 'c', x))


@sink('insert.values')
def _(S, x):
    return S.chain(S.call('insert_into', 't'), ('values', (), {'a': x, 'b': 2})), cat('INSERT INTO ', S.R('t'), ' (', S.R('a'), ', ', S.R('b'), ') VALUES (', S.V(x), ', 2)')


@sink('insert.values second row')
def _(S, x):
    return (S.chain(S.call('insert_into', 't'), ('values', (), {'a': 1}), ('values', (S.dict(('b', x)),))),
            cat('INSERT INTO ', S.R('t'), ' (', S.R('a'), ', ', S.R('b'), ') VALUES (1, NULL), (NULL, ', S.V(x), ')'))


@sink('into_outfile')
def _(S, x):
    return S.m(sel(S), 'into_outfile', x), cat(head(S), ' INTO OUTFILE ', S.V(x))


for _m, _k in (('fields_terminated_by', 'FIELDS TERMINATED BY'), ('lines_terminated_by', 'LINES TERMINATED BY'), ('optionally_enclosed_by', 'OPTIONALLY ENCLOSED BY')):
    def _f(S, x, _m=_m, _k=_k):
        return S.chain(sel(S), ('into_outfile', 'f'), (_m, x)), cat(head(S), ' INTO OUTFILE ', S.V('f'), ' ', _k, ' ', S.V(x))
    SINKS[_m] = _f


@sink('group_concat.separator')
def _(S, x):
    return S.chain(S.call('group_concat', 'c'), ('separator', x)), cat('GROUP_CONCAT(', S.R('c'), ' SEPARATOR ', S.V(x), ')')


@sink('subselect')
def _(S, x):
    return S.m(sel(S), 'where', c=S.m(sub(S), 'where', d=x)), cat(head(S), ' WHERE ', S.R('c'), ' = (', S.text(sub(S)), ' WHERE ', eqc(S, 'd', x), ')')


@sink('union')
def _(S, x):
    return S.op('BitOr', S.m(sel(S), 'where', c=x), sel(S)), cat(head(S), ' WHERE ', eqc(S, 'c', x), ' UNION ', head(S))


@sink('exists')
def _(S, x):
    return S.m(sel(S), 'where', S.call('exists', S.m(sub(S), 'where', d=x))), cat(head(S), ' WHERE EXISTS(', S.text(sub(S)), ' WHERE ', eqc(S, 'd', x), ')')


@sink('two values')
def _(S, x):
    y = S.str('y')
    return S.m(sel(S), 'where', c=x, d=y), cat(head(S), ' WHERE ', eqc(S, 'c', x), ' AND ', eqc(S, 'd', y))


@sink('repr')
def _(S, x):
    return S.repr(S.m(sel(S), 'where', c=x)), cat('<Select: ', head(S), ' WHERE ', eqc(S, 'c', x), '>')


UPSERTS = {
    'mysql': (lambda S, x: ('on_duplicate_key_update', (), {'u': x}), lambda S, x: cat(' ON DUPLICATE KEY UPDATE ', eqc(S, 'u', x))),
    'postgresql': (lambda S, x: ('on_duplicate_key_update', ('id',), {'u': x}), lambda S, x: cat(' ON CONFLICT (', S.R('id'), ') DO UPDATE ', eqc(S, 'u', x))),
}

BAD = {
    'object': lambda S: S.opaque(),
    'dict': lambda S: S.dict(('a', 1)),
    'empty dict': lambda S: S.dict(),
    'complex': lambda S: 1j,
    'class': lambda S: S.ip.builtins['str'],
    'function': lambda S: S.fn('select'),
    'module': lambda S: S.sp,
    'exception': lambda S: S.ip.call(S.ip.builtins['ValueError'], ['x']),
    'iterator': lambda S: S.ip.call(S.ip.builtins['iter'], [S.list('a')]),
}


def obligations(tier):
    for b in BACKENDS:
        yield 'literal/%s/V(any string)' % b, core(b), {'max_paths': 3000}

        def plain(S, b=b):
            S.configure(b)
            x = S.plain('p')
            S.expect(S.V(x), cat("'", x, "'"), 'V(identifier)')
            for n in (0, 1, 2, 3):
                v = ["ab'", '\\', "\n'", "''\\\\"][n]
                S.expect(S.V(v), spec_literal(v), 'V(%r)' % v)
        yield 'literal/%s/constants' % b, plain

        def subclass(S, b=b):
            # instances of a caller's subclass of str are strings
            S.configure(b)
            for v in ("it's", 'a\\', '\n', 'abc', '', "'; DROP", 'a.b', '"a', '`a'):
                x = lambda: S.sub('str', v)
                l = spec_literal(v)
                S.expect(S.V(x()), l, 'V(subclass of str %r)' % v)
                S.expect(S.V(S.list(x(), x())), cat('(', l, ', ', l, ')'), 'V([subclass of str %r])' % v)
                S.expect(S.m(sel(S), 'where', c=x()), cat('SELECT * FROM ', S.R('t'), ' WHERE ', S.R('c'), ' = ', l), 'where')
                S.expect(S.m(sel(S), 'where', c=S.rel('LIKE', x())), cat('SELECT * FROM ', S.R('t'), ' WHERE ', S.R('c'), ' LIKE ', l), 'LIKE')
                S.expect(S.m(S.call('insert_into', 't'), 'values', a=x()), cat('INSERT INTO ', S.R('t'), ' (', S.R('a'), ') VALUES (', l, ')'), 'values')
                S.expect(S.m(S.call('group_concat', 'c'), 'separator', x()), cat('GROUP_CONCAT(', S.R('c'), ' SEPARATOR ', l, ')'), 'separator')
        yield 'literal/%s/subclass of str' % b, subclass
        for name, f in SINKS.items():
            def ob(S, b=b, f=f, name=name):
                S.configure(b)
                x = S.str('x')
                got = S.text(f(S, x)[0])
                S.expect(got, f(S, x)[1], '%s on %s' % (name, b))
            yield 'sink/%s/%s' % (b, name), ob
        if b in UPSERTS:
            def ob(S, b=b):
                S.configure(b)
                x = S.str('x')
                q = S.chain(S.call('insert_into', 't'), ('values', (), {'a': 1}), UPSERTS[b][0](S, x))
                S.expect(q, cat('INSERT INTO ', S.R('t'), ' (', S.R('a'), ') VALUES (1)', UPSERTS[b][1](S, x)), 'upsert value on %s' % b)
            yield 'sink/%s/on_duplicate_key_update' % b, ob
    for name, f in BAD.items():
        def ob(S, f=f, name=name):
            for b in BACKENDS:
                S.call('configure', b)
                S.expect_raise(lambda: S.V(f(S)), INVALID, what='V(%s) on %s' % (name, b))
                S.expect_raise(lambda: S.V(S.list(1, f(S))), INVALID, what='V([%s]) on %s' % (name, b))
                S.expect_raise(lambda: S.text(S.m(sel(S), 'where', c=S.list(f(S)))), INVALID, what='where in (%s) on %s' % (name, b))
                S.expect_raise(lambda: S.text(S.m(sel(S), 'where', c=f(S))), INVALID, what='where %s on %s' % (name, b))
                S.expect_raise(lambda: S.text(S.m(S.call('insert_into', 't'), 'values', a=f(S))), INVALID, what='insert %s on %s' % (name, b))
        yield 'unknown type/%s is refused' % name, ob
