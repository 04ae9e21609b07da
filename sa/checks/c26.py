"""C26: every regular expression the analysed program applies (met by driving the
public API with abstract and constant strings in every role, on every backend)
is free of exponential ambiguity: no state of its automaton can come back to
itself along two paths over one word while the attempt can still fail."""
from .common import *
from .. import redos, relib
from ..regexlang import NotRegular

TECHNIQUE = 'static analysis: patterns collected by abstract interpretation of the source, ambiguity decided on their automata'
NOTE = ('Decides, on the automaton of each regular expression the source applies, whether a backtracking matcher can take exponential time; '
        'polynomial cost and the cost of the rest of the library are not covered.')

STRINGS = ['', 'a', 'a.b', '`q`', '"q"', '`q`.r', '"q".r.s', 'x`y', 'x"y', "it's", 'a b', '*', 'a.*', '%', 'a_1', ' a ', 'a\nb', '(', '1', '-', 'select', 'a,b', 'a AS b', 'a=b']


def roles(S):
    """name -> caller string -> query"""
    return {
        'column': lambda x: S.call('select', x),
        'column alias': lambda x: S.call('select', S.tuple('c', x)),
        'table': lambda x: S.call('select_from', x),
        'table alias': lambda x: S.call('select_from', S.tuple('t', x)),
        'keyword': lambda x: S.m(S.call('select_from', 't'), 'where', S.dict((x, 1))),
        'value': lambda x: S.m(S.call('select_from', 't'), 'where', c=x),
        'like': lambda x: S.m(S.call('select_from', 't'), 'having', c=S.rel('LIKE', x)),
        'in': lambda x: S.m(S.call('select_from', 't'), 'where', c=S.list(x, None)),
        'join': lambda x: S.m(S.m(S.call('select_from', 't'), 'join', x), 'on', x, x),
        'order': lambda x: S.m(S.call('select_from', 't'), 'order_by', S.tuple(x, 'desc')),
        'group': lambda x: S.m(S.call('select_from', 't'), 'group_by', x),
        'insert': lambda x: S.m(S.call('insert_into', x), 'values', S.dict((x, x))),
        'update': lambda x: S.m(S.m(S.call('update', x), 'set', x, x), 'allow_update_all'),
        'delete': lambda x: S.m(S.call('delete_from', x), 'allow_delete_all'),
        'delete tables': lambda x: S.m(S.m(S.call('delete', x), 'from_', x), 'allow_delete_all'),
        'outfile': lambda x: S.m(S.m(S.call('select_from', 't'), 'into_outfile', x), 'fields_terminated_by', x),
        'V': lambda x: S.call('V', x), 'R': lambda x: S.call('R', x), 'C': lambda x: S.call('C', x),
        'count': lambda x: S.call('count', x), 'concat': lambda x: S.call('concat', x, x), 'convert': lambda x: S.call('convert', x, 'char'),
        'convert to': lambda x: S.call('convert', 'c', x),
        'group_concat': lambda x: S.m(S.m(S.call('group_concat', x), 'order_by', x), 'separator', x),
        'upsert': lambda x: S.m(S.m(S.call('insert_into', 't'), 'values', a=x), 'on_duplicate_key_update', a=x),
        'conflict': lambda x: S.m(S.m(S.call('insert_into', 't'), 'values', a=x), 'on_duplicate_key_update', x, a=x),
        'exists': lambda x: S.call('exists', S.call('select_from', x)),
        'union': lambda x: S.op('BitOr', S.call('select', x), S.call('select_from', x)),
    }


def concrete(pat):
    """Constant patterns standing for an abstract one: text that was re.escape()d
    is some literal, other text of the caller can be any expression."""
    if isinstance(pat, str):
        return [pat]
    a, b = [], []
    free = False
    for s in pat.segs:
        if isinstance(s, str):
            a.append(s)
            b.append(s)
        elif isinstance(s, Atom) and (s.kind in ('plain', 'int') and not s.xf or s.xf and s.xf[-1][0] == 're.escape'):
            a.append('x')
            b.append('x')
        elif isinstance(s, Atom) and s.kind == 'str' and not s.xf:
            free = True
            a.append('x')
            b.append('(?:x+)+')
        else:
            return []
    return [''.join(a)] + ([''.join(b) + '$'] if free else [])


def judge(S):
    for (fn, pat, flags), site in list(relib.APPLIED.items()):
        for p in concrete(pat):
            try:
                w = redos.exponential(fn, p, flags)
                bad = w is not None and redos.steps(fn, p, w[0] + w[1] * 40 + w[2], flags) is None
            except NotRegular:
                continue
            S.check(not bad, 'the pattern %r applied by re.%s at %s backtracks exponentially on %r + %r * n + %r' % ((p, fn, site) + (w or ('', '', ''))))


def obligations(tier):
    for be in BACKENDS:
        for role in ROLES:
            def ob(S, be=be, role=role):
                S.configure(be)
                x = S.str('x')
                S.outcome(lambda: S.text(roles(S)[role](x)))
                judge(S)
            yield 'patterns/%s/%s' % (be, role), ob

            def const(S, be=be, role=role):
                S.configure(be)
                for x in STRINGS:
                    r = S.outcome(lambda: roles(S)[role](x))
                    if r[0] == 'ok':
                        S.outcome(lambda: S.text(r[1]))
                judge(S)
            yield 'patterns/%s/%s of constants' % (be, role), const
    for kind in ('select', 'insert', 'update', 'delete', 'union'):
        def has(S, kind=kind):
            q = rich(S, kind)
            for c in ('columns', 'tables', 'where', 'values', 'having', 'order_by', 'limit', 'into_outfile', 'references', 'group_by', 'select_options', 'insert_options', 'update_options', 'delete_options', 'distinct', 'x'):
                S.outcome(lambda: S.m(q, 'has', c))
                for x in ('', 'a', 'a.b', '`q`', '"q"', "it's", 'a b', '*', 'select', '%', 'x.y'):
                    S.outcome(lambda: S.m(q, 'has', c, x))
            judge(S)
        yield 'patterns/has of %s' % kind, has

        def has_any(S, kind=kind):
            q = start(S, kind)
            for c in ('tables', 'where'):
                S.outcome(lambda: S.m(q, 'has', c, S.str('x')))
            judge(S)
        yield 'patterns/has of %s with any text' % kind, has_any

    def names(S):
        for n in ('sql', 'MySQL', 'x', '', S.str('x')):
            S.outcome(lambda: S.call('configure', n))
        judge(S)
    yield 'patterns/configure', names

    def repeat(S):
        q = rich(S, 'select')
        S.repr(q)
        S.eq(q, S.m(q, 'copy'))
        S.eq(q, 'x')
        judge(S)
    yield 'patterns/other operations', repeat


ROLES = ['column', 'column alias', 'table', 'table alias', 'keyword', 'value', 'like', 'in', 'join', 'order', 'group', 'insert', 'update', 'delete', 'delete tables', 'outfile', 'V', 'R', 'C', 'count',
         'concat', 'convert', 'convert to', 'group_concat', 'upsert', 'conflict', 'exists', 'union']
