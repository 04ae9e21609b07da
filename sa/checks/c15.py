"""C15: every sequence of option calls up to the bound against a model with two
exclusive groups; arguments are abstract truth values; the text depends on the
set of options in force only."""
import itertools
from .common import *

GROUP = {'sql_cache': 'cache', 'sql_no_cache': 'cache', 'all': 'dup', 'distinct': 'dup', 'distinctrow': 'dup'}
NAMES = ['sql_cache', 'sql_no_cache', 'all', 'distinct', 'distinctrow', 'sql_small_result', 'sql_big_result', 'sql_buffer_result',
         'sql_calc_found_rows', 'straight_join', 'high_priority', 'for_update']
ON = {(): True, (True,): True, (False,): False, (1,): True, (0,): False, (None,): False, ('x',): True, ('',): False}


def step(state, name, on):
    g = GROUP.get(name, name)
    state = dict(state)
    if on:
        state[g] = name
    else:
        state.pop(g, None)
    return state


def words(state):
    return {n.upper() for n in state.values() if n != 'for_update'}


def check(S, q, state, seen, what):
    t = S.text(q)
    if not isinstance(t, str):
        raise NotDecided('text of options is not constant')
    tail = ' FOR UPDATE' if 'for_update' in state else ''
    end = ' * FROM "t"' + tail
    S.check(t.startswith('SELECT') and t.endswith(end), '%s: renders %s' % (what, t))
    mid = t[len('SELECT'):len(t) - len(end)]
    got = mid.split(' ')[1:]
    want = words(state)
    S.check(len(got) == len(set(got)) and set(got) == want and mid == ''.join(' ' + w for w in got), '%s: renders %s, expected the options %s' % (what, t, sorted(want)))
    key = frozenset(state.values())
    if seen.setdefault(key, t) != t:
        raise Violation('%s: renders %s, but the same options in another order render %s' % (what, t, seen[key]))


def run(S, seq, seen):
    q = S.call('select_from', 't')
    state = {}
    for name, args in seq:
        r = S.m(q, name, *args)
        S.check(r is q, '%s() does not return the query' % name)
        state = step(state, name, ON[args])
    check(S, q, state, seen, ', '.join('%s%r' % (n, a) for n, a in seq) or 'no option')


def obligations(tier):
    for name in NAMES:
        def args(S, name=name):
            seen = {}
            run(S, [], seen)
            for a in ON:
                run(S, [(name, a)], seen)
                for b in ON:
                    run(S, [(name, a), (name, b)], seen)
        yield 'options/%s arguments' % name, args

        def abstract(S, name=name):
            # any integer, any string, any bool decides by its truth
            seen = {}
            for label, v in (('int', S.int('flag')), ('str', S.str('sflag')), ('float', S.num('fflag', 'float'))):
                on = S.ip.truth(v)
                for before in (None, True, False):
                    q = S.call('select_from', 't')
                    if before is not None:
                        S.m(q, name, before)
                    S.m(q, name, v)
                    check(S, q, step({}, name, on), seen, '%s with a %s flag' % (name, label))
        yield 'options/%s with any flag' % name, abstract

        def pairs(S, name=name):
            seen = {}
            for other in NAMES:
                for a, b in itertools.product([(), (False,)], repeat=2):
                    run(S, [(name, a), (other, b)], seen)
                    run(S, [(other, ()), (name, a), (other, b)], seen)
                    run(S, [(name, ()), (other, a), (name, b)], seen)
        yield 'options/%s with every other option' % name, pairs
    dup = [(n, a) for n in ('all', 'distinct', 'distinctrow') for a in ((), (False,))]
    cache = [(n, a) for n in ('sql_cache', 'sql_no_cache') for a in ((), (False,))]
    mixed = [('distinct', ()), ('distinct', (False,)), ('sql_cache', ()), ('sql_no_cache', (False,)), ('high_priority', ()), ('for_update', ()), ('for_update', (False,)), ('all', ())]
    for label, alpha, n in (('duplicates group', dup, 4), ('cache group', cache, 4 if tier == 'quick' else 5), ('mixed', mixed, 3 if tier == 'quick' else 4)):
        seqs = list(itertools.product(alpha, repeat=n))
        for i in range(0, len(seqs), 150):
            def ob(S, chunk=seqs[i:i + 150]):
                seen = {}
                for s in chunk:
                    run(S, s, seen)
            yield 'options/sequences of %d in the %s, %d..' % (n, label, i), ob

    def sets(S):
        # any set of compatible options, in several orders: same text
        rest = NAMES[5:]
        rng = list(itertools.product([None, 'sql_cache', 'sql_no_cache'], [None, 'all', 'distinct', 'distinctrow']))
        for i, (c, d) in enumerate(rng):
            for k in range(0, len(rest) + 1):
                names = [x for x in (c, d) if x] + rest[:k]
                seen = {}
                for o in (names, names[::-1], names[1:] + names[:1], sorted(names)):
                    run(S, [(n, ()) for n in o], seen)
        run(S, [(n, ()) for n in NAMES], {})
        run(S, [(n, ()) for n in NAMES] + [(n, (False,)) for n in NAMES], {})
    yield 'options/sets of options in different orders', sets

    def copies(S):
        seen = {}
        for name in NAMES:
            q = S.m(S.call('select_from', 't'), name)
            c = S.m(q, 'copy')
            S.m(c, name, False)
            check(S, q, {GROUP.get(name, name): name}, seen, '%s on the original' % name)
            check(S, c, {}, seen, '%s off on the copy' % name)
            d = S.m(q, 'copy')
            check(S, d, {GROUP.get(name, name): name}, seen, '%s on a copy' % name)
            S.text(q)
            S.m(q, name, False)
            check(S, q, {}, seen, '%s off after rendering' % name)
    yield 'options/copies', copies

    for kind, mk_, fmt in (('insert', lambda S: S.m(S.call('insert_into', 't'), 'values', a=S.int('i')), lambda S, o: cat('INSERT', o, ' INTO "t" ("a") VALUES (', S.V(S.int('i')), ')')),
                           ('update', lambda S: S.m(S.m(S.call('update', 't'), 'set', a=S.int('i')), 'allow_update_all'), lambda S, o: cat('UPDATE', o, ' "t" SET ', eqc(S, 'a', S.int('i')))),
                           ('delete', lambda S: S.m(S.call('delete_from', 't'), 'where', a=S.int('i')), lambda S, o: cat('DELETE', o, ' FROM "t" WHERE ', eqc(S, 'a', S.int('i'))))):
        def ignore(S, mk_=mk_, fmt=fmt, kind=kind):
            S.expect(mk_(S), fmt(S, ''), kind)
            for seq in [s for n in (1, 2) for s in itertools.product(ON, repeat=n)]:
                q = mk_(S)
                for a in seq:
                    S.check(S.m(q, 'ignore', *a) is q, 'ignore() does not return the query')
                S.expect(q, fmt(S, ' IGNORE' if ON[seq[-1]] else ''), '%s.ignore%s' % (kind, ', '.join(map(repr, seq))))
        yield 'options/ignore of %s' % kind, ignore

        def ignore_any(S, mk_=mk_, fmt=fmt, kind=kind):
            for v in (S.int('flag'), S.str('sflag')):
                on = S.ip.truth(v)
                for before in (None, True, False):
                    q = mk_(S)
                    if before is not None:
                        S.m(q, 'ignore', before)
                    S.m(q, 'ignore', v)
                    S.expect(q, fmt(S, ' IGNORE' if on else ''), '%s.ignore with any flag' % kind)
        yield 'options/ignore of %s with any flag' % kind, ignore_any

    def kwarg(S):
        for name in NAMES:
            seen = {}
            q = S.m(S.call('select_from', 't'), name, allow=True)
            check(S, q, {GROUP.get(name, name): name}, seen, '%s(allow=True)' % name)
            S.m(q, name, allow=False)
            check(S, q, {}, seen, '%s(allow=False)' % name)
    yield 'options/keyword argument', kwarg

    def elsewhere(S):
        # options do not depend on and do not disturb other clauses
        for name in NAMES:
            q = rich(S, 'select')
            S.m(q, 'distinct', False)
            S.m(q, 'for_update', False)
            base = S.text(q)
            S.m(q, name)
            S.m(q, name, False)
            S.expect(q, base, '%s switched on and off' % name)
    yield 'options/on a full select', elsewhere
