"""Exponential ambiguity of a regular expression, decided on its automaton.

A backtracking matcher takes exponential time on prefix . pump^n . suffix when
some state can read `pump` and come back to itself along two different paths
while `suffix` makes the attempt fail. `exponential` looks for such a state in
the product (state, state, set of states): the third component is the set of
everything the attempt can be in, so that pumps after which the pattern matches
whatever follows (and no backtracking happens) do not count."""
import re

from .regexlang import C, SIGMA, OTHER, NotRegular, charset, _parse

END = 'end of input'
SEARCH = ('search', 'match', 'split', 'sub', 'subn', 'findall', 'finditer')


class G:
    def __init__(self):
        self.n = 0
        self.eps = {}          # state -> list of states, parallel edges kept
        self.chars = {}        # state -> (charset, state)

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)


def build(g, seq, cur, flags):
    for op, av in seq:
        cs = charset(op, av, flags)
        if cs is not None:
            s, nx = g.new(), g.new()
            g.e(cur, s)
            g.chars[s] = (frozenset(cs), nx)
            cur = nx
        elif op is C.BRANCH:
            nx = g.new()
            for alt in av[1]:
                s = g.new()
                g.e(cur, s)
                g.e(build(g, alt, s, flags), nx)
            cur = nx
        elif op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise NotRegular('inline flags')
            cur = build(g, av[3], cur, flags)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            if lo > 64 or hi is not C.MAXREPEAT and hi > 64:
                raise NotRegular('repeat')
            for _ in range(lo):
                cur = build(g, sub, cur, flags)
            if hi is C.MAXREPEAT:
                s, nx = g.new(), g.new()
                g.e(cur, s)
                g.e(build(g, sub, s, flags), s)
                g.e(s, nx)
                cur = nx
            else:
                nx = g.new()
                for _ in range(hi - lo):
                    g.e(cur, nx)
                    cur = build(g, sub, cur, flags)
                g.e(cur, nx)
                cur = nx
        elif op is C.AT:
            if str(av) in ('AT_END', 'AT_END_STRING'):
                s, nx = g.new(), g.new()
                g.e(cur, s)
                g.chars[s] = (frozenset([END]), nx)
                cur = nx
            else:
                nx = g.new()             # \A, ^, \b, \B: taken as always true
                g.e(cur, nx)
                cur = nx
        else:
            raise NotRegular(str(op))
    return cur


def trails(g, a, final):
    """positions (and the final state) reached from a by epsilon moves, with
    the number of different ways, counted up to 2"""
    out = {}
    budget = [20000]

    def go(x, used):
        budget[0] -= 1
        if budget[0] < 0:
            raise NotRegular('too many ways')
        if x in g.chars or x == final:
            out[x] = min(2, out.get(x, 0) + 1)
        for i, y in enumerate(g.eps.get(x, ())):
            if (x, i) not in used:
                go(y, used | {(x, i)})
    go(a, frozenset())
    return out


def scc(nodes, succ):
    """Tarjan, iterative."""
    index, low, onst, st, out, n = {}, {}, set(), [], [], [0]
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(succ(root)))]
        index[root] = low[root] = n[0]
        n[0] += 1
        st.append(root)
        onst.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    onst.add(w)
                    work.append((w, iter(succ(w))))
                    break
                if w in onst:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
    return out


_memo = {}


def exponential(fn, pattern, flags=0):
    """None, or (prefix, pump, suffix) of strings on which the matching attempt
    at position 0 takes a number of steps exponential in the number of pumps."""
    key = (fn, pattern, flags)
    if key not in _memo:
        _memo[key] = _exponential(fn, pattern, flags)
    return _memo[key]


def _exponential(fn, pattern, flags):
    p = _parse(pattern, flags)
    flags |= p.state.flags & (re.I | re.S | re.M | re.X)
    g = G()
    start = g.new()
    last = build(g, p, start, flags)
    if fn == 'fullmatch':
        s, final = g.new(), g.new()
        g.e(last, s)
        g.chars[s] = (frozenset([END]), final)
    else:
        final = last
    reach = {None: trails(g, start, final)}
    for s, (cs, t) in g.chars.items():
        reach[s] = trails(g, t, final)
    # alphabet classes
    alpha = {}
    for ch in SIGMA + [END]:
        alpha.setdefault(frozenset(s for s, (cs, _) in g.chars.items() if ch in cs), ch)
        # prefer readable representatives
    reps = {}
    for ch in list('abcdefgh019_ .') + SIGMA + [END]:
        k = frozenset(s for s, (cs, _) in g.chars.items() if ch in cs)
        if ch == END:
            continue
        reps.setdefault(k, ch)
    letters = sorted(reps.values())
    step = {s: {ch: reach[s] for ch in letters + [END] if ch in cs} for s, (cs, t) in g.chars.items()}

    def move(D, ch):
        if D == 'yes':
            return 'yes'
        out = set()
        for s in D:
            for y in step[s].get(ch, ()):
                if y == final:
                    return 'yes'
                out.add(y)
        return frozenset(out)
    D0 = 'yes' if final in reach[None] else frozenset(reach[None])
    if D0 == 'yes':
        return None                  # the attempt always succeeds
    # sets from which the attempt can still fail
    dfa = {}
    todo = [D0]
    while todo:
        D = todo.pop()
        if D in dfa:
            continue
        dfa[D] = {ch: move(D, ch) for ch in letters}
        if len(dfa) > 3000:
            raise NotRegular('too many states')
        todo.extend(x for x in dfa[D].values() if x != 'yes' and x not in dfa)
    fail = {D: '' for D in dfa if move(D, END) != 'yes'}
    changed = True
    while changed:
        changed = False
        for D in dfa:
            if D not in fail:
                for ch, x in dfa[D].items():
                    if x in fail:
                        fail[D] = ch + fail[x]
                        changed = True
                        break
    # product
    how = {}
    first = []
    if D0 in fail:
        for s in reach[None]:
            if s != final:
                n = (s, s, D0)
                how.setdefault(n, '')
                first.append(n)
    edges = {}
    todo = list(first)
    while todo:
        n = todo.pop(0)
        if n in edges:
            continue
        a, b, D = n
        es = []
        for ch in letters:
            if ch not in step[a] or ch not in step[b]:
                continue
            E = dfa[D][ch]
            if E == 'yes' or E not in fail:
                continue
            for x, cx in step[a][ch].items():
                for y, cy in step[b][ch].items():
                    if x == final or y == final:
                        continue
                    m = (x, y, E)
                    es.append((ch, m, cx if a == b and x == y else 1))
                    if m not in how:
                        how[m] = how[n] + ch
                        todo.append(m)
        edges[n] = es
        if len(edges) > 60000:
            raise NotRegular('product too large')

    def path(src, dst, comp, must=None):
        """shortest non-empty word from src to dst inside comp"""
        seen = {src: ''}
        q = [src]
        while q:
            n = q.pop(0)
            for ch, m, c in edges[n]:
                if m not in comp:
                    continue
                if m == dst:
                    return seen[n] + ch
                if m not in seen:
                    seen[m] = seen[n] + ch
                    q.append(m)
        return None
    for comp in scc(list(edges), lambda n: [m for _, m, _ in edges[n]]):
        cs = set(comp)
        diag = [n for n in comp if n[0] == n[1]]
        if not diag:
            continue
        off = [n for n in comp if n[0] != n[1]]
        if off:
            d = diag[0]
            w = path(d, off[0], cs)
            v = path(off[0], d, cs)
            if w is not None and v is not None:
                return how[d], w + v, fail[d[2]]
        for n in diag:
            for ch, m, c in edges[n]:
                if c > 1 and m in cs and m[0] == m[1]:
                    back = '' if m == n else path(m, n, cs)
                    if back is not None:
                        return how[n], ch + back, fail[n[2]]
    return None


def steps(fn, pattern, text, flags=0, cap=200000):
    """Number of steps of a plain backtracking search for one attempt at
    position 0 (used to confirm a witness); None when the cap is reached."""
    p = _parse(pattern, flags)
    flags |= p.state.flags & (re.I | re.S | re.M | re.X)
    g = G()
    start = g.new()
    last = build(g, p, start, flags)
    text = list(text) + [END]
    n = 0
    stack = [(start, 0, frozenset())]
    while stack:
        n += 1
        if n > cap:
            return None
        x, i, used = stack.pop()
        if x == last and (fn != 'fullmatch' or text[i:] in ([END], [])):
            return n
        if x in g.chars:
            cs, t = g.chars[x]
            if i < len(text) and text[i] in cs:
                stack.append((t, i + (text[i] != END), frozenset()))
        for k, y in reversed(list(enumerate(g.eps.get(x, ())))):
            if (x, k) not in used:
                stack.append((y, i, used | {(x, k)}))
    return n
