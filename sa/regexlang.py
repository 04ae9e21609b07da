"""Regular languages of Python `re` patterns over ASCII + one symbol for every
other character: compilation to automata, inclusion, equivalence, images under
character homomorphisms."""
import warnings
import re
from functools import lru_cache

try:
    from re import _parser as sre_parse, _constants as C
except ImportError:            # pragma: no cover
    import sre_parse
    import sre_constants as C

OTHER = '\u20ac'                       # stands for every non-ASCII character
SIGMA = [chr(i) for i in range(128)] + [OTHER]


class NotRegular(Exception):
    pass


class NFA:
    def __init__(self):
        self.n = 0
        self.eps = {}
        self.tr = {}

    def state(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)

    def t(self, a, chars, b):
        self.tr.setdefault(a, []).append((frozenset(chars), b))


def _cat(cat):
    name = str(cat)
    table = {
        'CATEGORY_DIGIT': r'\d', 'CATEGORY_NOT_DIGIT': r'\D', 'CATEGORY_SPACE': r'\s',
        'CATEGORY_NOT_SPACE': r'\S', 'CATEGORY_WORD': r'\w', 'CATEGORY_NOT_WORD': r'\W'}
    if name not in table:
        raise NotRegular(name)
    r = re.compile(table[name])
    s = {c for c in SIGMA[:-1] if r.match(c)}
    if 'NOT' in name:
        s.add(OTHER)
    elif name == 'CATEGORY_WORD':
        s.add(OTHER)
    return s


def _in(items):
    neg = False
    s = set()
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            s.add(chr(av) if av < 128 else OTHER)
        elif op is C.RANGE:
            for i in range(av[0], min(av[1], 127) + 1):
                s.add(chr(i))
            if av[1] > 127:
                s.add(OTHER)
        elif op is C.CATEGORY:
            s |= _cat(av)
        else:
            raise NotRegular(str(op))
    return set(SIGMA) - s if neg else s


def charset(op, av, flags):
    if op is C.LITERAL:
        s = {chr(av) if av < 128 else OTHER}
    elif op is C.NOT_LITERAL:
        s = set(SIGMA) - {chr(av)}
    elif op is C.ANY:
        s = set(SIGMA) if flags & re.DOTALL else set(SIGMA) - {'\n'}
    elif op is C.IN:
        s = _in(av)
    else:
        return None
    if flags & re.IGNORECASE:
        s = s | {c.lower() for c in s} | {c.upper() for c in s}
    return s


def _build(nfa, seq, start, flags):
    """Returns list of (state, force_end) – end states of the sequence."""
    cur = start
    items = list(seq)
    for i, (op, av) in enumerate(items):
        cs = charset(op, av, flags)
        if cs is not None:
            nx = nfa.state()
            nfa.t(cur, cs, nx)
            cur = nx
        elif op is C.BRANCH:
            nx = nfa.state()
            for alt in av[1]:
                s = nfa.state()
                nfa.e(cur, s)
                nfa.e(_build(nfa, alt, s, flags), nx)
            cur = nx
        elif op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise NotRegular('inline flags')
            cur = _build(nfa, av[3], cur, flags)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT) or str(op) == 'POSSESSIVE_REPEAT':
            lo, hi, sub = av
            if lo > 64:
                raise NotRegular('repeat')
            for _ in range(lo):
                cur = _build(nfa, sub, cur, flags)
            if hi is C.MAXREPEAT:
                s = nfa.state()
                nfa.e(cur, s)
                e = _build(nfa, sub, s, flags)
                nfa.e(e, s)
                nx = nfa.state()
                nfa.e(s, nx)
                cur = nx
            else:
                if hi > 64:
                    raise NotRegular('repeat')
                ends = [cur]
                for _ in range(hi - lo):
                    cur = _build(nfa, sub, cur, flags)
                    ends.append(cur)
                nx = nfa.state()
                for e in ends:
                    nfa.e(e, nx)
                cur = nx
        elif str(op) == 'ATOMIC_GROUP':
            cur = _build(nfa, av, cur, flags)
        else:
            raise NotRegular(str(op))
    return cur


class DFA:
    def __init__(self, trans, start, final):
        self.trans, self.start, self.final = trans, start, final   # trans: list of dict char->state (total)

    def accepts(self, s):
        q = self.start
        for c in s:
            q = self.trans[q][c if ord(c) < 128 else OTHER]
        return q in self.final


def determinise(nfa, start, finals):
    def close(S):
        st = list(S)
        S = set(S)
        while st:
            x = st.pop()
            for y in nfa.eps.get(x, ()):
                if y not in S:
                    S.add(y)
                    st.append(y)
        return frozenset(S)
    s0 = close({start})
    idx = {s0: 0}
    order = [s0]
    trans = []
    i = 0
    while i < len(order):
        S = order[i]
        i += 1
        mv = {c: set() for c in SIGMA}
        for x in S:
            for cs, y in nfa.tr.get(x, ()):
                for c in cs:
                    mv[c].add(y)
        row = {}
        memo = {}
        for c in SIGMA:
            k = frozenset(mv[c])
            if k not in memo:
                T = close(k)
                if T not in idx:
                    idx[T] = len(order)
                    order.append(T)
                    if len(order) > 4000:
                        raise NotRegular('too many states')
                memo[k] = idx[T]
            row[c] = memo[k]
        trans.append(row)
    fin = {idx[S] for S in order if S & set(finals)}
    return DFA(trans, 0, fin)


def _parse(pattern, flags):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return sre_parse.parse(pattern, flags)
        except re.error as e:
            raise NotRegular('invalid pattern: %s' % e)


@lru_cache(None)
def lang(fn, pattern, flags=0):
    """DFA of {s : re.fn(pattern, s, flags) succeeds}."""
    p = _parse(pattern, flags)
    flags |= p.state.flags & (re.I | re.S | re.M | re.X)
    if flags & re.M:
        raise NotRegular('multiline')
    alts = [list(p)]
    # unfold a pattern that is a single top-level branch / group around anchors
    changed = True
    while changed:
        changed = False
        new = []
        for a in alts:
            if len(a) == 1 and a[0][0] is C.BRANCH:
                new.extend([list(x) for x in a[0][1][1]])
                changed = True
            elif len(a) == 1 and a[0][0] is C.SUBPATTERN and not a[0][1][1] and not a[0][1][2]:
                new.append(list(a[0][1][3]))
                changed = True
            else:
                new.append(a)
        alts = new
    nfa = NFA()
    start = nfa.state()
    end = nfa.state()
    for a in alts:
        bos = fn in ('match', 'fullmatch')
        while a and a[0][0] is C.AT and str(a[0][1]) in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
            bos = True
            a = a[1:]
        eos = None
        while a and a[-1][0] is C.AT and str(a[-1][1]) in ('AT_END', 'AT_END_STRING'):
            eos = 'Z' if str(a[-1][1]) == 'AT_END_STRING' or eos == 'Z' else '$'
            a = a[:-1]
        if fn == 'fullmatch':
            eos = 'Z'
        s = nfa.state()
        nfa.e(start, s)
        if not bos:
            nfa.t(s, SIGMA, s)
            s2 = nfa.state()
            nfa.e(s, s2)
            s = s2
        e = _build(nfa, a, s, flags)
        if eos is None:
            f = nfa.state()
            nfa.e(e, f)
            nfa.t(f, SIGMA, f)
            nfa.e(f, end)
        elif eos == '$':
            nfa.e(e, end)
            f = nfa.state()
            nfa.t(e, ['\n'], f)
            nfa.e(f, end)
        else:
            nfa.e(e, end)
    return determinise(nfa, start, [end])


@lru_cache(None)
def group_lang(pattern, group, flags=0):
    """DFA of an over-approximation of the text a group can capture."""
    p = _parse(pattern, flags)
    found = []

    def walk(seq):
        for op, av in seq:
            if op is C.SUBPATTERN:
                if av[0] == group:
                    found.append(av[3])
                walk(av[3])
            elif op is C.BRANCH:
                for a in av[1]:
                    walk(a)
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                walk(av[2])
    if group == 0:
        found.append(p)
    else:
        walk(p)
    if not found:
        raise NotRegular('no such group')
    nfa = NFA()
    start = nfa.state()
    end = nfa.state()
    for f in found:
        s = nfa.state()
        nfa.e(start, s)
        nfa.e(_build(nfa, f, s, flags), end)
    return determinise(nfa, start, [end])


@lru_cache(None)
def sigma_star():
    return lang('fullmatch', r'(?s:.)*'.replace('(?s:.)', '[\\s\\S]'))


@lru_cache(None)
def without(chars):
    if not chars:
        return sigma_star()
    return lang('fullmatch', '[^%s]*' % re.escape(chars).replace('^', '\\^').replace(']', '\\]'))


def product(a, b, accept):
    seen = {(a.start, b.start)}
    st = [((a.start, b.start), '')]
    while st:
        (p, q), w = st.pop()
        if accept(p in a.final, q in b.final):
            return w
        for c in SIGMA:
            n = (a.trans[p][c], b.trans[q][c])
            if n not in seen:
                seen.add(n)
                st.append((n, w + c))
    return None


def subset(a, b):
    """None if L(a) is included in L(b), else a witness word."""
    return product(a, b, lambda x, y: x and not y)


def equal(a, b):
    return product(a, b, lambda x, y: x != y)


def disjoint(a, b):
    return product(a, b, lambda x, y: x and y)


def boolop(a, b, f):
    idx = {(a.start, b.start): 0}
    order = [(a.start, b.start)]
    trans = []
    i = 0
    while i < len(order):
        p, q = order[i]
        i += 1
        row = {}
        for c in SIGMA:
            n = (a.trans[p][c], b.trans[q][c])
            if n not in idx:
                idx[n] = len(order)
                order.append(n)
            row[c] = idx[n]
        trans.append(row)
    return DFA(trans, 0, {i for i, (p, q) in enumerate(order) if f(p in a.final, q in b.final)})


def image(a, hom):
    """Image of L(a) under a character homomorphism."""
    nfa = NFA()
    for _ in a.trans:
        nfa.state()
    for p, row in enumerate(a.trans):
        bydest = {}
        for c, q in row.items():
            if c in hom:
                cur = p
                img = hom[c]
                if not img:
                    nfa.e(p, q)
                    continue
                for ch in img[:-1]:
                    n = nfa.state()
                    nfa.t(cur, [ch if ord(ch) < 128 else OTHER], n)
                    cur = n
                nfa.t(cur, [img[-1] if ord(img[-1]) < 128 else OTHER], q)
            else:
                bydest.setdefault(q, set()).add(c)
        for q, cs in bydest.items():
            nfa.t(p, cs, q)
    return determinise(nfa, a.start, a.final)


def minimise(d):
    """Equivalence classes of states: list state -> class."""
    cls = [int(i in d.final) for i in range(len(d.trans))]
    while True:
        sig = {}
        new = []
        for i, row in enumerate(d.trans):
            k = (cls[i],) + tuple(cls[row[c]] for c in SIGMA)
            new.append(sig.setdefault(k, len(sig)))
        if len(set(new)) == len(set(cls)):
            return new
        cls = new


def concat(parts):
    """Concatenation of languages; an item is a DFA or a literal string."""
    nfa = NFA()
    cur = nfa.state()
    start = cur
    for d in parts:
        if isinstance(d, str):
            for ch in d:
                n = nfa.state()
                nfa.t(cur, [ch if ord(ch) < 128 else OTHER], n)
                cur = n
            continue
        base = [nfa.state() for _ in d.trans]
        for p, row in enumerate(d.trans):
            by = {}
            for c, q in row.items():
                by.setdefault(q, set()).add(c)
            for q, cs in by.items():
                nfa.t(base[p], cs, base[q])
        nfa.e(cur, base[d.start])
        n = nfa.state()
        for f in d.final:
            nfa.e(base[f], n)
        cur = n
    return determinise(nfa, start, [cur])


def strip_preimage(a, left=True, right=True):
    """{s : s.strip() in L(a)} (ASCII whitespace)."""
    ws = [' ', '\t', '\n', '\r', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x1f']
    # s = w1 t w2 with t stripped: t in L(a) and t has no outer whitespace
    cls = '[ \\t\\n\\r\\x0b\\x0c\\x1c-\\x1f]'
    ncls = '[^ \\t\\n\\r\\x0b\\x0c\\x1c-\\x1f]'
    inner = lang('fullmatch', '(?:%s(?:[\\s\\S]*%s)?)?' % (ncls, ncls))
    if not (left and right):
        inner = lang('fullmatch', ('(?:%s[\\s\\S]*)?' % ncls) if left else ('(?:[\\s\\S]*%s)?' % ncls))
    core = boolop(a, inner, lambda x, y: x and y)
    nfa = NFA()
    for _ in core.trans:
        nfa.state()
    for p, row in enumerate(core.trans):
        by = {}
        for c, q in row.items():
            by.setdefault(q, set()).add(c)
        for q, cs in by.items():
            nfa.t(p, cs, q)
    s = nfa.state()
    nfa.e(s, core.start)
    if left:
        nfa.t(s, ws, s)
    e = nfa.state()
    for f in core.final:
        nfa.e(f, e)
    if right:
        nfa.t(e, ws, e)
    return determinise(nfa, s, [e])


@lru_cache(None)
def required_chars(pattern, flags=0):
    """Characters every match must contain (sound under-approximation)."""
    if flags & re.I:
        return frozenset()
    try:
        p = _parse(pattern, flags)
    except NotRegular:
        return frozenset()

    def req(seq):
        s = set()
        for op, av in seq:
            if op is C.LITERAL:
                s.add(chr(av))
            elif op is C.SUBPATTERN:
                s |= req(av[3])
            elif op is C.BRANCH:
                s |= set.intersection(*[req(a) for a in av[1]])
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT) and av[0] >= 1:
                s |= req(av[2])
        return s
    return frozenset(req(p))


@lru_cache(None)
def single_chars(pattern, flags=0):
    """If every match of the pattern is exactly one explicitly listed character,
    that finite set; else None."""
    try:
        p = _parse(pattern, flags)
    except NotRegular:
        return None

    def one(seq):
        seq = list(seq)
        if len(seq) != 1:
            return None
        op, av = seq[0]
        if op is C.SUBPATTERN:
            return one(av[3])
        if op is C.BRANCH:
            out = set()
            for a in av[1]:
                r = one(a)
                if r is None:
                    return None
                out |= r
            return out
        if op is C.LITERAL:
            return {chr(av)}
        if op is C.IN:
            out = set()
            for o, a in av:
                if o is C.LITERAL:
                    out.add(chr(a))
                elif o is C.RANGE and a[1] - a[0] < 200:
                    out |= {chr(i) for i in range(a[0], a[1] + 1)}
                else:
                    return None
            return out
        return None
    r = one(p)
    if r is not None and flags & re.I:
        r = {c.lower() for c in r} | {c.upper() for c in r}
    return frozenset(r) if r is not None else None


@lru_cache(None)
def single_only(pattern, flags=0):
    """Characters c such that the one-character string c is itself a match (used
    for the separators of a split: text pieces between matches lack them)."""
    d = lang('fullmatch', pattern, flags)
    return frozenset(c for c in SIGMA[:-1] if d.accepts(c))


@lru_cache(None)
def group_excludes(pattern, group, flags=0):
    try:
        d = group_lang(pattern, group, flags)
    except NotRegular:
        return frozenset()
    out = set()
    for c in SIGMA[:-1]:
        if disjoint(d, lang('fullmatch', '[\\s\\S]*%s[\\s\\S]*' % re.escape(c))) is None:
            out.add(c)
    return frozenset(out)
