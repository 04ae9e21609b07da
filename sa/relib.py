"""Transfer functions for the `re` module on string shapes."""
import re

from . import values as V
from . import strlib as S
from . import regexlang as L
from .values import Atom, Choice, SStr, Sym, Seq, PyDict, PyObj, Builtin, Raise, Unsupported, mk, segs, is_strlike


APPLIED = {}          # (function, pattern, flags) -> first site, everything the analysed program matched


def _err(ip):
    from .lib import bclass
    o = PyObj(bclass(re.error))
    o.attrs['args'] = Seq('tuple', ['bad pattern'])
    raise Raise(o, ip.site())


def _text(ip, v):
    v = ip.resolve(v)
    if isinstance(v, PyObj) and is_strlike(v.payload):
        v = v.payload
    return v


def _compile(ip, p, flags):
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return re.compile(p, flags)
    except re.error:
        _err(ip)


def norm_pattern(ip, p):
    from .lib import PatV
    if isinstance(p, PatV):
        return p.pattern, p.flags
    p = _text(ip, p)
    if not is_strlike(p):
        ip.exc('TypeError', 'first argument must be string or compiled pattern')
    return p, 0


def check_abstract_pattern(ip, pat):
    """A pattern holding caller text that was not re.escape()d can be invalid."""
    if not isinstance(pat, SStr):
        return
    for s in pat.segs:
        if isinstance(s, str):
            continue
        if isinstance(s, Atom) and (s.kind in ('plain', 'int') and not s.xf):
            continue
        if isinstance(s, Atom) and s.xf and s.xf[-1][0] == 're.escape':
            continue
        if not ip.decide(('valid-pattern', pat)):
            _err(ip)


def host_match(m):
    from .lib import MatchV
    if m is None:
        return None
    return MatchV([m.group(0)] + list(m.groups()), dict((n, i) for n, i in m.re.groupindex.items()), m.string, m)


def do_match(ip, fn, pat, flags, subj):
    from .lib import MatchV
    subj = _text(ip, subj)
    if not is_strlike(subj):
        ip.exc('TypeError', 'expected string or bytes-like object, got %s' % ip.type_of(subj).name)
    if isinstance(pat, str) and isinstance(subj, str):
        return host_match(getattr(_compile(ip, pat, flags), fn)(subj))
    if isinstance(pat, str):
        _compile(ip, pat, flags)
        for ch in L.required_chars(pat, flags):
            if not any(S.may_contain(s, ch) for s in segs(subj)):
                return None
        try:
            single_plain = len(segs(subj)) == 1 and isinstance(subj.segs[0], Atom) and subj.segs[0].kind == 'plain' and not subj.segs[0].xf
            if single_plain:
                d = L.lang(fn, pat, flags)
                ident = L.lang('fullmatch', '[a-z][a-z0-9_]*')
                if L.subset(ident, d) is None:
                    return _absmatch(ip, fn, pat, flags, subj)
                if L.disjoint(ident, d) is None:
                    return None
        except L.NotRegular:
            pass
    check_abstract_pattern(ip, pat)
    if ip.decide(('re', fn, pat, flags, subj)):
        return _absmatch(ip, fn, pat, flags, subj)
    return None


def _absmatch(ip, fn, pat, flags, subj):
    from .lib import MatchV
    ng, names = 0, {}
    if isinstance(pat, str):
        c = _compile(ip, pat, flags)
        ng, names = c.groups, dict(c.groupindex)
    base = segs(subj)[0] if len(segs(subj)) == 1 and isinstance(segs(subj)[0], Atom) else None
    groups = []
    for i in range(ng + 1):
        if base is not None:
            groups.append(SStr((Atom(base.label, 'str', base.xf + (('re.group', fn, pat, i),)),)))
        else:
            groups.append(SStr((Atom(('re.group', fn, pat, i, subj), 'str'),)))
    return MatchV(groups, names, subj)


def match_group(ip, m, i):
    i = ip.resolve(i)
    if isinstance(i, str):
        if i not in m.names:
            ip.exc('IndexError', 'no such group')
        i = m.names[i]
    if not isinstance(i, int) or i >= len(m.groups):
        ip.exc('IndexError', 'no such group')
    return m.groups[i]


def match_attr(ip, m, name):
    if name == 'group':
        def group(ip, a, k):
            if not a:
                return m.groups[0]
            if len(a) == 1:
                return match_group(ip, m, a[0])
            return Seq('tuple', [match_group(ip, m, x) for x in a])
        return Builtin('group', group)
    if name == 'groups':
        return Builtin('groups', lambda ip, a, k: Seq('tuple', [x if x is not None else (a[0] if a else k.get('default')) for x in m.groups[1:]]))
    if name == 'groupdict':
        return Builtin('groupdict', lambda ip, a, k: PyDict([(n, m.groups[i]) for n, i in m.names.items()]))
    if name == 'string':
        return m.string
    if name in ('start', 'end', 'span'):
        def pos(ip, a, k):
            if m.whole is not None:
                r = getattr(m.whole, name)(*a)
                return Seq('tuple', list(r)) if isinstance(r, tuple) else r
            return Sym(('match-' + name, repr(m.groups[0])), 'int', lo=0)
        return Builtin(name, pos)
    if name == 'lastindex' and m.whole is not None:
        return m.whole.lastindex
    if name == 'lastgroup' and m.whole is not None:
        return m.whole.lastgroup
    if hasattr(re.Match, name):
        raise Unsupported('Match.' + name)
    return ip._MISSING


def re_split(ip, pat, flags, v, maxsplit=0):
    v = _text(ip, v)
    if not is_strlike(v):
        ip.exc('TypeError', 'expected string or bytes-like object')
    if not isinstance(pat, str):
        raise Unsupported('split by abstract pattern')
    c = _compile(ip, pat, flags)
    if isinstance(v, str):
        return Seq('list', list(c.split(v, maxsplit)))
    if maxsplit:
        raise Unsupported('re.split maxsplit')
    try:
        seps = L.single_only(pat, flags)
    except L.NotRegular:
        raise Unsupported('pattern %r' % pat)
    if len(v.segs) == 1 and isinstance(v.segs[0], Atom):
        a = v.segs[0]
        need = L.required_chars(pat, flags)
        if any(not S.may_contain(a, ch) for ch in need) or a.kind == 'plain' and not a.xf and not any(S.may_contain(a, ch) for ch in seps) \
                and _nomatch(pat, flags):
            return Seq('list', [v])
        n = ip.ctx.choose(('re.split', pat, flags, v), 3, ip.site())
        if n == 0:
            return Seq('list', [SStr((Atom(a.label, 'str', a.xf + (('repiece', pat, seps, 0, 'text', 1),)),))])
        out = []
        for i in range(n + 1):
            out.append(SStr((Atom(a.label, 'str', a.xf + (('repiece', pat, seps, i, 'text', n + 1),)),)))
            if i < n:
                for g in range(1, c.groups + 1):
                    if ip.decide(('re.split-group', pat, v, n, i, g)):
                        excl = L.group_excludes(pat, g, flags)
                        out.append(SStr((Atom(a.label, 'str', a.xf + (('repiece', pat, excl, i, g, n + 1),)),)))
                    else:
                        out.append(None)
        return Seq('list', out)
    # composite shape whose atoms are identifiers and the pattern cannot tell one
    # identifier from another: a placeholder character stands for each of them
    if all(isinstance(x, str) or isinstance(x, Atom) and x.kind == 'plain' and not x.xf for x in v.segs) and _blind(pat, flags):
        marks = {}
        word = ''
        for x in v.segs:
            if isinstance(x, str):
                word += x
            else:
                ch = chr(0xE000 + len(marks))
                marks[ch] = x
                word += ch

        def back(t):
            if t is None:
                return None
            return mk([marks.get(ch, ch) for ch in t])
        return Seq('list', [back(t) for t in c.split(word)])
    # composite shape: only separators inside literals, atoms that cannot hold one
    if all(isinstance(s, str) or not any(S.may_contain(s, ch) for ch in _pattern_chars(pat)) for s in v.segs):
        if c.groups or len(seps) == 0:
            raise Unsupported('re.split of a composite shape')
        cur, out = [], []
        for s in v.segs:
            if isinstance(s, str):
                parts = c.split(s)
                for i, p in enumerate(parts):
                    if i:
                        out.append(mk(cur))
                        cur = []
                    cur.append(p)
            else:
                cur.append(s)
        out.append(mk(cur))
        return Seq('list', out)
    raise Unsupported('re.split of a composite shape')


def _blind(pat, flags):
    try:
        d = L.lang('fullmatch', pat, flags)
    except L.NotRegular:
        return False
    m = L.minimise(d)
    for row in d.trans:
        n = row[L.OTHER]
        if any(m[row[ch]] != m[n] for ch in 'abcdefghijklmnopqrstuvwxyz0123456789_') or m[d.trans[n][L.OTHER]] != m[n]:
            return False
    return True


def _nomatch(pat, flags):
    try:
        return L.disjoint(L.lang('fullmatch', '[a-z][a-z0-9_]*'), L.lang('search', pat, flags)) is None
    except L.NotRegular:
        return False


def _pattern_chars(pat):
    out = set()
    for c in L.SIGMA[:-1]:
        try:
            if L.disjoint(L.lang('fullmatch', pat), L.lang('fullmatch', '[\\s\\S]*%s[\\s\\S]*' % re.escape(c))) is not None:
                out.add(c)
        except L.NotRegular:
            return set(L.SIGMA)
    return out


def re_sub(ip, pat, flags, repl, v, count=0):
    v = _text(ip, v)
    if not is_strlike(v):
        ip.exc('TypeError', 'expected string or bytes-like object')
    if not isinstance(pat, str):
        check_abstract_pattern(ip, pat)
        return SStr((Atom(('re.sub', pat, ip.canon(repl), v), 'any'),))
    c = _compile(ip, pat, flags)
    repl = ip.resolve(repl)

    def host_repl(s):
        if isinstance(repl, str):
            return c.sub(repl, s, count)
        if isinstance(repl, SStr):
            raise Unsupported('re.sub with abstract replacement')
        out = []
        pos = 0
        for i, m in enumerate(c.finditer(s)):
            if count and i >= count:
                break
            out.append(s[pos:m.start()])
            out.append(ip.call(repl, [host_match(m)]))
            pos = m.end()
        out.append(s[pos:])
        return mk(out)
    if isinstance(v, str):
        return host_repl(v)
    chars = L.single_chars(pat, flags)
    if chars is not None and not count:
        table = {}
        for ch in chars:
            r = host_repl(ch)
            if not isinstance(r, str):
                raise Unsupported('re.sub to abstract text')
            table[ch] = r
        return S.hom(v, table)
    out = []
    need = L.required_chars(pat, flags)
    if count and any(not isinstance(s, str) and all(S.may_contain(s, ch) for ch in need) for s in v.segs) or count and len(v.segs) > 1:
        raise Unsupported('re.sub with a count on an abstract string')
    for s in v.segs:
        if isinstance(s, str):
            out.append(host_repl(s))
        elif any(not S.may_contain(s, ch) for ch in need):
            out.append(s)
        else:
            out.append(V.add_xf(s, ('re.sub', pat, repl if isinstance(repl, str) else 'fn', flags)))
    return mk(out)


def re_find(ip, pat, flags, v, itermode):
    from .lib import MatchV, make_iter
    v = _text(ip, v)
    if not is_strlike(v):
        ip.exc('TypeError', 'expected string or bytes-like object')
    if not isinstance(pat, str):
        raise Unsupported('findall abstract pattern')
    c = _compile(ip, pat, flags)
    if isinstance(v, str):
        if itermode:
            return make_iter(ip, [host_match(m) for m in c.finditer(v)])
        return Seq('list', [Seq('tuple', list(x)) if isinstance(x, tuple) else x for x in c.findall(v)])
    if len(v.segs) != 1 or not isinstance(v.segs[0], Atom):
        raise Unsupported('findall on a composite shape')
    a = v.segs[0]
    try:
        empties = L.lang('fullmatch', pat, flags).accepts('')
        may_skip = L.product(L.sigma_star(), L.lang('search', pat, flags), lambda x, y: x and not y) is not None
    except L.NotRegular:
        empties = may_skip = True
    n = ip.ctx.choose(('re.find', pat, flags, v), 3, ip.site()) if may_skip else 1 + ip.ctx.choose(('re.find', pat, flags, v), 2, ip.site())
    ms = []
    for i in range(n):
        gs = []
        for g in range(c.groups + 1):
            if g and not ip.decide(('re.find-group', pat, v, n, i, g)):
                gs.append(None)
                continue
            excl = L.group_excludes(pat, g, flags)
            gs.append(SStr((Atom(a.label, 'str', a.xf + (('repiece', pat, excl, i, g, n),)),)))
        ms.append(MatchV(gs, dict(c.groupindex), v))
    if itermode:
        return make_iter(ip, ms)
    if c.groups == 0:
        return Seq('list', [m.groups[0] for m in ms])
    if c.groups == 1:
        return Seq('list', [m.groups[1] if m.groups[1] is not None else '' for m in ms])
    return Seq('list', [Seq('tuple', [x if x is not None else '' for x in m.groups[1:]]) for m in ms])


def re_escape(ip, a, k):
    v = _text(ip, a[0])
    if isinstance(v, str):
        return re.escape(v)
    if not isinstance(v, SStr):
        if not isinstance(v, (bytes,)):
            ip.exc('TypeError', 'expected string')
        return re.escape(v)
    return mk([re.escape(s) if isinstance(s, str) else (s if isinstance(s, Atom) and s.kind in ('plain',) and not s.xf else V.add_xf(s, ('re.escape',))) for s in v.segs])


def flag(x):
    return int(x) if isinstance(x, int) else 0


def _fn(name):
    def f(ip, a, k):
        pat, fl = norm_pattern(ip, a[0] if a else k['pattern'])
        a = list(a[1:])
        k = dict(k)

        def arg(i, n, d=None):
            return a[i] if len(a) > i else k.get(n, d)
        fi = {'split': 2, 'sub': 3, 'subn': 3}.get(name, 1)
        APPLIED.setdefault((name, pat, fl | flag(arg(fi, 'flags', 0))), ip.site())
        if name in ('match', 'search', 'fullmatch'):
            return do_match(ip, name, pat, fl | flag(arg(1, 'flags', 0)), arg(0, 'string'))
        if name == 'split':
            return re_split(ip, pat, fl | flag(arg(2, 'flags', 0)), arg(0, 'string'), arg(1, 'maxsplit', 0))
        if name in ('sub', 'subn'):
            r = re_sub(ip, pat, fl | flag(arg(3, 'flags', 0)), arg(0, 'repl'), arg(1, 'string'), arg(2, 'count', 0))
            if name == 'sub':
                return r
            v, n = ip.resolve(arg(1, 'string')), arg(2, 'count', 0)
            if isinstance(v, str) and isinstance(pat, str):
                hits = len(list(_compile(ip, pat, fl | flag(arg(3, 'flags', 0))).finditer(v)))
                return Seq('tuple', [r, min(hits, n) if n else hits])
            return Seq('tuple', [r, Sym(('subn', pat, v), 'int', lo=0)])
        if name in ('findall', 'finditer'):
            return re_find(ip, pat, fl | flag(arg(1, 'flags', 0)), arg(0, 'string'), name == 'finditer')
        raise Unsupported('re.' + name)
    return Builtin('re.' + name, f)


def pat_attr(ip, p, name):
    if name in ('match', 'search', 'fullmatch', 'split', 'sub', 'subn', 'findall', 'finditer'):
        f = _fn(name)
        return Builtin(name, lambda ip, a, k: f.fn(ip, [p] + list(a), k))
    if name == 'pattern':
        return p.pattern
    if name == 'flags':
        return p.flags
    if hasattr(re.Pattern, name):
        raise Unsupported('Pattern.' + name)
    return ip._MISSING


def re_compile(ip, a, k):
    from .lib import PatV
    pat, fl = norm_pattern(ip, a[0])
    fl |= flag(a[1] if len(a) > 1 else k.get('flags', 0))
    if isinstance(pat, str):
        _compile(ip, pat, fl)
    else:
        check_abstract_pattern(ip, pat)
    return PatV(pat, fl)


def module_ns(ip):
    from .lib import bclass
    ns = {n: _fn(n) for n in ('match', 'search', 'fullmatch', 'split', 'sub', 'subn', 'findall', 'finditer')}
    ns['compile'] = Builtin('re.compile', re_compile)
    ns['escape'] = Builtin('re.escape', re_escape)
    ns['error'] = bclass(re.error)
    ns['Pattern'] = bclass(re.Pattern)
    ns['Match'] = bclass(re.Match)
    for n in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE', 'A', 'ASCII', 'U', 'UNICODE'):
        ns[n] = int(getattr(re, n))
    return ns
