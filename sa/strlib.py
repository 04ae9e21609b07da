"""Transfer functions of the string-shape domain."""
import decimal
import re

from . import values as V
from .values import Atom, Choice, SStr, Sym, Seq, PyDict, PySet, PyObj, PyFunc, Unsupported, mk, segs, is_strlike, add_xf

PLAIN = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
KIND_CHARS = {
    'plain': PLAIN,
    'int': set('0123456789-'),
    'hex': set('0123456789abcdef'),
    'float': set('0123456789.-einfa'),
    'iso': set('0123456789-:T.+'),
}
NONEMPTY_KINDS = {'plain', 'int', 'float', 'iso', 'dtstr', 'Decimal', 'any', 'char', 'trunc'}


def may_contain(seg, ch):
    """Can the text of this segment contain the character?"""
    if isinstance(seg, str):
        return ch in seg
    if isinstance(seg, Choice):
        return any(any(may_contain(s, ch) for s in segs(sh)) for _, sh in seg.alts) or bool(seg.xf)
    chars = KIND_CHARS.get(seg.kind)
    if chars is not None and not seg.xf:
        return ch in chars
    xf = seg.xf
    if not xf:
        return True
    last = xf[-1]
    base = Atom(seg.label, seg.kind, xf[:-1])
    if last[0] in ('fmt', 'str') and seg.kind in ('float', 'Decimal', 'int') and (last[0] == 'str' or re.match(r'^(\.\d+)?[dfgeE]?$', last[1])):
        return ch in '0123456789.-+einfaEsNIty'
    if last[0] == 'piece':
        return ch not in last[1] if len(last[1]) == 1 else may_contain(base, ch)
    if last[0] == 'repiece':
        return ch not in last[2]
    if last[0] == 'hom':
        d = dict(last[1])
        for c, img in d.items():
            if ch in img and may_contain(base, c):
                return True
        return ch not in d and may_contain(base, ch)
    if last[0] in ('strip', 'lstrip', 'rstrip'):
        return may_contain(base, ch)
    if last[0] in ('upper', 'lower'):
        return may_contain(base, ch.lower()) or may_contain(base, ch.upper()) if ch.isascii() else True
    return True


def surely_nonempty(seg, facts):
    if isinstance(seg, str):
        return bool(seg)
    if isinstance(seg, Choice):
        return not any(t[0] in ('strip', 'lstrip', 'rstrip', 'slice', 'index') for t in seg.xf) and \
            all(any(surely_nonempty(s, facts) for s in segs(sh)) for _, sh in seg.alts)
    if seg.kind in NONEMPTY_KINDS and not any(t[0] not in ('fmt', 'str', 'hom', 'upper', 'lower', 'float', 'iso', 'strftime') or t[0] == 'hom' and not all(i for _, i in t[1])
                                             for t in seg.xf):
        return True
    b = nonempty_base(seg)
    if b.xf and b.xf[-1][0] == 'repiece' and b.xf[-1][4] != 'text' and _group_nonempty(b.xf[-1][1], b.xf[-1][4]):
        return True
    return facts.get(('nonempty', b)) == 0


def _group_nonempty(pat, g):
    from . import regexlang as L
    try:
        return not L.group_lang(pat, g).accepts('')
    except L.NotRegular:
        return False


def nonempty_base(seg):
    """Strip transformations that preserve emptiness."""
    if not isinstance(seg, Atom):
        return seg
    xf = seg.xf
    while xf and (xf[-1][0] in ('upper', 'lower', 'title', 'capitalize', 'casefold', 'swapcase', 're.escape', 'str')
                  or (xf[-1][0] == 'hom' and all(img for _, img in xf[-1][1]))):
        xf = xf[:-1]
    return Atom(seg.label, seg.kind, xf)


def str_truth(ip, v):
    v = ip.resolve(v)
    if isinstance(v, str):
        return bool(v)
    facts = ip.ctx.facts
    if any(surely_nonempty(s, facts) for s in v.segs):
        return True
    for s in v.segs:
        b = nonempty_base(s)
        if ip.decide(('nonempty', b)):
            return True
        if isinstance(b, Atom):
            ip.ctx.subst[b] = ''
    return False


def _strip_common(a, b):
    a, b = list(segs(a)), list(segs(b))
    # common prefix
    while a and b:
        if a[0] == b[0]:
            a.pop(0)
            b.pop(0)
            continue
        if isinstance(a[0], str) and isinstance(b[0], str):
            n = 0
            for x, y in zip(a[0], b[0]):
                if x != y:
                    return None
                n += 1
            a[0], b[0] = a[0][n:], b[0][n:]
            if not a[0]:
                a.pop(0)
            if not b[0]:
                b.pop(0)
            continue
        break
    while a and b:
        if a[-1] == b[-1]:
            a.pop()
            b.pop()
            continue
        if isinstance(a[-1], str) and isinstance(b[-1], str):
            n = 0
            for x, y in zip(reversed(a[-1]), reversed(b[-1])):
                if x != y:
                    return None
                n += 1
            a[-1], b[-1] = a[-1][:len(a[-1]) - n], b[-1][:len(b[-1]) - n]
            if not a[-1]:
                a.pop()
            if not b[-1]:
                b.pop()
            continue
        break
    return a, b


def _cannot_start(seg, ch):
    return isinstance(seg, Atom) and not may_contain(seg, ch) and surely_nonempty(seg, {})


def str_eq(ip, a, b):
    a, b = ip.resolve(a), ip.resolve(b)
    if a == b:
        return True
    if isinstance(a, str) and isinstance(b, str):
        return False
    r = _strip_common(a, b)
    if r is None:
        return False
    x, y = r
    if not x and not y:
        return True
    facts = ip.ctx.facts
    if not x or not y:
        rest = x or y
        if any(surely_nonempty(s, facts) for s in rest):
            return False
        return not str_truth(ip, mk(rest))
    # a literal containing a character the other side can never produce
    for p, q in ((x, y), (y, x)):
        for s in p:
            if isinstance(s, str):
                for ch in s:
                    if not any(may_contain(t, ch) for t in q):
                        return False
        # minimal length
        lo = sum(len(s) if isinstance(s, str) else (1 if surely_nonempty(s, facts) else 0) for s in p)
        if all(isinstance(t, str) for t in q) and lo > sum(len(t) for t in q):
            return False
    # first characters incompatible (plain atoms start with their own mark)
    if len(x) == 1 and len(y) == 1:
        p, q = x[0], y[0]
        if isinstance(p, Atom) and isinstance(q, Atom):
            if p.xf == q.xf and p.kind == q.kind and not p.xf and ip.ctx_distinct(p.label, q.label):
                return False
            if p.kind == 'plain' and q.kind == 'plain' and p.label != q.label and ip.ctx_distinct(p.label, q.label):
                return False
            if p.kind == q.kind == 'int' and not p.xf and not q.xf:
                return ip.lib.num_eq(ip, Sym(p.label, 'int'), Sym(q.label, 'int'))
        if isinstance(q, str):
            p, q = q, p
        if isinstance(p, str) and isinstance(q, Atom) and q.kind == 'int' and not q.xf:
            if not re.match(r'^(0|-?[1-9][0-9]*)\Z', p):
                return False
            return ip.lib.num_eq(ip, Sym(q.label, 'int'), int(p))
        if isinstance(p, str) and isinstance(q, Atom) and q.kind == 'char' and len(p) != 1:
            return False
        if isinstance(p, str) and isinstance(q, Atom) and q.kind == 'plain':
            return False          # plain identifiers are none of the library's words
        if isinstance(p, str) and isinstance(q, Choice) and not q.xf:
            # decided inside the alternatives
            hits = [sh for _, sh in q.alts if sh == p]
            poss = [sh for _, sh in q.alts if not (isinstance(sh, str) and sh != p)]
            if not poss:
                return False
            if len(hits) == len(q.alts):
                return True
        k = ('streq', p if isinstance(p, str) else SStr((p,)), SStr((q,))) if isinstance(p, str) or repr(p) < repr(q) else ('streq', SStr((q,)), SStr((p,)))
        if ip.decide(k):
            if isinstance(q, Atom) and isinstance(p, str):
                ip.ctx.subst[q] = p
            elif isinstance(q, Atom) and isinstance(p, Atom):
                if not q.xf and not p.xf:
                    if p.label < q.label if isinstance(p.label, str) and isinstance(q.label, str) else True:
                        ip.ctx.subst[q] = SStr((p,))
                    else:
                        ip.ctx.subst[p] = SStr((q,))
            return True
        return False
    # several unknown pieces: literals of plain-delimited shapes differ unless proven equal
    if _all_plain(ip, x) and _all_plain(ip, y):
        if len(x) != len(y) or any(isinstance(p, str) != isinstance(q, str) for p, q in zip(x, y)):
            return False
        for p, q in zip(x, y):
            if p != q:
                if isinstance(p, str) or not ip.decide(('streq', SStr((p,)), SStr((q,)))):
                    return False
        return True
    sa, sb = mk(x), mk(y)
    if repr(sb) < repr(sa):
        sa, sb = sb, sa
    return ip.decide(('streq', sa, sb))


def _all_plain(ip, sg):
    prev = None
    for s in sg:
        if isinstance(s, str):
            prev = 'lit'
            continue
        if not (isinstance(s, Atom) and s.kind in ('plain', 'int', 'iso', 'hex') and not s.xf):
            return False
        if prev == 'atom':
            return False
        prev = 'atom'
    return True


def str_lt(ip, a, b):
    a, b = ip.resolve(a), ip.resolve(b)
    if isinstance(a, str) and isinstance(b, str):
        return a < b
    if a == b:
        return False
    x, y = list(segs(a)), list(segs(b))
    while x and y and x[0] == y[0]:
        x.pop(0)
        y.pop(0)
    if not x:
        return bool(y) and str_truth(ip, mk(y))
    if not y:
        return False
    p, q = x[0], y[0]
    if isinstance(p, str) and isinstance(q, str):
        n = 0
        for c, d in zip(p, q):
            if c != d:
                return c < d
            n += 1
        # one literal is a prefix of the other; continue with the remainder
        return str_lt(ip, mk([p[n:]] + x[1:]), mk([q[n:]] + y[1:]))
    rp, rq = ip.ctx_rank(p), ip.ctx_rank(q)
    if rp is not None and rq is not None and rp != rq:
        return rp < rq
    if isinstance(p, str) and isinstance(q, Atom) and q.kind in ('plain',):
        if not (p[0] in PLAIN):
            return p[0] < 'a'
    if isinstance(q, str) and isinstance(p, Atom) and p.kind in ('plain',):
        if not (q[0] in PLAIN):
            return 'a' < q[0]
    return ip.decide(('strlt', mk([p]), mk([q])))


def contains(ip, hay, needle):
    hay, needle = ip.resolve(hay), ip.resolve(needle)
    if isinstance(hay, str) and isinstance(needle, str):
        return needle in hay
    if needle == '':
        return True
    if isinstance(needle, str):
        for s in segs(hay):
            if isinstance(s, str) and needle in s:
                return True
        if not all(any(may_contain(s, ch) for s in segs(hay)) for ch in needle):
            return False
        if len(needle) == 1:
            for s in segs(hay):
                if not isinstance(s, str) and may_contain(s, needle):
                    if ip.decide(('contains', mk([s]), needle)):
                        return True
            return False
    return ip.decide(('contains', hay, needle))


def startswith(ip, v, p, end=False):
    v, p = ip.resolve(v), ip.resolve(p)
    if isinstance(p, Seq):
        return any(startswith(ip, v, x, end) for x in p.items)
    if isinstance(v, str) and isinstance(p, str):
        return v.endswith(p) if end else v.startswith(p)
    a, b = list(segs(v)), list(segs(p))
    if end:
        while a and b:
            if a[-1] == b[-1]:
                a.pop(); b.pop(); continue
            if isinstance(a[-1], str) and isinstance(b[-1], str):
                if a[-1].endswith(b[-1]):
                    b.pop()
                    break
                if b[-1].endswith(a[-1]):
                    b[-1] = b[-1][:-len(a[-1])]
                    a.pop()
                    continue
                return False
            break
        if not b:
            return True
        if not a:
            return False
    else:
        while a and b:
            if a[0] == b[0]:
                a.pop(0); b.pop(0); continue
            if isinstance(a[0], str) and isinstance(b[0], str):
                if a[0].startswith(b[0]):
                    b.pop(0)
                    break
                if b[0].startswith(a[0]):
                    b[0] = b[0][len(a[0]):]
                    a.pop(0)
                    continue
                return False
            break
        if not b:
            return True
        if not a:
            return False
    edge, want = (a[-1], b[-1]) if end else (a[0], b[0])
    if isinstance(want, str) and isinstance(edge, Atom):
        ch = want[-1] if end else want[0]
        if surely_nonempty(edge, ip.ctx.facts) and (not may_contain(edge, ch) or edge.kind == 'plain'):
            return False
    return ip.decide(('endswith' if end else 'startswith', mk(a), mk(b)))


def strip(ip, v, how, chars):
    v = ip.resolve(v)
    if isinstance(v, str):
        return getattr(v, how)(*([chars] if chars is not None else []))
    sg = list(v.segs)
    ws = chars if chars is not None else ' \t\n\r\x0b\x0c'
    tail = (chars,) if chars is not None else ()

    def go(sg, left):
        while sg:
            i = 0 if left else -1
            s = sg[i]
            if isinstance(s, str):
                t = s.lstrip(chars) if left else s.rstrip(chars)
                if t:
                    sg[i] = t
                    return sg
                sg.pop(i)
                continue
            if isinstance(s, Choice):
                # every alternative starts and ends with a non-blank literal
                ok = not s.xf and all(_edge_solid(sh, left, ws) for _, sh in s.alts)
                if not ok:
                    sg[i] = add_xf(s, ('lstrip' if left else 'rstrip',) + tail)
                return sg
            if any(may_contain(s, c) for c in ws):
                sg[i] = add_xf(s, ('lstrip' if left else 'rstrip',) + tail)
            return sg
        return sg
    if len(sg) == 1 and isinstance(sg[0], Atom) and how == 'strip':
        s = sg[0]
        if any(may_contain(s, c) for c in ws):
            return SStr((add_xf(s, ('strip',) + tail),))
        return v
    if how in ('strip', 'lstrip'):
        sg = go(sg, True)
    if how in ('strip', 'rstrip'):
        sg = go(sg, False)
    return mk(sg)


def _edge_solid(sh, left, ws):
    sg = segs(sh)
    if not sg:
        return True
    s = sg[0 if left else -1]
    if isinstance(s, str):
        return (s[0] if left else s[-1]) not in ws
    if isinstance(s, Choice):
        return not s.xf and all(segs(x) and _edge_solid(x, left, ws) for _, x in s.alts)
    return isinstance(s, Atom) and not any(may_contain(s, c) for c in ws)


def replace(ip, v, old, new, count=None):
    v, old, new = ip.resolve(v), ip.resolve(old), ip.resolve(new)
    if isinstance(v, str) and isinstance(old, str) and isinstance(new, str):
        return v.replace(old, new) if count is None else v.replace(old, new, count)
    if not isinstance(old, str) or not isinstance(new, str):
        if isinstance(old, str) and count is None:
            # substitution of a shape for a marker in the literal parts
            out = []
            for s in segs(v):
                if isinstance(s, str):
                    parts = s.split(old)
                    for i, p in enumerate(parts):
                        if i:
                            out.append(new)
                        out.append(p)
                elif any(may_contain(s, c) for c in old) and all(may_contain(s, c) for c in old):
                    out.append(add_xf(s, ('replace-with', old, new)))
                else:
                    out.append(s)
            return mk(out)
        return SStr((Atom(('replace', v, old, new), 'any'),))
    out = []
    if count is not None:
        return SStr((Atom(('replace', v, old, new, count), 'any'),))
    for s in segs(v):
        if isinstance(s, str):
            out.append(s.replace(old, new))
        elif isinstance(s, Atom) and s.kind != 'trunc' and not all(may_contain(s, c) for c in old):
            out.append(s)
        elif len(old) == 1:
            out.append(add_xf(s, ('hom', ((old, new),))) if old != new else s)
        elif old:
            out.append(add_xf(s, ('replace', old, new)))
        else:
            out.append(add_xf(s, ('replace', old, new)))
    return mk(out)


def hom(v, table):
    t = ('hom', tuple(sorted((k, x) for k, x in table.items() if k != x)))
    out = []
    for s in segs(v):
        if isinstance(s, str):
            out.append(V.apply_xf(s, t))
        else:
            sub = tuple((k, x) for k, x in t[1] if may_contain(s, k))
            out.append(add_xf(s, ('hom', sub)) if sub else s)
    return mk(out)


CASE = ('upper', 'lower', 'title', 'capitalize', 'casefold', 'swapcase')


def casemap(ip, v, how):
    v = ip.resolve(v)
    if isinstance(v, str):
        return getattr(v, how)()
    out = []
    for s in v.segs:
        if isinstance(s, str):
            out.append(getattr(s, how)())
        elif isinstance(s, Atom) and s.kind == 'int':
            out.append(s)
        else:
            out.append(add_xf(s, (how,)))
    return mk(out)


def split(ip, v, sep=None, maxsplit=-1, right=False):
    v = ip.resolve(v)
    sep = ip.resolve(sep) if sep is not None else None
    if isinstance(v, str) and (sep is None or isinstance(sep, str)):
        return Seq('list', v.rsplit(sep, maxsplit) if right else v.split(sep, maxsplit))
    if not (sep is None or isinstance(sep, str)):
        raise Unsupported('split by abstract separator')
    seps = ' \t\n\r' if sep is None else sep
    # tokens: literal parts are split; atoms that may contain the separator fork
    cur = []
    out = []
    many = False
    for s in segs(v):
        if isinstance(s, str):
            parts = s.split(sep) if sep is not None else re.split(r'\s+', s)
            for i, p in enumerate(parts):
                if i:
                    out.append(mk(cur))
                    cur = []
                cur.append(p)
            continue
        may = any(may_contain(s, c) for c in seps) if sep is None else all(may_contain(s, c) for c in seps)
        if may and maxsplit == -1 and ip.decide(('contains', mk([s]), sep if sep is not None else ' ')):
            if not isinstance(s, Atom):
                raise Unsupported('split inside summary')
            p = [Atom(s.label, 'str', s.xf + (('piece', sep if sep is not None else ' ', i),)) for i in (0, 1)]
            cur.append(p[0])
            out.append(mk(cur))
            cur = [p[1]]
            many = True
        elif may and maxsplit != -1:
            if ip.decide(('contains', mk([s]), sep if sep is not None else ' ')):
                p = [Atom(s.label, 'str', s.xf + (('piece' + ('r' if right else 'l'), sep, maxsplit, i),)) for i in (0, 1)]
                cur.append(p[0])
                out.append(mk(cur))
                cur = [p[1]]
        else:
            cur.append(s)
    out.append(mk(cur))
    if sep is None:
        out = [x for x in out if x != '']
    if maxsplit not in (-1, None) and len(out) > maxsplit + 1:
        if any(not isinstance(s, str) and may_contain(s, seps[0]) for s in segs(v)):
            raise Unsupported('split maxsplit')
        if right:
            out = [mk(_interleave(out[:-maxsplit], sep))] + out[-maxsplit:] if maxsplit else [v]
        else:
            out = out[:maxsplit] + [mk(_interleave(out[maxsplit:], sep))]
    r = Seq('list', out)
    return r


def _interleave(xs, sep):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(x)
    return out


def partition(ip, v, sep, right=False):
    v = ip.resolve(v)
    if isinstance(v, str):
        return Seq('tuple', list(v.rpartition(sep) if right else v.partition(sep)))
    parts = split(ip, v, sep, 1, right).items
    if len(parts) == 1:
        return Seq('tuple', ['', '', v] if right else [v, '', ''])
    return Seq('tuple', [parts[0], sep, parts[1]])


def index(ip, v, i):
    v = ip.resolve(v)
    i = ip.lib.as_index(ip, i)
    if isinstance(i, slice):
        return slice_(ip, v, i)
    if isinstance(v, str) and isinstance(i, int):
        try:
            return v[i]
        except IndexError:
            ip.exc('IndexError', 'string index out of range')
    if isinstance(i, Sym):
        raise Unsupported('abstract string index')
    sg = segs(v)
    if i >= 0 and isinstance(sg[0], str) and i < len(sg[0]):
        return sg[0][i]
    if i < 0 and isinstance(sg[-1], str) and -i <= len(sg[-1]):
        return sg[-1][i]
    if i in (0, -1):
        if not str_truth(ip, v):
            ip.exc('IndexError', 'string index out of range')
        v = ip.resolve(v)
        sg = segs(v)
        s = sg[0] if i == 0 else sg[-1]
        if isinstance(s, str):
            return s[i]
        return SStr((add_xf(s, ('index', i)),))
    return SStr((Atom(('index', v, i), 'any'),))


def slice_(ip, v, sl):
    lo, hi, st = (ip.lib.unwrap(ip.resolve(x)) for x in (sl.start, sl.stop, sl.step))
    if isinstance(v, str) and not any(isinstance(x, Sym) for x in (lo, hi, st)):
        return v[lo:hi:st]
    if st not in (None, 1) or isinstance(lo, Sym) or isinstance(hi, Sym):
        return SStr((Atom(('slice', v, str(lo), str(hi), str(st)), 'any'),))
    sg = list(segs(v))
    ok = True
    if lo is None:
        lo = 0
    if lo > 0:
        n = lo
        while n and sg and isinstance(sg[0], str):
            k = min(n, len(sg[0]))
            sg[0] = sg[0][k:]
            n -= k
            if not sg[0]:
                sg.pop(0)
        ok = n == 0
    elif lo < 0:
        # suffix
        n = -lo
        out = []
        while n and sg and isinstance(sg[-1], str):
            k = min(n, len(sg[-1]))
            out.insert(0, sg[-1][-k:])
            n -= k
            sg[-1] = sg[-1][:-k]
            if not sg[-1]:
                sg.pop()
        if n == 0 and hi is None:
            return mk(out)
        ok = False
    if ok and hi is not None:
        if hi < 0:
            n = -hi
            while n and sg and isinstance(sg[-1], str):
                k = min(n, len(sg[-1]))
                sg[-1] = sg[-1][:len(sg[-1]) - k]
                n -= k
                if not sg[-1]:
                    sg.pop()
            ok = n == 0
        else:
            n = hi - lo
            out = []
            for s in sg:
                if n <= 0:
                    break
                if not isinstance(s, str):
                    ok = False
                    break
                out.append(s[:n])
                n -= len(s[:n])
            sg = out
    if ok:
        return mk(sg)
    if len(v.segs) == 1 and isinstance(v.segs[0], Atom):
        return SStr((add_xf(v.segs[0], ('slice', sl.start, sl.stop)),))
    return SStr((Atom(('slice', v, str(sl.start), str(sl.stop)), 'any'),))


# ---------------------------------------------------------------- formatting

def sym_text(v):
    """str() of an abstract scalar."""
    if v.kind == 'int':
        return SStr((Atom(v.label, 'int'),))
    if v.kind == 'date':
        return SStr((Atom(v.label, 'iso'),))
    if v.kind == 'datetime':
        return SStr((Atom(v.label, 'dtstr'),))
    return SStr((Atom(v.label, v.kind, (('str',),)),))


def sym_format(ip, v, spec):
    if isinstance(spec, SStr):
        raise Unsupported('abstract format spec')
    if spec == '':
        return sym_text(v)
    if v.kind == 'int' and spec in ('d', 'n', 'i'):
        return sym_text(v)
    if v.kind in ('float', 'Decimal', 'int'):
        m = re.match(r'^(?:.?[<>=^])?[-+ ]?#?0?\d*[,_]?(\.\d+)?([a-zA-Z%]?)$', spec)
        if not m:
            ip.exc('ValueError', 'Invalid format specifier')
        if m.group(2) == 'd' and v.kind != 'int':
            ip.exc('ValueError', "Unknown format code 'd' for object of type 'float'")
        return SStr((Atom(v.label, v.kind, (('fmt', spec.replace('F', 'f')),)),))
    if v.kind in ('date', 'datetime'):
        return SStr((Atom(v.label, 'dtstr', (('strftime', spec),)),))
    ip.exc('TypeError', 'unsupported format string passed to %s.__format__' % v.kind)


def format_str(ip, v, spec):
    """format(str, spec)"""
    if spec in ('', 's'):
        return v
    if isinstance(v, str) and isinstance(spec, str):
        try:
            return format(v, spec)
        except ValueError as e:
            ip.exc('ValueError', str(e))
    return SStr((Atom(('format', v, spec), 'any'),))


def template_segments(v):
    """Literal template with atoms (from user text) -> list of segs."""
    return list(segs(v))


def str_format(ip, tpl, args, kw, mapping=None):
    tpl = ip.resolve(tpl)
    sg = list(segs(tpl))
    out = []
    auto = [0]
    for s in sg:
        if not isinstance(s, str):
            if may_contain(s, '{') or may_contain(s, '}'):
                # user text is interpreted as a format template
                out.append(add_xf(s, ('format-template',)))
            else:
                out.append(s)
            continue
        out.append(_format_lit(ip, s, args, kw, mapping, auto))
    return mk(out)


def _format_lit(ip, s, args, kw, mapping, auto):
    import string
    out = []
    try:
        fields = list(string.Formatter().parse(s))
    except ValueError as e:
        ip.exc('ValueError', str(e))
    for lit, field, spec, conv in fields:
        if lit:
            out.append(lit)
        if field is None:
            continue
        m = re.match(r'^([^.\[]*)(.*)$', field)
        first, rest = m.group(1), m.group(2)
        if first == '':
            i = auto[0]
            auto[0] += 1
            if i >= len(args):
                ip.exc('IndexError', 'Replacement index out of range')
            x = args[i]
        elif first.isdigit():
            if int(first) >= len(args):
                ip.exc('IndexError', 'Replacement index out of range')
            x = args[int(first)]
        else:
            if mapping is not None:
                x = ip.getitem(mapping, first)
            elif first in kw:
                x = kw[first]
            else:
                ip.exc('KeyError', first)
        while rest:
            m = re.match(r'^\.([^.\[]+)|^\[([^\]]+)\]', rest)
            if not m:
                ip.exc('ValueError', 'bad format field')
            if m.group(1):
                x = ip.getattr(x, m.group(1))
            else:
                x = ip.getitem(x, int(m.group(2)) if m.group(2).isdigit() else m.group(2))
            rest = rest[m.end():]
        if '{' in spec:
            spec = _format_lit(ip, spec, args, kw, mapping, auto)
        out.append(ip.lib.format_value(ip, x, spec, conv))
    return mk(out)


_PCT = re.compile(r'%(?:\((\w*)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])')


def percent(ip, tpl, arg):
    tpl = ip.resolve(tpl)
    if isinstance(arg, PyObj) and isinstance(arg.payload, (PyDict, Seq)):
        whole = arg
        arg = arg.payload
    else:
        whole = arg
    out = []
    args = list(arg.items) if isinstance(arg, Seq) and arg.kind == 'tuple' else [arg]
    mapping = arg if isinstance(arg, PyDict) or isinstance(arg, Seq) and arg.kind in ('list', 'deque') or isinstance(whole, PyObj) and not is_strlike(arg) and not (isinstance(arg, Seq) and arg.kind == 'tuple') and ip.type_lookup(whole.cls, '__getitem__') is not None else None
    used = 0
    for s in segs(tpl):
        if not isinstance(s, str):
            out.append(add_xf(s, ('format-template',)) if may_contain(s, '%') else s)
            continue
        pos = 0
        while True:
            j = s.find('%', pos)
            if j < 0:
                out.append(s[pos:])
                break
            out.append(s[pos:j])
            m = _PCT.match(s, j)
            if not m:
                ip.exc('ValueError', 'incomplete format')
            pos = m.end()
            name, flags, width, prec, code = m.groups()
            if code == '%':
                out.append('%')
                continue
            if name is not None:
                if mapping is None:
                    ip.exc('TypeError', 'format requires a mapping')
                x = ip.getitem(whole, name)
            else:
                if used >= len(args):
                    ip.exc('TypeError', 'not enough arguments for format string')
                x = args[used]
                used += 1
            out.append(_pct_one(ip, x, flags or '', width, prec, code))
    if mapping is None and used < len(args):
        ip.exc('TypeError', 'not all arguments converted during string formatting')
    return mk(out)


def _pct_one(ip, x, flags, width, prec, code):
    x = ip.resolve(x)
    if code in 'sra':
        t = ip.tostr(x) if code == 's' else ip.lib.to_repr(ip, x)
        if width or prec:
            if isinstance(t, str):
                return ('%' + flags + (width or '') + ('.' + prec if prec else '') + 's') % t
            return SStr((Atom(('pct', t, flags, width, prec), 'any'),))
        return t
    spec = flags + (width or '') + ('.' + prec if prec is not None else '')
    if isinstance(x, PyObj) and x.payload is not None:
        x = x.payload
    if isinstance(x, Sym):
        if code in 'di' and x.kind == 'int' and not spec:
            return sym_text(x)
        if code in 'di' and x.kind in ('float', 'Decimal'):
            return SStr((Atom(('int', x.label), 'int', ()),))
        if code in 'fFeEgG' and x.kind in ('float', 'int', 'Decimal'):
            xf = (('fmt', spec + code.replace('F', 'f')),)
            if x.kind != 'float':
                xf = (('float',),) + xf
            return SStr((Atom(x.label, x.kind, xf),))
        if x.kind not in ('int', 'float', 'Decimal'):
            ip.exc('TypeError', '%%%s format: a number is required' % code)
        return SStr((Atom(x.label, x.kind, (('pct', spec + code),)),))
    if isinstance(x, (int, float, decimal.Decimal)):
        try:
            return ('%' + spec + code) % x
        except (TypeError, ValueError) as e:
            ip.exc(type(e).__name__, str(e))
    if code == 'c' and isinstance(x, str):
        return x
    ip.exc('TypeError', '%%%s format: a real number is required' % code)


def join(ip, sep, items, many=False):
    out = []
    for i, x in enumerate(items):
        x = ip.resolve(x)
        if isinstance(x, PyObj) and is_strlike(x.payload):
            x = x.payload
        if not is_strlike(x):
            ip.exc('TypeError', 'sequence item %d: expected str instance, %s found' % (i, ip.type_of(x).name))
        if i:
            out.append(sep)
        out.append(x)
    return mk(out)
