"""Specification of string literals and references, as functions and as languages."""
import re

from .. import regexlang as L
from .common import *

ESC = {'\\': '\\\\', "'": "''", '\n': '\\n'}
HOM = tuple(sorted(ESC.items()))


def ref_pattern(q):
    part = '%s(?:[^%s]|%s%s)+%s' % (q, q, q, q, q)
    return '%s(?:\\.(?:%s|[^%s. ]+)){0,2}' % (part, part, q)


def spec_is_reference(s, q):
    return re.fullmatch(ref_pattern(q), s.strip()) is not None


def spec_reference(s, q):
    out = []
    pos = 0
    raw = []
    tok = re.compile('%s((?:[^%s]|%s%s)+)%s|\\.' % (q, q, q, q, q))

    def flush():
        t = ''.join(raw)
        if t:
            out.append(t if t == '*' else q + t.replace(q, q + q) + q)
        raw[:] = []
    while pos < len(s):
        m = tok.match(s, pos)
        if m is None:
            raw.append(s[pos])
            pos += 1
            continue
        flush()
        if m.group(1) is not None:
            out.append(m.group(1) if m.group(1) == '*' else q + m.group(1) + q)
        pos = m.end()
    flush()
    return '.'.join(out)


def spec_literal(s):
    return "'" + ''.join(ESC.get(c, c) for c in s) + "'"


def spec_value(s, q):
    return spec_reference(s.strip(), q) if spec_is_reference(s, q) else spec_literal(s)


def literal(x):
    """Shape of the literal of an abstract string."""
    from .. import strlib
    return cat("'", strlib.hom(x, ESC), "'")


def path_lang(S, label):
    """Over-approximation of the strings the input can be on this partition."""
    out = L.sigma_star()
    for k, c in S.ip.ctx.facts.items():
        if not isinstance(k, tuple) or c not in (0, 1):
            continue
        d = None
        try:
            if k[0] == 're' and isinstance(k[2], str):
                subj = k[4]
                d = L.lang(k[1], k[2], k[3])
            elif k[0] == 'nonempty':
                subj = SStr((k[1],))
                d = L.lang('fullmatch', '[\\s\\S]+')
            elif k[0] in ('startswith', 'endswith', 'contains') and isinstance(k[2], str):
                subj = k[1]
                e = re.escape(k[2])
                d = L.lang('fullmatch', {'startswith': e + '[\\s\\S]*', 'endswith': '[\\s\\S]*' + e, 'contains': '[\\s\\S]*' + e + '[\\s\\S]*'}[k[0]])
            elif k[0] == 'streq' and isinstance(k[1], str):
                subj = k[2]
                d = L.lang('fullmatch', re.escape(k[1]))
        except L.NotRegular:
            d = None
        if d is None or not isinstance(subj, SStr) or len(subj.segs) != 1 or not isinstance(subj.segs[0], Atom) or subj.segs[0].label != label:
            continue
        xf = subj.segs[0].xf
        if xf == ():
            pass
        elif len(xf) == 1 and xf[0][0] in ('strip', 'lstrip', 'rstrip') and len([t for t in xf[0][1:] if t is not None]) == 0:
            d = L.strip_preimage(d, xf[0][0] != 'rstrip', xf[0][0] != 'lstrip')
        else:
            continue
        out = L.boolop(out, d, (lambda a, b: a and b) if c == 0 else (lambda a, b: a and not b))
    return out


def atom_lang(S, a):
    """Over-approximation of the text an atom can stand for."""
    facts = S.ip.ctx.facts
    if a.kind == 'plain' and not a.xf:
        return L.lang('fullmatch', '[a-z][a-z0-9_]*')
    if not a.xf:
        return path_lang(S, a.label)
    base = Atom(a.label, a.kind, a.xf[:-1])
    t = a.xf[-1]
    if t[0] == 'hom':
        d = L.image(atom_lang(S, base), dict(t[1]))
    elif t[0] == 'repiece':
        try:
            d = L.without(''.join(sorted(t[2]))) if t[4] == 'text' else L.group_lang(t[1], t[4])
        except L.NotRegular:
            d = L.sigma_star()
    else:
        d = L.sigma_star()
    for k, c in facts.items():
        if not isinstance(k, tuple) or c not in (0, 1):
            continue
        f = None
        if k[0] == 'nonempty' and k[1] == a:
            f = L.lang('fullmatch', '[\\s\\S]+')
        elif k[0] == 'streq' and isinstance(k[1], str) and k[2] == SStr((a,)):
            f = L.lang('fullmatch', re.escape(k[1]))
        elif k[0] in ('startswith', 'endswith', 'contains') and isinstance(k[2], str) and k[1] == SStr((a,)):
            e = re.escape(k[2])
            f = L.lang('fullmatch', {'startswith': e + '[\\s\\S]*', 'endswith': '[\\s\\S]*' + e, 'contains': '[\\s\\S]*' + e + '[\\s\\S]*'}[k[0]])
        if f is not None:
            d = L.boolop(d, f, (lambda x, y: x and y) if c == 0 else (lambda x, y: x and not y))
    return d


def shape_lang(S, v):
    parts = []
    for s in segs(v):
        if isinstance(s, str):
            parts.append(s)
        elif isinstance(s, Atom):
            parts.append(atom_lang(S, s))
        else:
            raise NotDecided('merged alternatives in %s' % show(v))
    return L.concat(parts)


def reference_lang(q):
    part = '(?:\\*|%s(?:[^%s]|%s%s)+%s)' % (q, q, q, q, q)
    return L.lang('fullmatch', '(?:%s(?:\\.%s)*)?' % (part, part))
