"""Abstract values.

Strings live in a *shape* domain: a sequence of literal fragments and atoms.
An atom is an unknown input (label), the character-level transformations that
were applied to it, and nothing else: one shape stands for every string the
caller may supply.  Other scalars are `Sym` (label + type).  Collections keep
their representative elements and a `many` flag (length unknown, at least the
representatives).
"""
import itertools

_serial = itertools.count(1)


class Unsupported(Exception):
    """The analysis met a construct it has no transfer function for."""


class Raise(Exception):
    """An exception raised by the analysed program (abstractly)."""

    def __init__(self, obj, site=None):
        super().__init__()
        self.obj = obj
        self.site = site


# ---------------------------------------------------------------- strings

class Atom:
    __slots__ = ('label', 'kind', 'xf', '_h')

    def __init__(self, label, kind='str', xf=()):
        self.label = label
        self.kind = kind
        self.xf = xf
        self._h = hash((label, kind, xf))

    def __eq__(self, o):
        return isinstance(o, Atom) and self.label == o.label and self.kind == o.kind and self.xf == o.xf

    def __hash__(self):
        return self._h

    def __repr__(self):
        s = '<%s>' % (self.label,)
        for t in self.xf:
            s = '%s%s' % (t[0] if t[0] != 'hom' else 'esc' + repr(dict(t[1])), ('(' + s + (
                '' if len(t) == 1 or t[0] == 'hom' else ',' + ','.join(repr(x) for x in t[1:])) + ')'))
        return s


class Choice:
    """Summary of a pure call that returned different strings on different
    abstract paths: a set of (facts, shape) alternatives, as one segment."""
    __slots__ = ('name', 'args', 'alts', 'xf', '_h')

    def __init__(self, name, args, alts, xf=()):
        self.name = name
        self.args = args
        self.alts = alts          # frozenset of (frozenset(facts), shape)
        self.xf = xf
        self._h = hash((alts, xf))

    def __eq__(self, o):
        return isinstance(o, Choice) and self._h == o._h and self.xf == o.xf and self.alts == o.alts

    def __hash__(self):
        return self._h

    def __repr__(self):
        return '%s[%s]%s' % (self.name, ', '.join(map(show, self.args)), ''.join('.' + t[0] for t in self.xf))


class SStr:
    """Non-literal string shape (at least one atom)."""
    __slots__ = ('segs', '_h')

    def __init__(self, segs):
        self.segs = segs
        self._h = hash(segs)

    def __eq__(self, o):
        return isinstance(o, SStr) and self.segs == o.segs

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)


def show(v):
    if isinstance(v, SStr):
        return ''.join(s if isinstance(s, str) else '{%r}' % s for s in v.segs)
    if isinstance(v, tuple):
        return '(' + ', '.join(show(x) for x in v) + ')'
    return str(v)


def mk(segs):
    """Normalise a segment sequence; returns str when fully literal."""
    out = []
    for s in segs:
        if isinstance(s, SStr):
            parts = s.segs
        else:
            parts = (s,)
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(tuple(out))


def segs(v):
    if isinstance(v, SStr):
        return v.segs
    return (v,) if v else ()


def is_strlike(v):
    return isinstance(v, (str, SStr))


def compose(f, g):
    """g after f, both char homomorphisms (dict char -> str)."""
    keys = set(f) | set(g)
    h = {}
    for c in keys:
        img = ''.join(g.get(x, x) for x in f.get(c, c))
        if img != c:
            h[c] = img
    return h


def add_xf(seg, t):
    if isinstance(seg, str):
        return apply_xf(seg, t)
    xf = seg.xf
    if t[0] == 'hom':
        if not t[1]:
            return seg
        if xf and xf[-1][0] == 'hom':
            h = compose(dict(xf[-1][1]), dict(t[1]))
            xf = xf[:-1] + ((('hom', tuple(sorted(h.items()))),) if h else ())
        else:
            xf = xf + (t,)
    elif t[0] in ('strip', 'lstrip', 'rstrip', 'upper', 'lower') and xf and xf[-1] == t:
        return seg
    elif t[0] in ('lstrip', 'rstrip') and xf and xf[-1][0] in ('lstrip', 'rstrip', 'strip') and len(t) == 1 and len(xf[-1]) == 1:
        xf = xf[:-1] + (('strip',),)
    else:
        xf = xf + (t,)
    if isinstance(seg, Atom):
        return Atom(seg.label, seg.kind, xf)
    return Choice(seg.name, seg.args, seg.alts, xf)


def apply_xf(s, t):
    """Apply a transformation to a literal."""
    if t[0] == 'hom':
        d = dict(t[1])
        return ''.join(d.get(c, c) for c in s)
    if t[0] == 're.escape':
        import re
        return re.escape(s)
    if t[0] in ('str', 'repr-str'):
        return s
    m = getattr(str, t[0], None)
    if m is not None:
        r = m(s, *t[1:])
        if isinstance(r, str):
            return r
    raise Unsupported('transform %r on literal' % (t,))


# ---------------------------------------------------------------- scalars

class Sym:
    """Unknown non-string scalar of a known type."""
    __slots__ = ('label', 'kind', 'lo', 'rank')

    def __init__(self, label, kind, lo=None, rank=None):
        self.label = label
        self.kind = kind
        self.lo = lo
        self.rank = rank

    def __eq__(self, o):
        return isinstance(o, Sym) and self.label == o.label and self.kind == o.kind

    def __hash__(self):
        return hash((self.label, self.kind))

    def __repr__(self):
        return '<%s:%s>' % (self.label, self.kind)


# ---------------------------------------------------------------- heap

class Cell:
    __slots__ = ('serial', 'origin')

    def _init(self, origin=None):
        self.serial = next(_serial)
        self.origin = origin


class Seq(Cell):
    __slots__ = ('kind', 'items', 'many')

    def __init__(self, kind, items, many=False, origin=None):
        self._init(origin)
        self.kind = kind            # list | tuple | range | deque
        self.items = items
        self.many = many

    def __repr__(self):
        return '%s%r%s' % (self.kind, self.items, '*' if self.many else '')


class PyDict(Cell):
    __slots__ = ('kind', 'keys', 'vals', 'factory', 'many')

    def __init__(self, pairs=(), kind='dict', origin=None, many=False):
        self._init(origin)
        self.kind = kind            # dict | OrderedDict | defaultdict
        self.keys = [k for k, _ in pairs]
        self.vals = [v for _, v in pairs]
        self.factory = None
        self.many = many

    def __repr__(self):
        return '%s{%s}' % (self.kind, ', '.join('%r: %r' % kv for kv in zip(self.keys, self.vals)))


class LiveDict(PyDict):
    """obj.__dict__"""
    __slots__ = ('owner',)

    def __init__(self, owner):
        PyDict.__init__(self, list(owner.attrs.items()))
        self.owner = owner

    def sync(self):
        self.owner.attrs = dict(zip(self.keys, self.vals))


class PySet(Cell):
    __slots__ = ('kind', 'items', 'many')

    def __init__(self, kind, items, origin=None, many=False):
        self._init(origin)
        self.kind = kind            # set | frozenset
        self.items = items
        self.many = many

    def __repr__(self):
        return '%s%r' % (self.kind, self.items)


class PyObj(Cell):
    __slots__ = ('cls', 'attrs', 'payload')

    def __init__(self, cls, origin=None):
        self._init(origin)
        self.cls = cls
        self.attrs = {}
        self.payload = None

    def __repr__(self):
        return '<%s #%d>' % (self.cls.name, self.serial)


class PyClass(Cell):
    __slots__ = ('name', 'qualname', 'bases', 'mro', 'ns', 'module', 'real', 'meta', 'subs')

    def __init__(self, name, bases, ns, module=None, real=None, qualname=None):
        self._init(None)
        self.name = name
        self.qualname = qualname or name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.real = real
        self.meta = None
        self.subs = []
        self.mro = None

    def __repr__(self):
        return "<class '%s'>" % self.name


class Module(Cell):
    __slots__ = ('name', 'ns', 'file', 'ispkg', 'stub')

    def __init__(self, name, file=None, ispkg=False, stub=False):
        self._init(None)
        self.name = name
        self.ns = {'__name__': name}
        self.file = file
        self.ispkg = ispkg
        self.stub = stub

    def __repr__(self):
        return '<module %s>' % self.name


class PyFunc(Cell):
    __slots__ = ('name', 'qualname', 'node', 'module', 'frame', 'defaults', 'kwdefaults', 'attrs', 'cls', 'isgen', 'localnames', 'info', 'abstract')

    def __init__(self):
        self._init(None)
        self.attrs = {}
        self.cls = None
        self.abstract = False

    def __repr__(self):
        return '<function %s>' % self.qualname


class Bound:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self)


class Builtin:
    """Function implemented by the analysis: fn(interp, args, kwds)."""
    __slots__ = ('name', 'fn', 'attrs')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.attrs = {}

    def __repr__(self):
        return '<builtin %s>' % self.name


class Prop:
    __slots__ = ('fget', 'fset', 'fdel', 'cached', 'name')

    def __init__(self, fget=None, fset=None, fdel=None, cached=False, name=None):
        self.fget, self.fset, self.fdel, self.cached, self.name = fget, fset, fdel, cached, name


class ClassM:
    __slots__ = ('func',)

    def __init__(self, func):
        self.func = func


class StaticM:
    __slots__ = ('func',)

    def __init__(self, func):
        self.func = func


class Super:
    __slots__ = ('cls', 'self', 'start')

    def __init__(self, cls, self_, start):
        self.cls, self.self, self.start = cls, self_, start


class Iter(Cell):
    """One-shot iterator; kind 'generator' for generator objects."""
    __slots__ = ('it', 'kind', 'peek', 'label')

    def __init__(self, it, kind='iterator', label=None, origin=None):
        self._init(origin)
        self.it = it
        self.kind = kind
        self.label = label


class NotImpl:
    def __repr__(self):
        return 'NotImplemented'


NOTIMPL = NotImpl()


class EllipsisV:
    def __repr__(self):
        return 'Ellipsis'


ELLIPSIS = EllipsisV()
