"""Transfer functions for the builtin types and functions."""
import builtins as hb
import collections
import collections.abc
import datetime
import decimal
import functools
import operator
import re
import types

from . import values as V
from . import strlib as S
from .values import (Atom, Choice, SStr, Sym, Seq, PyDict, PySet, PyObj, PyClass, Module, PyFunc, Bound, Builtin, Prop,
                     ClassM, StaticM, Super, Iter, NOTIMPL, ELLIPSIS, Raise, Unsupported, mk, segs, is_strlike)


class MatchV:
    """Result of a successful regular-expression match."""

    def __init__(self, groups, names=None, string=None, whole=None):
        self.groups, self.names, self.string = groups, names or {}, string
        self.whole = whole


class PatV:
    def __init__(self, pattern, flags):
        self.pattern, self.flags = pattern, flags


class StructTime:
    pass


KIND_REAL = {'int': int, 'float': float, 'Decimal': decimal.Decimal, 'bytes': bytes, 'bool': bool,
             'date': datetime.date, 'datetime': datetime.datetime, 'time': datetime.time, 'complex': complex,
             'timedelta': datetime.timedelta}
SEQ_REAL = {'list': list, 'tuple': tuple, 'range': range, 'deque': collections.deque,
            'dict_keys': type({}.keys()), 'dict_values': type({}.values()), 'dict_items': type({}.items())}
DICT_REAL = {'dict': dict, 'OrderedDict': collections.OrderedDict, 'defaultdict': collections.defaultdict,
             'Counter': collections.Counter, 'mappingproxy': types.MappingProxyType}

_B = {}


def bclass(real):
    c = _B.get(real)
    if c is None:
        c = PyClass(real.__name__, [], {}, None, real, real.__qualname__)
        c.serial = 0
        _B[real] = c
        c.mro = [c] + [bclass(x) for x in real.__mro__[1:]]
        c.bases = [bclass(x) for x in real.__bases__]
    return c


def real_type(v):
    if isinstance(v, SStr):
        return str
    if isinstance(v, Sym):
        return KIND_REAL[v.kind]
    if isinstance(v, Seq):
        return SEQ_REAL[v.kind]
    if isinstance(v, PyDict):
        return DICT_REAL[v.kind]
    if isinstance(v, PySet):
        return set if v.kind == 'set' else frozenset
    if isinstance(v, PyClass):
        return type
    if isinstance(v, Module):
        return types.ModuleType
    if isinstance(v, PyFunc):
        return types.FunctionType
    if isinstance(v, Bound):
        return types.MethodType
    if isinstance(v, Builtin):
        return types.BuiltinFunctionType
    if isinstance(v, Iter):
        return types.GeneratorType if v.kind == 'generator' else type(iter([]))
    if isinstance(v, Prop):
        return property
    if isinstance(v, ClassM):
        return classmethod
    if isinstance(v, StaticM):
        return staticmethod
    if isinstance(v, MatchV):
        return re.Match
    if isinstance(v, PatV):
        return re.Pattern
    if v is NOTIMPL:
        return type(NotImplemented)
    if v is ELLIPSIS:
        return type(...)
    if v is None or isinstance(v, (bool, int, float, str, bytes, complex, slice, decimal.Decimal,
                                   datetime.date, datetime.datetime, datetime.timedelta, datetime.time, bytearray)):
        return type(v)
    raise Unsupported('type of %r' % (v,))


HOST = (bool, int, float, complex, str, bytes, decimal.Decimal, datetime.date, datetime.time, datetime.timedelta, type(None))


def is_host(v):
    return isinstance(v, HOST)


NUMK = ('int', 'float', 'Decimal', 'bool')


def unwrap(v):
    """Payload of an instance of a subclass of a builtin container/scalar."""
    if isinstance(v, PyObj) and v.payload is not None:
        return v.payload
    return v


def user_slot(ip, o, name):
    """User-defined special method (not inherited from a builtin type)."""
    if not isinstance(o, PyObj):
        return None
    for c in o.cls.mro:
        if name in c.ns:
            return c.ns[name]
        if c.real is not None and c.real is not object:
            return None
    return None


def call_slot(ip, slot, o, *args):
    return ip.call(ip.bind(slot, o, o.cls), list(args))


# ---------------------------------------------------------------- truth

def truth(ip, v):
    if isinstance(v, bool) or v is None:
        return bool(v)
    if isinstance(v, str):
        return bool(v)
    if isinstance(v, SStr):
        return S.str_truth(ip, v)
    if isinstance(v, Sym):
        v = ip.resolve(v)
        if not isinstance(v, Sym):
            return bool(v)
        if v.kind in ('date', 'datetime', 'time'):
            return True
        if v.kind == 'bytes':
            return ip.decide(('nonempty', v))
        lo, hi = ip.bounds(v)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return True
        if ip.decide(('nonzero', v)):
            if v.kind == 'int' and lo == 0:
                ip.set_bounds(v, 1, hi)
            return True
        if v.kind == 'int':
            ip.ctx.subst[v] = 0
        return False
    if isinstance(v, (Seq, PySet, PyDict)):
        n = len(v.keys) if isinstance(v, PyDict) else len(v.items)
        return n > 0
    if isinstance(v, PyObj):
        b = ip.type_lookup(v.cls, '__bool__')
        if b is not None:
            r = ip.call(ip.bind(b, v, v.cls), [])
            return truth(ip, r)
        if v.payload is not None and user_slot(ip, v, '__len__') is None:
            return truth(ip, v.payload)
        l = ip.type_lookup(v.cls, '__len__')
        if l is not None:
            return truth(ip, ip.call(ip.bind(l, v, v.cls), []))
        return True
    if is_host(v):
        return bool(v)
    return True


# ---------------------------------------------------------------- equality, order

def eq(ip, a, b):
    return truth(ip, compare(ip, 'Eq', a, b))


def identical(ip, a, b):
    if a is b:
        return True
    if isinstance(a, (Sym, SStr)) or isinstance(b, (Sym, SStr)):
        return type(a) is type(b) and a == b
    if is_host(a) and is_host(b):
        return type(a) is type(b) and a == b
    if isinstance(a, Bound) and isinstance(b, Bound):
        return False
    return False


def same(ip, a, b):
    """identity-or-equality, as used by containers"""
    return identical(ip, a, b) or eq(ip, a, b)


DUNDER = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}
SWAP = {'Eq': 'Eq', 'NotEq': 'NotEq', 'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE'}


def compare(ip, op, a, b):
    a, b = ip.resolve(a), ip.resolve(b)
    if op == 'Is':
        return identical(ip, a, b)
    if op == 'IsNot':
        return not identical(ip, a, b)
    if op == 'In':
        return contains(ip, b, a)
    if op == 'NotIn':
        return not contains(ip, b, a)
    if isinstance(a, PyObj) or isinstance(b, PyObj):
        return rich(ip, op, a, b)
    if op == 'Eq':
        return base_eq(ip, a, b)
    if op == 'NotEq':
        return not base_eq(ip, a, b)
    return base_order(ip, op, a, b)


def rich(ip, op, a, b):
    d, rd = DUNDER[op], DUNDER[SWAP[op]]
    tries = [(a, b, d), (b, a, rd)]
    if isinstance(a, PyObj) and isinstance(b, PyObj) and a.cls is not b.cls and ip.issub(b.cls, a.cls):
        tries.reverse()
    for x, y, m in tries:
        if not isinstance(x, PyObj):
            continue
        f = ip.type_lookup(x.cls, m)
        if isinstance(f, Builtin) and f.name == 'object.__ne__':
            f = None
            g = ip.type_lookup(x.cls, '__eq__')
            if g is not None:
                r = ip.call(ip.bind(g, x, x.cls), [y])
                if r is not NOTIMPL:
                    return not truth(ip, r)
            continue
        if f is None:
            continue
        r = ip.call(ip.bind(f, x, x.cls), [y])
        if r is not NOTIMPL:
            return r
    ua, ub = unwrap(a), unwrap(b)
    if op == 'Eq':
        return a is b
    if op == 'NotEq':
        return a is not b
    ip.exc('TypeError', "'%s' not supported between instances of '%s' and '%s'" % (
        {'Lt': '<', 'Gt': '>', 'LtE': '<=', 'GtE': '>='}[op], ip.type_of(a).name, ip.type_of(b).name))


def base_eq(ip, a, b):
    if is_strlike(a) and is_strlike(b):
        return S.str_eq(ip, a, b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return num_eq(ip, a, b)
    if isinstance(a, Seq) and a.kind in ('dict_keys', 'dict_items') or isinstance(b, Seq) and b.kind in ('dict_keys', 'dict_items'):
        a, b = _as_set(a), _as_set(b)
        if a is None or b is None:
            return False
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a is b:
            return True
        if a.kind == 'dict_values':
            return False
        if a.kind != b.kind or len(a.items) != len(b.items):
            return False
        return all(same(ip, x, y) for x, y in zip(list(a.items), list(b.items)))
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        if len(a.keys) != len(b.keys):
            return False
        if a.kind == b.kind == 'OrderedDict':
            return all(same(ip, x, y) and same(ip, u, v) for x, y, u, v in zip(a.keys, b.keys, a.vals, b.vals))
        for k, v in zip(a.keys, a.vals):
            i = dict_find(ip, b, k)
            if i is None or not same(ip, v, b.vals[i]):
                return False
        return True
    if isinstance(a, PySet) and isinstance(b, PySet):
        return len(a.items) == len(b.items) and all(set_find(ip, b, x) is not None for x in a.items)
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.func is b.func and a.self is b.self
    if is_host(a) and is_host(b):
        return a == b
    return a is b


def num_eq(ip, a, b):
    if a == b and type(a) is type(b):
        return True
    if not isinstance(a, Sym):
        a, b = b, a
    if isinstance(b, Sym):
        if (a.kind in NUMK) != (b.kind in NUMK):
            return False
        if a.kind not in NUMK and a.kind != b.kind:
            return False
        if ip.ctx_distinct(a.label, b.label):
            return False
        x, y = sorted((a, b), key=repr)
        if ip.decide(('numeq', x, y)):
            if a.kind == b.kind:
                ip.ctx.subst[y] = x
            return True
        return False
    if a.kind in NUMK:
        if not isinstance(b, (int, float, decimal.Decimal)):
            return False
        if a.kind == 'int':
            lo, hi = ip.bounds(a)
            if (lo is not None and b < lo) or (hi is not None and b > hi):
                return False
            if isinstance(b, float) and not b.is_integer():
                return False
            if b == 0:
                return not truth(ip, a)
            if ip.decide(('numeq', a, int(b))):
                ip.ctx.subst[a] = int(b)
                return True
            return False
        if b == 0:
            return not truth(ip, a)
        if ip.decide(('numeq', a, b)):
            if a.kind == 'float':
                ip.ctx.subst[a] = float(b)
            return True
        return False
    if a.kind == 'bytes':
        if not isinstance(b, (bytes, bytearray)):
            return False
        if b == b'':
            return not truth(ip, a)
        return ip.decide(('byteseq', a, bytes(b)))
    return False


def base_order(ip, op, a, b):
    if isinstance(a, Seq) and a.kind in ('dict_keys', 'dict_items') or isinstance(b, Seq) and b.kind in ('dict_keys', 'dict_items'):
        if _as_set(a) is not None and _as_set(b) is not None:
            a, b = _as_set(a), _as_set(b)
    if op == 'Gt':
        return base_order(ip, 'Lt', b, a)
    if op in ('LtE', 'GtE'):
        x, y = (a, b) if op == 'LtE' else (b, a)
        # x <= y
        if isinstance(x, PySet) and isinstance(y, PySet):
            return all(set_find(ip, y, e) is not None for e in x.items)
        if isinstance(x, (Seq,)) and isinstance(y, Seq):
            return not seq_lt(ip, y, x)
        return not base_order(ip, 'Lt', y, x)
    if is_strlike(a) and is_strlike(b):
        return S.str_lt(ip, a, b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return num_lt(ip, a, b)
    if isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind:
        return seq_lt(ip, a, b)
    if isinstance(a, PySet) and isinstance(b, PySet):
        return len(a.items) < len(b.items) and all(set_find(ip, b, e) is not None for e in a.items)
    if is_host(a) and is_host(b):
        try:
            return a < b
        except TypeError as e:
            ip.exc('TypeError', str(e))
    ip.exc('TypeError', "'<' not supported between instances of '%s' and '%s'" % (ip.type_of(a).name, ip.type_of(b).name))


def seq_lt(ip, a, b):
    for x, y in zip(list(a.items), list(b.items)):
        if same(ip, x, y):
            continue
        return truth(ip, compare(ip, 'Lt', x, y))
    return len(a.items) < len(b.items)


def num_lt(ip, a, b):
    ka = a.kind if isinstance(a, Sym) else None
    kb = b.kind if isinstance(b, Sym) else None

    def numeric(x, k):
        return k in NUMK if k else isinstance(x, (int, float, decimal.Decimal))
    if numeric(a, ka) != numeric(b, kb) or (not numeric(a, ka) and type(a) is not type(b)):
        ip.exc('TypeError', "'<' not supported between instances of '%s' and '%s'" % (ip.type_of(a).name, ip.type_of(b).name))
    if a == b:
        return False
    ra, rb = ip.ctx_rank(a), ip.ctx_rank(b)
    if ra is not None and rb is not None and ra != rb:
        return ra < rb
    if ka == 'int' and isinstance(b, int):
        lo, hi = ip.bounds(a)
        if hi is not None and hi < b:
            return True
        if lo is not None and lo >= b:
            return False
        if ip.decide(('numlt', a, int(b))):
            ip.set_bounds(a, lo, b - 1)
            return True
        ip.set_bounds(a, b, hi)
        return False
    if kb == 'int' and isinstance(a, int):
        # a < b  <=>  not (b < a+1)
        return not num_lt(ip, b, a + 1)
    if (isinstance(a, Sym) and a.kind == 'bytes') or ka not in NUMK + (None,):
        return ip.decide(('lt', a, b))
    return ip.decide(('numlt', a, b))


def contains(ip, box, x):
    if isinstance(box, PyObj):
        c = ip.type_lookup(box.cls, '__contains__')
        if c is not None:
            return truth(ip, ip.call(ip.bind(c, box, box.cls), [x]))
        if box.payload is not None:
            return contains(ip, box.payload, x)
        return any(same(ip, y, x) for y in iterate(ip, box))
    if is_strlike(box):
        if not is_strlike(x):
            ip.exc('TypeError', "'in <string>' requires string as left operand")
        return S.contains(ip, box, x)
    if isinstance(box, Seq):
        return any(same(ip, y, x) for y in list(box.items))
    if isinstance(box, PySet):
        return set_find(ip, box, x) is not None
    if isinstance(box, PyDict):
        return dict_find(ip, box, x) is not None
    if isinstance(box, Iter):
        return any(same(ip, y, x) for y in iterate(ip, box))
    if isinstance(box, PyClass):
        return any(same(ip, y, x) for y in iterate(ip, box))
    if isinstance(box, bytes) and isinstance(x, (bytes, int)):
        return x in box
    ip.exc('TypeError', "argument of type '%s' is not iterable" % ip.type_of(box).name)


# ---------------------------------------------------------------- hashing

def hash_of(ip, v):
    """('s', value) for values hashed by content, ('id', n) for identity."""
    v = ip.resolve(v)
    if isinstance(v, (SStr, Sym)) or is_host(v):
        return ('s', v)
    if isinstance(v, Seq):
        if v.kind == 'tuple':
            hs = [hash_of(ip, x) for x in v.items]
            if any(h[0] == 'id' for h in hs):
                return ('t', tuple(h if h[0] == 'id' else None for h in hs))
            return ('s', None)
        if v.kind == 'range':
            return ('s', None)
        ip.exc('TypeError', "unhashable type: '%s'" % v.kind)
    if isinstance(v, PyDict):
        ip.exc('TypeError', "unhashable type: '%s'" % v.kind)
    if isinstance(v, PySet):
        if v.kind == 'frozenset':
            return ('s', None)
        ip.exc('TypeError', "unhashable type: 'set'")
    if isinstance(v, PyObj):
        for c in v.cls.mro:
            if '__hash__' in c.ns:
                f = c.ns['__hash__']
                if f is None:
                    ip.exc('TypeError', "unhashable type: '%s'" % v.cls.name)
                r = ip.call(ip.bind(f, v, v.cls), [])
                return ('hash', r)
            if c.real in (list, dict, set):
                ip.exc('TypeError', "unhashable type: '%s'" % v.cls.name)
            if c.real in (str, int, tuple, float, frozenset):
                return hash_of(ip, v.payload)
        return ('id', v.serial)
    if isinstance(v, Bound):
        return ('s', None)
    if isinstance(v, V.Cell):
        return ('id', v.serial) if not isinstance(v, PyClass) else ('cls', id(v))
    return ('id', id(v))


def hash_may_equal(ip, h, g):
    def norm(x):
        if x[0] == 'hash':
            r = x[1]
            if isinstance(r, int) and r >= ID_BASE:
                return ('id', (r - ID_BASE) // 16)
            if isinstance(r, Sym) and isinstance(r.label, tuple) and r.label[0] == 'hash':
                return ('s', None)
            return ('s', None)
        return x
    h, g = norm(h), norm(g)
    if h[0] in ('id', 'cls') or g[0] in ('id', 'cls'):
        return h == g
    if h[0] == 't' and g[0] == 't':
        return h == g
    return True


ID_BASE = 140000000000000


def key_same(ip, k, hk, x, hx):
    if identical(ip, k, x):
        return True
    if not hash_may_equal(ip, hk, hx):
        return False
    return eq(ip, k, x)


def simple_key(v):
    return isinstance(v, (str, int, bytes)) or v is None


def dict_find(ip, d, k):
    k = ip.resolve(k)
    hk = hash_of(ip, k)
    if isinstance(k, str):
        abstract = False
        for i, x in enumerate(d.keys):
            if isinstance(x, str):
                if x == k:
                    return i
            elif isinstance(x, (SStr, PyObj)):
                abstract = True
        if not abstract:
            return None
    for i, x in enumerate(list(d.keys)):
        if key_same(ip, x, hash_of(ip, x), k, hk):
            return i
    return None


def set_find(ip, s, k):
    hk = hash_of(ip, k)
    for i, x in enumerate(list(s.items)):
        if key_same(ip, x, hash_of(ip, x), k, hk):
            return i
    return None


def set_add(ip, s, x):
    if set_find(ip, s, x) is None:
        s.items.append(x)


def dict_set(ip, d, k, v):
    i = dict_find(ip, d, k)
    if i is None:
        d.keys.append(k)
        d.vals.append(v)
    else:
        d.vals[i] = v
    if isinstance(d, V.LiveDict):
        d.sync()


def dict_update(ip, d, src):
    for k, v in dict_pairs(ip, src):
        dict_set(ip, d, k, v)
    if ip.is_many(src):
        d.many = True


def dict_pairs(ip, src):
    src = unwrap(src)
    if isinstance(src, PyDict):
        return list(zip(src.keys, src.vals))
    if isinstance(src, PyObj) and ip.hasattr(src, 'keys'):
        return [(k, getitem(ip, src, k)) for k in iterate(ip, ip.call_method(src, 'keys'))]
    ip.exc('TypeError', 'not a mapping')


def pairs_from(ip, src):
    s = unwrap(src)
    if isinstance(s, PyDict) or (isinstance(src, PyObj) and ip.hasattr(src, 'keys')):
        return dict_pairs(ip, src)
    out = []
    for x in iterate(ip, src):
        it = list(iterate(ip, x))
        if len(it) != 2:
            ip.exc('ValueError', 'dictionary update sequence element has length %d; 2 is required' % len(it))
        out.append((it[0], it[1]))
    return out


# ---------------------------------------------------------------- iteration

def iterate(ip, v):
    v = ip.resolve(v)
    if isinstance(v, Seq):
        return _seq_iter(v)
    if isinstance(v, PyDict):
        return iter(list(v.keys))
    if isinstance(v, PySet):
        items = list(v.items)
        if len(items) > 1:
            k = ('setorder', v.serial, len(items))
            if ip.ctx.choose(k, 2, ip.site()) == 1:
                items.reverse()
        return iter(items)
    if isinstance(v, Iter):
        return _iter_iter(ip, v)
    if isinstance(v, str):
        return iter(v)
    if isinstance(v, bytes):
        return iter(v)
    if isinstance(v, SStr):
        if all(isinstance(s, str) for s in v.segs):
            return iter(''.join(v.segs))
        raise Unsupported('iteration over the characters of an abstract string at ' + ip.site())
    if isinstance(v, Sym) and v.kind == 'bytes':
        raise Unsupported('iteration over abstract bytes')
    if isinstance(v, PyObj):
        f = user_slot(ip, v, '__iter__')
        if f is not None:
            if isinstance(f, PyFunc) or f is not None:
                r = ip.call(ip.bind(f, v, v.cls), [])
                if r is v:
                    return _next_iter(ip, v)
                return iterate(ip, r)
        if v.payload is not None:
            return iterate(ip, v.payload)
        if user_slot(ip, v, '__next__') is not None:
            ip.exc('TypeError', "'%s' object is not iterable" % v.cls.name)
        if user_slot(ip, v, '__getitem__') is not None:
            return _getitem_iter(ip, v)
    if isinstance(v, PyClass):
        f = meta_slot(ip, v, '__iter__')
        if f is not None:
            return iterate(ip, ip.call(f, [v]))
        mem = v.ns.get('__members_list__')
        if mem is not None:
            return iter(list(mem.items))
    ip.exc('TypeError', "'%s' object is not iterable" % ip.type_of(v).name)


def _seq_iter(v):
    i = 0
    while i < len(v.items):
        yield v.items[i]
        i += 1


def _iter_iter(ip, v):
    while True:
        try:
            yield next(v.it)
        except StopIteration:
            return


def _next_iter(ip, v):
    f = ip.type_lookup(v.cls, '__next__')
    while True:
        try:
            x = ip.call(ip.bind(f, v, v.cls), [])
        except Raise as e:
            if ip.issub(e.obj.cls, bclass(StopIteration)):
                return
            raise
        yield x


def _getitem_iter(ip, v):
    i = 0
    while True:
        try:
            x = getitem(ip, v, i)
        except Raise as e:
            if ip.issub(e.obj.cls, bclass(IndexError)):
                return
            raise
        yield x
        i += 1


def make_iter(ip, src, kind='iterator', many=False):
    return Iter(iter(src), kind, label=[many])


def length(ip, v):
    v = ip.resolve(v)
    if isinstance(v, (Seq, PySet)):
        if v.many:
            return Sym(('len', v.serial), 'int', lo=len(v.items))
        return len(v.items)
    if isinstance(v, PyDict):
        if v.many:
            return Sym(('len', v.serial), 'int', lo=len(v.keys))
        return len(v.keys)
    if isinstance(v, (str, bytes)):
        return len(v)
    if isinstance(v, SStr):
        return Sym(('len', v), 'int', lo=sum(len(s) if isinstance(s, str) else (1 if S.surely_nonempty(s, ip.ctx.facts) else 0) for s in v.segs))
    if isinstance(v, Sym) and v.kind == 'bytes':
        return Sym(('len', v.label), 'int', lo=0)
    if isinstance(v, PyObj):
        f = user_slot(ip, v, '__len__')
        if f is not None:
            return call_slot(ip, f, v)
        if v.payload is not None:
            return length(ip, v.payload)
    if isinstance(v, PyClass) and '__members_list__' in v.ns:
        return len(v.ns['__members_list__'].items)
    ip.exc('TypeError', "object of type '%s' has no len()" % ip.type_of(v).name)


# ---------------------------------------------------------------- items

def as_index(ip, i):
    i = ip.resolve(i)
    if isinstance(i, PyObj):
        f = user_slot(ip, i, '__index__') if i.payload is None else None
        return ip.resolve(call_slot(ip, f, i)) if f is not None else unwrap(i)
    return i


def meta_slot(ip, c, name):
    meta = next((b.meta for b in c.mro or () if b.meta is not None), None)
    f = ip.type_lookup(meta, name) if meta is not None else None
    return f if isinstance(f, PyFunc) else None


def getitem(ip, o, i):
    o = ip.resolve(o)
    if isinstance(o, PyObj):
        f = user_slot(ip, o, '__getitem__')
        if f is not None:
            return call_slot(ip, f, o, i)
        if o.payload is not None:
            if isinstance(o.payload, PyDict):
                j = dict_find(ip, o.payload, i)
                if j is None:
                    m = user_slot(ip, o, '__missing__')
                    if m is not None:
                        return call_slot(ip, m, o, i)
            return getitem(ip, o.payload, i)
        ip.exc('TypeError', "'%s' object is not subscriptable" % o.cls.name)
    if is_strlike(o):
        return S.index(ip, o, i)
    if isinstance(o, Seq):
        i = as_index(ip, i)
        if isinstance(i, slice):
            return seq_slice(ip, o, i)
        if isinstance(i, Sym):
            raise Unsupported('abstract index')
        if not isinstance(i, int):
            ip.exc('TypeError', 'indices must be integers or slices')
        try:
            return o.items[i]
        except IndexError:
            if o.many:
                if ip.decide(('longer', o.serial, i)):
                    return o.items[-1]
            ip.exc('IndexError', '%s index out of range' % o.kind)
    if isinstance(o, PyDict):
        j = dict_find(ip, o, i)
        if j is None:
            if o.kind == 'defaultdict' and o.factory is not None:
                v = ip.call(o.factory, [])
                dict_set(ip, o, i, v)
                ip.log_write(o, 'defaultdict item')
                return v
            if o.kind == 'Counter':
                return 0
            ip.exc('KeyError', i)
        return o.vals[j]
    if isinstance(o, PyClass):
        f = meta_slot(ip, o, '__getitem__')
        if f is not None:
            return ip.call(f, [o, i])
        mem = o.ns.get('__members_map__')
        if mem is not None:
            return getitem(ip, mem, i)
        if o.real is not None or ip.type_lookup(o, '__class_getitem__') is not None:
            return o
    if isinstance(o, Builtin) and o.name.startswith(('typing.', 'union:')):
        return o
    if isinstance(o, MatchV):
        return match_group(ip, o, i)
    if isinstance(o, bytes) and isinstance(i, (int, slice)):
        try:
            return o[i]
        except IndexError:
            ip.exc('IndexError', 'index out of range')
    if isinstance(o, Sym) and o.kind == 'bytes':
        return Sym(('slice', o.label, repr(i)), 'bytes' if isinstance(i, slice) else 'int')
    ip.exc('TypeError', "'%s' object is not subscriptable" % ip.type_of(o).name)


def seq_slice(ip, o, sl):
    lo, hi, st = (unwrap(ip.resolve(x)) for x in (sl.start, sl.stop, sl.step))
    if any(isinstance(x, Sym) for x in (lo, hi, st)):
        if o.many and isinstance(hi, Sym) and hi.label == ('len', o.serial) and not isinstance(lo, Sym):
            return Seq(o.kind, list(o.items)[lo:], many=True)
        raise Unsupported('abstract slice')
    items = o.items[lo:hi:st]
    r = Seq('list' if o.kind == 'list' else 'tuple' if o.kind == 'tuple' else o.kind, list(items))
    if o.many:
        if isinstance(hi, int) and hi >= 0 and st in (None, 1):
            if hi > len(o.items) and ip.decide(('longer', o.serial, hi)):
                r.items.append(SStr((Atom('...truncated', 'trunc'),)))
        elif isinstance(hi, int) and hi < 0:
            r.many = True
            r.items = list(o.items[lo:None:st])
        else:
            r.many = True
    return r


def setitem(ip, o, i, v):
    if isinstance(o, PyObj):
        f = user_slot(ip, o, '__setitem__')
        if f is not None:
            call_slot(ip, f, o, i, v)
            return
        if o.payload is not None:
            ip.log_write(o, 'item')
            return setitem(ip, o.payload, i, v)
    if isinstance(o, Seq) and o.kind in ('list', 'deque'):
        ip.log_write(o, 'item')
        i = ip.resolve(i)
        if isinstance(i, slice):
            if any(isinstance(ip.resolve(x), Sym) for x in (i.start, i.stop, i.step)):
                raise Unsupported('abstract slice')
            new = list(iterate(ip, v))
            o.items[i] = new
            if i == slice(None, None, None):
                o.many = ip.is_many(v)
            return
        try:
            o.items[i] = v
        except IndexError:
            ip.exc('IndexError', 'list assignment index out of range')
        except TypeError:
            ip.exc('TypeError', 'list indices must be integers')
        return
    if isinstance(o, PyDict):
        ip.log_write(o, 'item')
        dict_set(ip, o, i, v)
        return
    ip.exc('TypeError', "'%s' object does not support item assignment" % ip.type_of(o).name)


def delitem(ip, o, i):
    if isinstance(o, PyObj):
        f = user_slot(ip, o, '__delitem__')
        if f is not None:
            call_slot(ip, f, o, i)
            return
        if o.payload is not None:
            ip.log_write(o, 'item')
            return delitem(ip, o.payload, i)
    if isinstance(o, Seq) and o.kind in ('list', 'deque'):
        ip.log_write(o, 'del item')
        try:
            del o.items[i]
        except IndexError:
            ip.exc('IndexError', 'list assignment index out of range')
        return
    if isinstance(o, PyDict):
        j = dict_find(ip, o, i)
        if j is None:
            ip.exc('KeyError', i)
        ip.log_write(o, 'del item')
        del o.keys[j]
        del o.vals[j]
        if isinstance(o, V.LiveDict):
            o.sync()
        return
    ip.exc('TypeError', 'object does not support item deletion')


# ---------------------------------------------------------------- operators

OPS = {'Add': ('__add__', operator.add), 'Sub': ('__sub__', operator.sub), 'Mult': ('__mul__', operator.mul),
       'Div': ('__truediv__', operator.truediv), 'FloorDiv': ('__floordiv__', operator.floordiv),
       'Mod': ('__mod__', operator.mod), 'Pow': ('__pow__', operator.pow), 'BitOr': ('__or__', operator.or_),
       'BitAnd': ('__and__', operator.and_), 'BitXor': ('__xor__', operator.xor),
       'LShift': ('__lshift__', operator.lshift), 'RShift': ('__rshift__', operator.rshift),
       'MatMult': ('__matmul__', operator.matmul)}


def binop(ip, op, a, b):
    a, b = ip.resolve(a), ip.resolve(b)
    name, host = OPS[op]
    if isinstance(a, PyObj) or isinstance(b, PyObj):
        rname = '__r' + name[2:]
        tries = [(a, b, name), (b, a, rname)]
        if op == 'Mod' and is_strlike(a) and not is_strlike(unwrap(b)):
            return S.percent(ip, a, b)
        if isinstance(a, PyObj) and isinstance(b, PyObj) and a.cls is not b.cls and ip.issub(b.cls, a.cls) \
                and ip.type_lookup(b.cls, rname) is not None:
            tries.reverse()
        for x, y, m in tries:
            if isinstance(x, PyObj):
                f = ip.type_lookup(x.cls, m)
                if f is not None:
                    r = ip.call(ip.bind(f, x, x.cls), [y])
                    if r is not NOTIMPL:
                        return r
        if op == 'Mod' and is_strlike(a):
            return S.percent(ip, a, b)
        a2, b2 = unwrap(a), unwrap(b)
        if a2 is not a or b2 is not b:
            return binop(ip, op, a2, b2)
        bad_op(ip, op, a, b)
    if is_strlike(a):
        if op == 'Add' and is_strlike(b):
            return mk([a, b])
        if op == 'Mod':
            return S.percent(ip, a, b)
        if op == 'Mult' and isinstance(b, int):
            return mk([a] * max(0, b))
        if op == 'Mult' and isinstance(b, Sym):
            return SStr((Atom(('repeat', a, b), 'any'),))
        bad_op(ip, op, a, b)
    if is_strlike(b) and op == 'Mult' and isinstance(a, int):
        return mk([b] * max(0, a))
    if isinstance(a, Seq) and isinstance(b, Seq) and op == 'Add' and a.kind == b.kind and a.kind in ('list', 'tuple', 'deque'):
        return Seq(a.kind, list(a.items) + list(b.items), many=a.many or b.many)
    if op == 'Mult' and isinstance(a, Seq) and isinstance(b, int):
        return Seq(a.kind, list(a.items) * max(0, b), many=a.many)
    if op == 'Mult' and isinstance(b, Seq) and isinstance(a, int):
        return Seq(b.kind, list(b.items) * max(0, a), many=b.many)
    if isinstance(a, Seq) and isinstance(b, Sym) and op == 'Mult' or isinstance(b, Seq) and isinstance(a, Sym) and op == 'Mult':
        raise Unsupported('sequence repetition by abstract count')
    sa, sb = _as_set(a), _as_set(b)
    if sa is not None and sb is not None and op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
        return set_op(ip, op, sa, sb)
    if isinstance(a, PyDict) and isinstance(b, PyDict) and op == 'BitOr':
        d = PyDict(list(zip(a.keys, a.vals)), a.kind, many=a.many)
        dict_update(ip, d, b)
        return d
    if op == 'BitOr' and (isinstance(a, PyClass) or a is None or _isunion(a)) and (isinstance(b, PyClass) or b is None or _isunion(b)):
        return make_union([a, b])
    if isinstance(a, (Sym,)) or isinstance(b, (Sym,)):
        return sym_op(ip, op, a, b)
    if is_host(a) and is_host(b) and a is not None and b is not None:
        try:
            return host(a, b)
        except (TypeError, ValueError, ZeroDivisionError, OverflowError) as e:
            ip.exc(type(e).__name__, str(e))
    bad_op(ip, op, a, b)


def bad_op(ip, op, a, b):
    ip.exc('TypeError', "unsupported operand type(s) for %s: '%s' and '%s'" % (op, ip.type_of(a).name, ip.type_of(b).name))


def _isunion(x):
    return isinstance(x, Builtin) and x.name.startswith('union:')


def make_union(ms):
    out = []
    for m in ms:
        out.extend(m.attrs['members'] if _isunion(m) else [m])
    b = Builtin('union:', None)
    b.attrs['members'] = out
    return b


def _as_set(v):
    if isinstance(v, PySet):
        return v
    if isinstance(v, Seq) and v.kind in ('dict_keys', 'dict_items'):
        return PySet('set', list(v.items), many=v.many)
    return None


def set_op(ip, op, a, b):
    r = PySet(a.kind, [])
    r.many = a.many or b.many
    if op == 'BitOr':
        r.items = list(a.items)
        for x in b.items:
            set_add(ip, r, x)
    elif op == 'BitAnd':
        r.items = [x for x in a.items if set_find(ip, b, x) is not None]
    elif op == 'Sub':
        r.items = [x for x in a.items if set_find(ip, b, x) is None]
    else:
        r.items = [x for x in a.items if set_find(ip, b, x) is None] + [x for x in b.items if set_find(ip, a, x) is None]
    if not r.items:
        r.many = False
    return r


def sym_op(ip, op, a, b):
    ka = a.kind if isinstance(a, Sym) else type(a).__name__
    kb = b.kind if isinstance(b, Sym) else type(b).__name__
    num = ('int', 'float', 'bool', 'Decimal')
    if ka in num and kb in num:
        if {ka, kb} == {'float', 'Decimal'}:
            bad_op(ip, op, a, b)
        if isinstance(b, (int, float)) and not isinstance(b, bool):
            if (op in ('Add', 'Sub') and b == 0 or op in ('Mult',) and b == 1) and type(b) is int:
                return a
            # x + c - c
            if op in ('Add', 'Sub') and isinstance(b, int) and isinstance(a, Sym) and isinstance(a.label, tuple) and a.label[0] == 'Add' \
                    and isinstance(a.label[2], int):
                c = a.label[2] + (b if op == 'Add' else -b)
                base = a.label[1]
                if c == 0:
                    return base
                return Sym(('Add', base, c), 'int', lo=None)
            if op in ('Add', 'Sub') and isinstance(b, int) and ka == 'int':
                c = b if op == 'Add' else -b
                lo, _ = ip.bounds(a)
                return Sym(('Add', a, c), 'int', lo=None if lo is None else lo + c)
        if op in ('Div', 'FloorDiv', 'Mod'):
            zero = not truth(ip, b)
            if zero:
                ip.exc('ZeroDivisionError', 'division by zero')
        kind = 'float' if 'float' in (ka, kb) or op == 'Div' and 'Decimal' not in (ka, kb) else 'Decimal' if 'Decimal' in (ka, kb) else 'int'
        return Sym((op, a, b), kind)
    if ka == 'bytes' and kb == 'bytes' and op == 'Add':
        return Sym((op, a, b), 'bytes')
    if ka in ('date', 'datetime') or kb in ('date', 'datetime'):
        return Sym((op, a, b), ka if ka in ('date', 'datetime') else kb)
    bad_op(ip, op, a, b)


def augop(ip, op, a, b):
    name = '__i' + OPS[op][0][2:]
    if isinstance(a, PyObj):
        f = user_slot(ip, a, name)
        if f is not None:
            r = call_slot(ip, f, a, b)
            if r is not NOTIMPL:
                return r
        if isinstance(a.payload, (Seq, PySet, PyDict)) and user_slot(ip, a, OPS[op][0]) is None:
            ip.log_write(a, op)
            r = augop(ip, op, a.payload, b)
            if r is a.payload:
                return a
    if isinstance(a, Seq) and a.kind in ('list', 'deque') and op == 'Add':
        many = ip.is_many(b)
        new = list(iterate(ip, b))
        ip.log_write(a, '+=')
        a.items.extend(new)
        a.many = a.many or many
        return a
    if isinstance(a, Seq) and a.kind == 'list' and op == 'Mult' and isinstance(b, int):
        ip.log_write(a, '*=')
        a.items[:] = a.items * max(0, b)
        return a
    if isinstance(a, PySet) and a.kind == 'set' and isinstance(unwrap(b), PySet) and op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
        r = set_op(ip, op, a, unwrap(b))
        ip.log_write(a, op)
        a.items = r.items
        return a
    if isinstance(a, PyDict) and op == 'BitOr':
        ip.log_write(a, '|=')
        for k, v in pairs_from(ip, b):
            dict_set(ip, a, k, v)
        return a
    return binop(ip, op, a, b)


def unop(ip, op, v):
    v = ip.resolve(v)
    name = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]
    if isinstance(v, PyObj):
        f = ip.type_lookup(v.cls, name)
        if f is not None:
            return call_slot(ip, f, v)
        v = unwrap(v)
    if isinstance(v, Sym) and v.kind in NUMK:
        return Sym((op, v), v.kind)
    if isinstance(v, (int, float, decimal.Decimal)):
        return {'USub': operator.neg, 'UAdd': operator.pos, 'Invert': operator.invert}[op](v)
    ip.exc('TypeError', 'bad operand type for unary %s' % op)


# ---------------------------------------------------------------- text

def to_str(ip, v):
    v = ip.resolve(v)
    if is_strlike(v):
        return v
    if isinstance(v, Sym):
        return S.sym_text(v)
    if isinstance(v, PyObj):
        f = ip.type_lookup(v.cls, '__str__')
        if f is not None:
            r = ip.call(ip.bind(f, v, v.cls), [])
            r = unwrap(r)
            if not is_strlike(r):
                ip.exc('TypeError', '__str__ returned non-string (type %s)' % ip.type_of(r).name)
            return r
        return to_repr(ip, v)
    if is_host(v):
        return str(v)
    return to_repr(ip, v)


def to_repr(ip, v):
    v = ip.resolve(v)
    if isinstance(v, SStr):
        return SStr((Atom(('repr', v), 'any'),))
    if isinstance(v, Sym):
        if v.kind == 'int':
            return S.sym_text(v)
        return SStr((Atom(v.label, v.kind, (('repr',),)),))
    if is_host(v):
        return repr(v)
    if isinstance(v, PyObj):
        f = ip.type_lookup(v.cls, '__repr__')
        if f is not None:
            r = ip.call(ip.bind(f, v, v.cls), [])
            if not is_strlike(r):
                ip.exc('TypeError', '__repr__ returned non-string')
            return r
    if isinstance(v, Seq):
        o, c = {'list': ('[', ']'), 'tuple': ('(', ')')}.get(v.kind, (v.kind + '([', '])'))
        out = [o]
        for i, x in enumerate(v.items):
            if i:
                out.append(', ')
            out.append(to_repr(ip, x))
        if v.kind == 'tuple' and len(v.items) == 1:
            out.append(',')
        return mk(out + [c])
    if isinstance(v, PyDict):
        out = ['{']
        for i, (k, x) in enumerate(zip(v.keys, v.vals)):
            if i:
                out.append(', ')
            out += [to_repr(ip, k), ': ', to_repr(ip, x)]
        return mk(out + ['}'])
    if isinstance(v, PySet):
        out = ['{']
        for i, x in enumerate(iterate(ip, v)):
            if i:
                out.append(', ')
            out.append(to_repr(ip, x))
        return mk(out + ['}'])
    if isinstance(v, PyClass):
        m = v.module.name + '.' if v.module else ''
        return "<class '%s%s'>" % (m, v.qualname)
    if isinstance(v, PyFunc):
        return SStr((Atom(('repr-function', v.qualname), 'any'),))
    if isinstance(v, bytearray):
        return repr(v)
    if isinstance(v, slice):
        return mk(['slice(', to_repr(ip, v.start), ', ', to_repr(ip, v.stop), ', ', to_repr(ip, v.step), ')'])
    return mk(['<', SStr((Atom(('repr', type(v).__name__), 'any'),)), '>'])


def format_value(ip, x, spec, conv):
    x = ip.resolve(x)
    if conv == 's':
        x = to_str(ip, x)
    elif conv in ('r', 'a'):
        x = to_repr(ip, x)
    if isinstance(x, PyObj):
        f = user_slot(ip, x, '__format__')
        if f is not None:
            return call_slot(ip, f, x, spec)
        if spec == '':
            return to_str(ip, x)
        if x.payload is not None:
            return format_value(ip, x.payload, spec, None)
        ip.exc('TypeError', 'unsupported format string passed to %s.__format__' % x.cls.name)
    if is_strlike(x):
        return S.format_str(ip, x, spec)
    if isinstance(x, Sym):
        return S.sym_format(ip, x, spec)
    if spec == '':
        return to_str(ip, x)
    if is_host(x) and isinstance(spec, str):
        try:
            return format(x, spec)
        except (TypeError, ValueError) as e:
            ip.exc(type(e).__name__, str(e))
    ip.exc('TypeError', 'unsupported format string passed to %s.__format__' % ip.type_of(x).name)


# ---------------------------------------------------------------- str methods

def _s(ip, v):
    v = ip.resolve(v)
    if isinstance(v, PyObj) and is_strlike(v.payload):
        v = v.payload
    return v


def _need_str(ip, v, what='argument'):
    v = _s(ip, v)
    if not is_strlike(v):
        ip.exc('TypeError', '%s must be str, not %s' % (what, ip.type_of(v).name))
    return v


def _pred(name):
    def f(ip, self, args, kw):
        v = _s(ip, self)
        if isinstance(v, str):
            return getattr(v, name)()
        if name == 'isidentifier' and all(not isinstance(s, str) and s.kind == 'plain' and not s.xf for s in v.segs):
            return True
        sg = v.segs
        if name in ('isdigit', 'isdecimal', 'isnumeric'):
            if any(isinstance(s, str) and not getattr(s, name)() for s in sg):
                return False
            if any(isinstance(s, Atom) and s.kind == 'plain' for s in sg):
                return False
        if name == 'isspace' and any(isinstance(s, str) and not s.isspace() or isinstance(s, Atom) and s.kind == 'plain' for s in sg):
            return False
        return ip.decide((name, v))
    return f


STR = {}
for _n in ('isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'isidentifier', 'isnumeric', 'isdecimal',
           'isascii', 'isprintable', 'istitle'):
    STR[_n] = _pred(_n)
for _n in S.CASE:
    STR[_n] = (lambda n: lambda ip, self, a, k: S.casemap(ip, _s(ip, self), n))(_n)
for _n in ('strip', 'lstrip', 'rstrip'):
    STR[_n] = (lambda n: lambda ip, self, a, k: S.strip(ip, _s(ip, self), n, _s(ip, a[0]) if a else None))(_n)


def _strm(name):
    def deco(f):
        STR[name] = f
        return f
    return deco


@_strm('format')
def _(ip, self, a, k):
    return S.str_format(ip, _s(ip, self), list(a), k)


@_strm('format_map')
def _(ip, self, a, k):
    return S.str_format(ip, _s(ip, self), [], {}, mapping=a[0])


@_strm('join')
def _(ip, self, a, k):
    it = a[0]
    if isinstance(it, SStr):
        raise Unsupported('join over characters')
    return S.join(ip, _s(ip, self), list(iterate(ip, it)))


@_strm('replace')
def _(ip, self, a, k):
    c = a[2] if len(a) > 2 else k.get('count')
    if c == -1:
        c = None
    return S.replace(ip, _s(ip, self), _need_str(ip, a[0]), _need_str(ip, a[1]), c)


@_strm('translate')
def _(ip, self, a, k):
    t = a[0]
    if not isinstance(unwrap(t), PyDict):
        raise Unsupported('translate table')
    t = unwrap(t)
    table = {}
    for kk, vv in zip(t.keys, t.vals):
        vv = ip.resolve(vv)
        if not isinstance(kk, int):
            continue
        if isinstance(vv, int):
            vv = chr(vv)
        elif vv is None:
            vv = ''
        if not isinstance(vv, str):
            raise Unsupported('translate to abstract text')
        table[chr(kk)] = vv
    return S.hom(_s(ip, self), table)


@_strm('split')
def _(ip, self, a, k):
    sep = a[0] if a else k.get('sep')
    mx = a[1] if len(a) > 1 else k.get('maxsplit', -1)
    return S.split(ip, _s(ip, self), sep, mx)


@_strm('rsplit')
def _(ip, self, a, k):
    sep = a[0] if a else k.get('sep')
    mx = a[1] if len(a) > 1 else k.get('maxsplit', -1)
    return S.split(ip, _s(ip, self), sep, mx, right=True)


@_strm('splitlines')
def _(ip, self, a, k):
    v = _s(ip, self)
    if isinstance(v, str):
        return Seq('list', v.splitlines(*a))
    return S.split(ip, v, '\n')


@_strm('partition')
def _(ip, self, a, k):
    return S.partition(ip, _s(ip, self), _s(ip, a[0]))


@_strm('rpartition')
def _(ip, self, a, k):
    return S.partition(ip, _s(ip, self), _s(ip, a[0]), right=True)


@_strm('startswith')
def _(ip, self, a, k):
    if len(a) > 1:
        raise Unsupported('startswith range')
    return S.startswith(ip, _s(ip, self), a[0])


@_strm('endswith')
def _(ip, self, a, k):
    return S.startswith(ip, _s(ip, self), a[0], end=True)


@_strm('removeprefix')
def _(ip, self, a, k):
    v, p = _s(ip, self), _s(ip, a[0])
    if S.startswith(ip, v, p):
        if isinstance(p, str):
            return S.slice_(ip, ip.resolve(v), slice(len(p), None))
        raise Unsupported('removeprefix')
    return v


@_strm('removesuffix')
def _(ip, self, a, k):
    v, p = _s(ip, self), _s(ip, a[0])
    if S.startswith(ip, v, p, end=True):
        if isinstance(p, str):
            return S.slice_(ip, ip.resolve(v), slice(None, -len(p) if p else None))
        raise Unsupported('removesuffix')
    return v


def _find(name):
    def f(ip, self, a, k):
        v, p = _s(ip, self), _need_str(ip, a[0])
        if isinstance(v, str) and isinstance(p, str):
            try:
                return getattr(v, name)(p, *a[1:])
            except ValueError as e:
                ip.exc('ValueError', str(e))
        if name == 'count':
            if not S.contains(ip, v, p):
                return 0
            return Sym(('count', v, p), 'int', lo=1)
        if not S.contains(ip, v, p):
            if name in ('index', 'rindex'):
                ip.exc('ValueError', 'substring not found')
            return -1
        first = segs(v)[0]
        if isinstance(first, str) and isinstance(p, str) and p in first and name in ('find', 'index'):
            return first.find(p)
        return Sym((name, v, p), 'int', lo=0)
    return f


for _n in ('find', 'rfind', 'index', 'rindex', 'count'):
    STR[_n] = _find(_n)


@_strm('encode')
def _(ip, self, a, k):
    v = _s(ip, self)
    if isinstance(v, str):
        try:
            return v.encode(*a, **k)
        except UnicodeEncodeError as e:
            unicode_error(ip, UnicodeEncodeError, e)
        except LookupError:
            raise Unsupported('encoding')
    codec = codec_of(ip, a[0] if a else k.get('encoding', 'utf-8'))
    errors = ip.resolve(a[1] if len(a) > 1 else k.get('errors', 'strict'))
    if codec in ('utf-8', 'ascii', 'latin-1') and not all(x.kind in ('int', 'float', 'Decimal', 'hex', 'date', 'datetime', 'ident') if isinstance(x, Atom) else isinstance(x, str) and x.isascii() for x in segs(v)) \
            and not ip.decide(('encodable', codec, v)):
        if errors == 'strict':
            unicode_error(ip, UnicodeEncodeError, 'codec')
        return Sym(('encode-lossy', v, codec, errors), 'bytes')
    return Sym(('encode', v, codec), 'bytes')


def codec_of(ip, c):
    c = ip.resolve(c)
    if not isinstance(c, str):
        raise Unsupported('abstract encoding')
    c = c.lower().replace('_', '-')
    return {'utf8': 'utf-8', 'us-ascii': 'ascii', 'latin1': 'latin-1', 'iso-8859-1': 'latin-1'}.get(c, c)


def unicode_error(ip, cls, e):
    o = PyObj(bclass(cls))
    o.attrs['args'] = Seq('tuple', [str(e)])
    raise Raise(o, ip.site())


def _pad(name):
    def f(ip, self, a, k):
        v = _s(ip, self)
        if isinstance(v, str) and all(isinstance(x, (int, str)) for x in a):
            return getattr(v, name)(*a)
        return SStr((Atom((name, v) + tuple(map(repr, a)), 'any'),))
    return f


for _n in ('zfill', 'ljust', 'rjust', 'center', 'expandtabs'):
    STR[_n] = _pad(_n)


# ---------------------------------------------------------------- list / tuple

LIST, TUPLE, DEQUE = {}, {}, {}


def _m(tables, name):
    def deco(f):
        for t in tables:
            t[name] = f
        return f
    return deco


def _q(v):
    return unwrap(v)


@_m([LIST, DEQUE], 'append')
def _(ip, self, a, k):
    s = _q(self)
    if len(a) != 1:
        ip.exc('TypeError', 'append() takes exactly one argument')
    ip.log_write(self, 'append')
    s.items.append(a[0])


@_m([LIST, DEQUE], 'extend')
def _(ip, self, a, k):
    s = _q(self)
    many = ip.is_many(a[0])
    new = list(iterate(ip, a[0]))
    ip.log_write(self, 'extend')
    s.items.extend(new)
    s.many = s.many or many


@_m([LIST, DEQUE], 'insert')
def _(ip, self, a, k):
    ip.log_write(self, 'insert')
    i = ip.resolve(a[0])
    if isinstance(i, Sym):
        raise Unsupported('insert at abstract index')
    _q(self).items.insert(i, a[1])


@_m([DEQUE], 'appendleft')
def _(ip, self, a, k):
    ip.log_write(self, 'appendleft')
    _q(self).items.insert(0, a[0])


@_m([LIST, DEQUE], 'pop')
def _(ip, self, a, k):
    s = _q(self)
    i = ip.resolve(a[0]) if a else -1
    try:
        v = s.items[i]
    except IndexError:
        ip.exc('IndexError', 'pop from empty list' if not s.items else 'pop index out of range')
    except TypeError:
        ip.exc('TypeError', 'pop index')
    ip.log_write(self, 'pop')
    del s.items[i]
    return v


@_m([DEQUE], 'popleft')
def _(ip, self, a, k):
    s = _q(self)
    if not s.items:
        ip.exc('IndexError', 'pop from an empty deque')
    ip.log_write(self, 'popleft')
    return s.items.pop(0)


@_m([LIST, DEQUE], 'remove')
def _(ip, self, a, k):
    s = _q(self)
    for i, x in enumerate(s.items):
        if same(ip, x, a[0]):
            ip.log_write(self, 'remove')
            del s.items[i]
            return None
    ip.exc('ValueError', 'list.remove(x): x not in list')


@_m([LIST, DEQUE], 'clear')
def _(ip, self, a, k):
    ip.log_write(self, 'clear')
    _q(self).items.clear()
    _q(self).many = False


@_m([LIST, DEQUE], 'reverse')
def _(ip, self, a, k):
    ip.log_write(self, 'reverse')
    _q(self).items.reverse()


@_m([LIST, DEQUE], 'copy')
def _(ip, self, a, k):
    s = _q(self)
    return Seq(s.kind, list(s.items), s.many)


@_m([LIST], 'sort')
def _(ip, self, a, k):
    s = _q(self)
    r = sort_items(ip, list(s.items), k.get('key'), k.get('reverse', False))
    ip.log_write(self, 'sort')
    s.items[:] = r


@_m([LIST, TUPLE, DEQUE], 'index')
def _(ip, self, a, k):
    items = list(_q(self).items)
    lo = a[1] if len(a) > 1 else 0
    for i, x in enumerate(items):
        if i >= lo and same(ip, x, a[0]):
            return i
    ip.exc('ValueError', 'not in list')


@_m([LIST, TUPLE, DEQUE], 'count')
def _(ip, self, a, k):
    return sum(1 for x in list(_q(self).items) if same(ip, x, a[0]))


def sort_items(ip, items, key=None, reverse=False):
    keyed = [(ip.call(key, [x]) if key is not None else x, x) for x in items]

    def cmp(p, q):
        if truth(ip, compare(ip, 'Lt', p[0], q[0])):
            return -1
        return 1 if truth(ip, compare(ip, 'Lt', q[0], p[0])) else 0

    # stable insertion by `<` only (what list.sort guarantees)
    out = []
    rev = truth(ip, reverse)
    for p in (reversed(keyed) if rev else keyed):
        i = len(out)
        while i > 0 and truth(ip, compare(ip, 'Lt', p[0], out[i - 1][0])):
            i -= 1
        out.insert(i, p)
    if rev:
        out.reverse()
    return [x for _, x in out]


# ---------------------------------------------------------------- dict

DICT = {}


def _d(self):
    return unwrap(self)


@_m([DICT], 'get')
def _(ip, self, a, k):
    d = _d(self)
    i = dict_find(ip, d, a[0])
    if i is None:
        return a[1] if len(a) > 1 else k.get('default')
    return d.vals[i]


@_m([DICT], 'keys')
def _(ip, self, a, k):
    d = _d(self)
    return Seq('dict_keys', list(d.keys), d.many)


@_m([DICT], 'values')
def _(ip, self, a, k):
    d = _d(self)
    return Seq('dict_values', list(d.vals), d.many)


@_m([DICT], 'items')
def _(ip, self, a, k):
    d = _d(self)
    return Seq('dict_items', [Seq('tuple', [x, y]) for x, y in zip(d.keys, d.vals)], d.many)


@_m([DICT], 'pop')
def _(ip, self, a, k):
    d = _d(self)
    i = dict_find(ip, d, a[0])
    if i is None:
        if len(a) > 1:
            return a[1]
        ip.exc('KeyError', a[0])
    ip.log_write(self, 'pop')
    v = d.vals[i]
    del d.keys[i], d.vals[i]
    if isinstance(d, V.LiveDict):
        d.sync()
    return v


@_m([DICT], 'most_common')
def _(ip, self, a, k):
    if self.kind != 'Counter' or any(isinstance(x, Sym) for x in self.vals):
        raise Unsupported('most_common')
    ps = sorted(zip(self.keys, self.vals), key=lambda p: -p[1])
    n = a[0] if a else k.get('n')
    return Seq('list', [Seq('tuple', list(p)) for p in (ps if n is None else ps[:n])])


@_m([DICT], 'popitem')
def _(ip, self, a, k):
    d = _d(self)
    if not d.keys:
        ip.exc('KeyError', 'popitem(): dictionary is empty')
    ip.log_write(self, 'popitem')
    last = a[0] if a else k.get('last', True)
    j = -1 if truth(ip, last) else 0
    return Seq('tuple', [d.keys.pop(j), d.vals.pop(j)])


@_m([DICT], 'move_to_end')
def _(ip, self, a, k):
    d = _d(self)
    i = dict_find(ip, d, a[0])
    if i is None:
        ip.exc('KeyError', a[0])
    ip.log_write(self, 'move_to_end')
    kk, vv = d.keys.pop(i), d.vals.pop(i)
    if truth(ip, k.get('last', a[1] if len(a) > 1 else True)):
        d.keys.append(kk)
        d.vals.append(vv)
    else:
        d.keys.insert(0, kk)
        d.vals.insert(0, vv)


@_m([DICT], 'setdefault')
def _(ip, self, a, k):
    d = _d(self)
    i = dict_find(ip, d, a[0])
    if i is not None:
        return d.vals[i]
    v = a[1] if len(a) > 1 else None
    ip.log_write(self, 'setdefault')
    dict_set(ip, d, a[0], v)
    return v


@_m([DICT], 'update')
def _(ip, self, a, k):
    d = _d(self)
    ip.log_write(self, 'update')
    if a:
        for x, y in pairs_from(ip, a[0]):
            dict_set(ip, d, x, y)
        if ip.is_many(a[0]):
            d.many = True
    for x, y in k.items():
        dict_set(ip, d, x, y)


@_m([DICT], 'copy')
def _(ip, self, a, k):
    d = _d(self)
    r = PyDict(list(zip(d.keys, d.vals)), d.kind, many=d.many)
    r.factory = d.factory
    return r


@_m([DICT], 'clear')
def _(ip, self, a, k):
    d = _d(self)
    ip.log_write(self, 'clear')
    d.keys, d.vals, d.many = [], [], False
    if isinstance(d, V.LiveDict):
        d.sync()


# ---------------------------------------------------------------- set

SET = {}


@_m([SET], 'add')
def _(ip, self, a, k):
    ip.log_write(self, 'add')
    set_add(ip, _q(self), a[0])


@_m([SET], 'discard')
def _(ip, self, a, k):
    i = set_find(ip, _q(self), a[0])
    if i is not None:
        ip.log_write(self, 'discard')
        del _q(self).items[i]


@_m([SET], 'remove')
def _(ip, self, a, k):
    i = set_find(ip, _q(self), a[0])
    if i is None:
        ip.exc('KeyError', a[0])
    ip.log_write(self, 'remove')
    del _q(self).items[i]


@_m([SET], 'pop')
def _(ip, self, a, k):
    s = _q(self)
    if not s.items:
        ip.exc('KeyError', 'pop from an empty set')
    x = list(iterate(ip, s))[0]
    ip.log_write(self, 'pop')
    s.items.remove(x)
    return x


@_m([SET], 'clear')
def _(ip, self, a, k):
    ip.log_write(self, 'clear')
    _q(self).items.clear()


@_m([SET], 'copy')
def _(ip, self, a, k):
    s = _q(self)
    return PySet(s.kind, list(s.items), many=s.many)


@_m([SET], 'update')
def _(ip, self, a, k):
    ip.log_write(self, 'update')
    for src in a:
        if ip.is_many(src):
            _q(self).many = True
        for x in iterate(ip, src):
            set_add(ip, _q(self), x)


def _setop(op):
    def f(ip, self, a, k):
        r = _q(self)
        for src in a:
            s = unwrap(src)
            if not isinstance(s, PySet):
                t = PySet('set', [])
                for x in iterate(ip, s):
                    set_add(ip, t, x)
                s = t
            r = set_op(ip, op, r, s)
        return r if r is not _q(self) else PySet(r.kind, list(r.items))
    return f


for _n, _o in (('union', 'BitOr'), ('intersection', 'BitAnd'), ('difference', 'Sub'), ('symmetric_difference', 'BitXor')):
    SET[_n] = _setop(_o)


def _setupd(op):
    def f(ip, self, a, k):
        r = _setop(op)(ip, self, a, k)
        ip.log_write(self, op)
        _q(self).items = list(r.items)
    return f


for _n, _o in (('intersection_update', 'BitAnd'), ('difference_update', 'Sub')):
    SET[_n] = _setupd(_o)


@_m([SET], 'issubset')
def _(ip, self, a, k):
    o = unwrap(a[0])
    return all(contains(ip, o, x) for x in list(_q(self).items))


@_m([SET], 'issuperset')
def _(ip, self, a, k):
    return all(contains(ip, _q(self), x) for x in iterate(ip, a[0]))


@_m([SET], 'isdisjoint')
def _(ip, self, a, k):
    return not any(contains(ip, _q(self), x) for x in iterate(ip, a[0]))


# ---------------------------------------------------------------- bytes, numbers, dates

BYTES, INT, FLOAT, DECIMAL, DATE, DATETIME = {}, {}, {}, {}, {}, {}


@_m([BYTES], 'hex')
def _(ip, self, a, k):
    v = unwrap(ip.resolve(self))
    if isinstance(v, bytes):
        return v.hex(*a)
    if a:
        raise Unsupported('bytes.hex(sep)')
    return SStr((Atom(v.label, 'hex'),))


@_m([BYTES], 'decode')
def _(ip, self, a, k):
    v = unwrap(ip.resolve(self))
    if isinstance(v, bytes):
        try:
            return v.decode(*a, **k)
        except UnicodeDecodeError as e:
            unicode_error(ip, UnicodeDecodeError, e)
        except LookupError:
            raise Unsupported('encoding')
    if isinstance(v.label, tuple) and v.label[0] == 'hexlify':
        return SStr((Atom(v.label[1], 'hex'),))
    if isinstance(v.label, tuple) and v.label[0] == 'encode' and v.label[2] == codec_of(ip, a[0] if a else k.get('encoding', 'utf-8')):
        return v.label[1]
    # arbitrary bytes may not decode
    if ip.decide(('decodes', v)):
        return SStr((Atom(('decode', v.label), 'str'),))
    cls = bclass(UnicodeDecodeError)
    o = PyObj(cls)
    o.attrs['args'] = Seq('tuple', ['codec'])
    raise Raise(o, ip.site())


@_m([BYTES], 'upper')
def _(ip, self, a, k):
    v = unwrap(ip.resolve(self))
    return v.upper() if isinstance(v, bytes) else Sym(('upper', v.label), 'bytes')


@_m([INT], 'bit_length')
def _(ip, self, a, k):
    v = unwrap(ip.resolve(self))
    return v.bit_length() if isinstance(v, int) else Sym(('bit_length', v), 'int', lo=0)


@_m([FLOAT], 'is_integer')
def _(ip, self, a, k):
    v = unwrap(ip.resolve(self))
    if isinstance(v, (int, float)):
        return float(v).is_integer()
    return ip.decide(('is_integer', v))


@_m([DECIMAL], 'quantize')
def _(ip, self, a, k):
    v = ip.resolve(self)
    if isinstance(v, decimal.Decimal) and isinstance(a[0], decimal.Decimal):
        return v.quantize(a[0])
    return Sym(('quantize', v, repr(a)), 'Decimal')


def _decpred(name):
    def f(ip, self, a, k):
        v = ip.resolve(self)
        if isinstance(v, decimal.Decimal):
            return getattr(v, name)()
        return ip.decide((name, v))
    return f


for _n in ('is_nan', 'is_finite', 'is_infinite', 'is_signed', 'is_zero'):
    DECIMAL[_n] = _decpred(_n)


@_m([DATE, DATETIME], 'isoformat')
def _(ip, self, a, k):
    v = ip.resolve(self)
    if isinstance(v, datetime.date):
        return v.isoformat(*a, **k)
    if v.kind == 'date':
        if a or k:
            ip.exc('TypeError', 'isoformat() takes no arguments')
        return SStr((Atom(v.label, 'iso'),))
    sep = a[0] if a else k.get('sep', 'T')
    ts = a[1] if len(a) > 1 else k.get('timespec', 'auto')
    if sep == 'T' and ts == 'auto':
        return SStr((Atom(v.label, 'iso'),))
    return SStr((Atom(v.label, 'iso', (('iso', sep, ts),)),))


@_m([DATE, DATETIME], 'strftime')
def _(ip, self, a, k):
    v = ip.resolve(self)
    if isinstance(v, datetime.date):
        return v.strftime(a[0])
    if a[0] == '%Y-%m-%d' and v.kind == 'date':
        # years below 1000 are not zero padded by every libc
        return SStr((Atom(v.label, 'iso', (('strftime', a[0]),)),))
    return SStr((Atom(v.label, 'dtstr', (('strftime', a[0]),)),))


@_m([DATETIME], 'date')
def _(ip, self, a, k):
    v = ip.resolve(self)
    if isinstance(v, datetime.datetime):
        return v.date()
    return Sym(('date', v.label), 'date')


def _dtm(name, kind):
    def f(ip, self, a, k):
        v = ip.resolve(self)
        if isinstance(v, datetime.date):
            try:
                return getattr(v, name)(*a, **k)
            except (TypeError, ValueError, OverflowError) as e:
                ip.exc(type(e).__name__, str(e))
        return Sym((name, v, repr(a), repr(sorted(k.items(), key=repr))), kind or v.kind)
    return f


for _n, _kd in (('replace', None), ('astimezone', None), ('timestamp', 'float'), ('toordinal', 'int'), ('weekday', 'int'), ('isoweekday', 'int')):
    DATE[_n] = DATETIME[_n] = _dtm(_n, _kd)

METHODS = {str: STR, bytes: BYTES, list: LIST, tuple: TUPLE, dict: DICT, set: SET, frozenset: SET, int: INT, float: FLOAT,
           decimal.Decimal: DECIMAL, datetime.date: DATE, datetime.datetime: DATETIME, collections.deque: DEQUE,
           type({}.keys()): SET, type({}.items()): SET, type({}.values()): {}, range: {'index': TUPLE['index'], 'count': TUPLE['count']},
           types.MappingProxyType: DICT}


# ---------------------------------------------------------------- attribute tables

def table_method(ip, real, name):
    for r in real.__mro__:
        t = METHODS.get(r)
        if t and name in t:
            return t[name]
    return None


def _gen_slots(ip, name):
    """Special methods shared by builtin containers/scalars, by operation."""
    f = {
        '__len__': lambda ip, s: length(ip, unwrap(s)),
        '__iter__': lambda ip, s: make_iter(ip, iterate(ip, unwrap(s)), many=ip.is_many(s)),
        '__getitem__': lambda ip, s, i: getitem(ip, unwrap(s), i),
        '__contains__': lambda ip, s, i: contains(ip, unwrap(s), i),
        '__str__': lambda ip, s: to_str(ip, unwrap(s)),
        '__repr__': lambda ip, s: to_repr(ip, unwrap(s)),
        '__eq__': lambda ip, s, o: _nt(ip, 'Eq', s, o),
        '__ne__': lambda ip, s, o: _nt(ip, 'NotEq', s, o),
        '__lt__': lambda ip, s, o: _nt(ip, 'Lt', s, o),
        '__le__': lambda ip, s, o: _nt(ip, 'LtE', s, o),
        '__gt__': lambda ip, s, o: _nt(ip, 'Gt', s, o),
        '__ge__': lambda ip, s, o: _nt(ip, 'GtE', s, o),
        '__add__': lambda ip, s, o: binop(ip, 'Add', unwrap(s), unwrap(o)),
        '__mul__': lambda ip, s, o: binop(ip, 'Mult', unwrap(s), unwrap(o)),
        '__mod__': lambda ip, s, o: binop(ip, 'Mod', unwrap(s), o),
        '__or__': lambda ip, s, o: binop(ip, 'BitOr', unwrap(s), unwrap(o)),
        '__and__': lambda ip, s, o: binop(ip, 'BitAnd', unwrap(s), unwrap(o)),
        '__sub__': lambda ip, s, o: binop(ip, 'Sub', unwrap(s), unwrap(o)),
        '__hash__': lambda ip, s: b_hash(ip, [unwrap(s)], {}),
        '__bool__': lambda ip, s: truth(ip, unwrap(s)),
        '__format__': lambda ip, s, sp: format_value(ip, unwrap(s), sp, None),
    }.get(name)
    return f


def _nt(ip, op, s, o):
    s, o = unwrap(s), unwrap(o)
    if isinstance(o, PyObj):
        return NOTIMPL
    if type(s) is not type(o) and not (is_strlike(s) and is_strlike(o)) and not (isinstance(s, (int, float, Sym)) and isinstance(o, (int, float, Sym))):
        return NOTIMPL
    return compare(ip, op, s, o)


def _mutslots(name):
    return {
        '__setitem__': lambda ip, s, i, v: (ip.log_write(s, 'item'), setitem(ip, unwrap(s), i, v))[1],
        '__delitem__': lambda ip, s, i: (ip.log_write(s, 'item'), delitem(ip, unwrap(s), i))[1],
    }.get(name)


CONT = (str, bytes, list, tuple, dict, set, frozenset, int, float, bool, range, collections.deque, collections.OrderedDict,
        collections.defaultdict, collections.Counter, decimal.Decimal, datetime.date, datetime.datetime, types.MappingProxyType)

_slot_cache = {}


def builtin_slot(ip, real, name):
    key = (real, name)
    if key in _slot_cache:
        return _slot_cache[key]
    r = _builtin_slot(ip, real, name)
    _slot_cache[key] = r
    return r


def _wrap(name, f):
    return Builtin(name, lambda ip, a, k: f(ip, *a, **k))


def _builtin_slot(ip, real, name):
    if real is object:
        f = OBJ.get(name)
        return Builtin('object.' + name, f) if f else None
    if real in CONT:
        if name == '__bool__' and real not in (int, float, bool, decimal.Decimal):
            return None
        if name in real.__dict__ or any(name in b.__dict__ for b in real.__mro__[1:-1]):
            t = table_method(ip, real, name)
            if t is not None:
                return Builtin(name, lambda ip, a, k, t=t: t(ip, a[0], a[1:], k))
            f = _gen_slots(ip, name) or _mutslots(name)
            if f is not None:
                return _wrap(name, f)
            if name == '__init__':
                return Builtin('__init__', lambda ip, a, k, real=real: payload_init(ip, real, a, k))
        if name == '__init__' and real in (list, dict, set):
            return Builtin('__init__', lambda ip, a, k, real=real: payload_init(ip, real, a, k))
        return None
    if real is type:
        if name == '__new__':
            return Builtin('type.__new__', lambda ip, a, k: construct(ip, bclass(type), list(a[1:]), k))
        if name == '__call__':
            return Builtin('type.__call__', lambda ip, a, k: ip.instantiate(a[0], list(a[1:]), k, bare=True))
        if name == '__init__':
            return Builtin('type.__init__', lambda ip, a, k: None)
        return None
    if isinstance(real, type) and issubclass(real, BaseException):
        if name == '__init__' and '__init__' in real.__dict__ or name == '__init__' and real is BaseException:
            def init(ip, a, k):
                a[0].attrs['args'] = Seq('tuple', list(a[1:]))
            return Builtin('__init__', init)
        if real is BaseException:
            if name == '__str__':
                return Builtin('__str__', lambda ip, a, k: exc_str(ip, a[0]))
            if name == '__repr__':
                return Builtin('__repr__', lambda ip, a, k: exc_repr(ip, a[0]))
            if name == 'with_traceback':
                return Builtin('with_traceback', lambda ip, a, k: a[0])
        return None
    return None


def exc_str(ip, o):
    args = o.attrs.get('args')
    if args is None or not args.items:
        return ''
    if len(args.items) == 1:
        if ip.issub(o.cls, bclass(KeyError)):
            return to_repr(ip, args.items[0])
        return to_str(ip, args.items[0])
    return to_repr(ip, args)


def exc_repr(ip, o):
    args = o.attrs.get('args')
    if args is not None and len(args.items) == 1:
        return mk([o.cls.name, '(', to_repr(ip, args.items[0]), ')'])
    return mk([o.cls.name, to_repr(ip, args) if args is not None else '()'])


def payload_init(ip, real, a, k):
    o = a[0]
    p = o.payload if isinstance(o, PyObj) else o
    if isinstance(p, PyDict):
        args = a[1:]
        if p.kind == 'defaultdict' and args:
            p.factory = args[0]
            args = args[1:]
        if args:
            for x, y in pairs_from(ip, args[0]):
                dict_set(ip, p, x, y)
        for x, y in k.items():
            dict_set(ip, p, x, y)
    elif isinstance(p, Seq) and p.kind == 'list':
        if len(a) > 1:
            p.items = list(iterate(ip, a[1]))
    elif isinstance(p, PySet) and p.kind == 'set':
        if len(a) > 1:
            p.items = []
            for x in iterate(ip, a[1]):
                set_add(ip, p, x)


def _obj_init(ip, a, k):
    if len(a) > 1 or k:
        o = a[0]
        if isinstance(o, PyObj) and o.payload is None and not ip.issub(o.cls, bclass(BaseException)):
            ini = ip.type_lookup(o.cls, '__init__')
            new = ip.type_lookup(o.cls, '__new__')
            if not isinstance(new, (PyFunc, StaticM)) or isinstance(ini, PyFunc):
                ip.exc('TypeError', '%s() takes no arguments' % o.cls.name)


def _obj_getattribute(ip, a, k):
    return ip.getattr(a[0], a[1])


def _obj_new(ip, a, k):
    if isinstance(a[0], PyClass):
        return ip.raw_new(a[0], a[1:], k)
    raise Unsupported('object.__new__')


def _obj_setattr(ip, a, k):
    ip.raw_setattr(a[0], a[1], a[2])


def _obj_reduce(ip, a, k):
    raise Unsupported('__reduce_ex__')


OBJ = {
    '__init__': _obj_init,
    '__new__': _obj_new,
    '__init_subclass__': lambda ip, a, k: None,
    '__eq__': lambda ip, a, k: True if a[0] is a[1] else NOTIMPL,
    '__ne__': lambda ip, a, k: _obj_ne(ip, a),
    '__lt__': lambda ip, a, k: NOTIMPL,
    '__le__': lambda ip, a, k: NOTIMPL,
    '__gt__': lambda ip, a, k: NOTIMPL,
    '__ge__': lambda ip, a, k: NOTIMPL,
    '__hash__': lambda ip, a, k: b_id(ip, a, k),
    '__repr__': lambda ip, a, k: obj_repr(ip, a[0]),
    '__str__': lambda ip, a, k: to_repr(ip, a[0]),
    '__format__': lambda ip, a, k: to_str(ip, a[0]),
    '__setattr__': _obj_setattr,
    '__getattribute__': _obj_getattribute,
    '__delattr__': lambda ip, a, k: ip.delattr(a[0], a[1]),
    '__sizeof__': lambda ip, a, k: 16,
    '__reduce_ex__': _obj_reduce,
    '__reduce__': _obj_reduce,
    '__dir__': lambda ip, a, k: b_dir(ip, a, k),
}


def _obj_ne(ip, a):
    r = ip.call(ip.getattr(a[0], '__eq__'), [a[1]])
    return r if r is NOTIMPL else not truth(ip, r)


def obj_repr(ip, o):
    if isinstance(o, PyObj):
        return SStr(('<', Atom(('object', o.cls.qualname, o.serial), 'any'), '>'))
    return to_repr(ip, o)


def class_attr(ip, cls, name):
    real = cls.real
    if real is object:
        f = OBJ.get(name)
        if f:
            return Builtin('object.' + name, f)
        return None
    if name == 'maketrans' and real is str:
        return Builtin('maketrans', b_maketrans)
    if name == 'fromkeys' and issubclass(real, dict):
        def fromkeys(ip, a, k):
            d = PyDict(kind=[n for n, r in DICT_REAL.items() if r is real][0] if real in DICT_REAL.values() else 'dict')
            v = a[1] if len(a) > 1 else None
            d.many = ip.is_many(a[0])
            for x in iterate(ip, a[0]):
                dict_set(ip, d, x, v)
            return d
        return Builtin('fromkeys', fromkeys)
    if name == '__new__':
        def new(ip, a, k):
            c = a[0]
            if c.real is not None:
                return construct(ip, c, a[1:], k)
            return ip.raw_new(c, a[1:], k)
        return Builtin('__new__', new)
    t = table_method(ip, real, name)
    if t is not None:
        return Builtin(name, lambda ip, a, k: t(ip, a[0], a[1:], k))
    s = builtin_slot(ip, real, name)
    if s is not None:
        return s
    if real is bytes and name == 'fromhex' or real in (datetime.date, datetime.datetime) and name in ('now', 'today', 'utcnow', 'fromisoformat', 'strptime', 'fromtimestamp'):
        def mkd(ip, a, k):
            if name in ('fromhex', 'fromisoformat') and len(a) == 1 and isinstance(ip.resolve(a[0]), str):
                try:
                    return getattr(real, name)(ip.resolve(a[0]))
                except ValueError as e:
                    ip.exc('ValueError', str(e))
            return Sym(('call', name, next(ip.counter)), {bytes: 'bytes', datetime.date: 'date', datetime.datetime: 'datetime'}[real])
        return Builtin(name, mkd)
    if name in ('__name__', '__qualname__'):
        return getattr(real, name)
    if name == '__module__':
        return real.__module__
    if name in ('__dict__', '__mro__', '__bases__', '__doc__', '__class__', '__subclasses__', 'mro'):
        return None
    if name in real.__dict__ and name not in object.__dict__:
        v = real.__dict__[name]
        if is_host(v):
            return v
        raise Unsupported('%s.%s' % (real.__name__, name))
    return None


DATE_ATTRS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')


def builtin_getattr(ip, o, name):
    o = ip.resolve(o)
    if isinstance(o, MatchV):
        return match_attr(ip, o, name)
    if isinstance(o, PatV):
        return pat_attr(ip, o, name)
    if isinstance(o, Iter):
        if name == '__next__':
            return Builtin('__next__', lambda ip, a, k: b_next(ip, [o], {}))
        if name == '__iter__':
            return Builtin('__iter__', lambda ip, a, k: o)
        if name == 'close' and o.kind == 'generator':
            return Builtin('close', lambda ip, a, k: setattr(o, 'it', iter(())))
        if name in ('send', 'throw') and o.kind == 'generator':
            def drive(ip, a, k):
                ip.log_write(o, 'next')
                try:
                    if name == 'send':
                        return o.it.send(a[0])
                    x = a[1] if len(a) > 1 and a[1] is not None else a[0]
                    return o.it.throw(Raise(ip.call(x, []) if isinstance(x, PyClass) else x, ip.site()))
                except StopIteration:
                    ip.exc('StopIteration')
            if not hasattr(o.it, 'send'):
                raise Unsupported('generator.%s' % name)
            return Builtin(name, drive)
        if name == '__class__':
            return ip.type_of(o)
        return ip._MISSING
    real = real_type(o)
    if name == '__class__':
        return bclass(real)
    if name == '__doc__':
        return None
    t = table_method(ip, real, name)
    if t is not None and name in dir(real):
        return Bound(Builtin(name, lambda ip, a, k: t(ip, a[0], a[1:], k)), o)
    f = None
    if name.startswith('__') and hasattr(real, name):
        if name in ('__init__', '__setattr__', '__getattribute__', '__reduce_ex__', '__dir__', '__sizeof__'):
            return Bound(Builtin('object.' + name, OBJ[name]), o)
        f = _gen_slots(ip, name) if not (name == '__hash__' and getattr(real, '__hash__') is None) else None
        if f is None and hasattr(real, name):
            f = _mutslots(name)
        if f is not None:
            return Bound(_wrap(name, f), o)
        if name == '__hash__':
            return None
    if real in (datetime.date, datetime.datetime) and name in DATE_ATTRS + ('tzinfo',) and hasattr(real, name):
        if isinstance(o, Sym):
            if name == 'tzinfo':
                return None if ip.decide(('naive', o)) else SStr((Atom(('tz', o.label), 'any'),))
            return Sym((name, o.label), 'int', lo=0)
        return getattr(o, name)
    if real in (int, bool, float) and name in ('real', 'numerator'):
        return o
    if real is range and name in ('start', 'stop', 'step'):
        raise Unsupported('range.' + name)
    if isinstance(o, PyDict) and name == 'default_factory' and o.kind == 'defaultdict':
        return o.factory
    if isinstance(o, slice) and name in ('start', 'stop', 'step'):
        return getattr(o, name)
    if isinstance(o, (bytes, int, float, decimal.Decimal, datetime.date, datetime.time, datetime.timedelta)) and not name.startswith('_') and callable(getattr(o, name, None)):
        def host(ip, a, k):
            a = [unwrap(ip.resolve(x)) for x in a]
            if not all(is_host(x) for x in a) or k:
                raise Unsupported('attribute %s of %s' % (name, real.__name__))
            try:
                r = getattr(o, name)(*a)
            except (TypeError, ValueError, ArithmeticError) as e:
                ip.exc(type(e).__name__ if type(e) in (TypeError, ValueError, OverflowError, ZeroDivisionError) else 'ArithmeticError', str(e))
            if isinstance(r, (list, tuple)) and all(is_host(x) for x in r):
                return Seq('list' if isinstance(r, list) else 'tuple', list(r))
            if not is_host(r):
                raise Unsupported('attribute %s of %s' % (name, real.__name__))
            return r
        return Builtin(name, host)
    if hasattr(real, name):
        raise Unsupported('attribute %s of %s' % (name, real.__name__))
    return ip._MISSING


# ---------------------------------------------------------------- constructors

def _many(ip, v):
    return ip.is_many(v)


def construct(ip, cls, args, kw):
    real = cls.real
    args = list(args)
    if real is object:
        return PyObj(cls)
    if real is str:
        if not args:
            return ''
        if len(args) > 1 or kw:
            return ip.call(ip.getattr(args[0], 'decode'), args[1:], kw)
        return to_str(ip, args[0])
    if real is bool:
        return truth(ip, args[0]) if args else False
    if real is int:
        return to_int(ip, args, kw)
    if real is float:
        return to_float(ip, args)
    if real is decimal.Decimal:
        v = unwrap(ip.resolve(args[0])) if args else 0
        if isinstance(v, Sym):
            return v if v.kind == 'Decimal' else Sym(('Decimal', v), 'Decimal')
        if isinstance(v, SStr):
            return Sym(('Decimal', v), 'Decimal')
        try:
            return decimal.Decimal(v)
        except Exception as e:
            ip.exc('ValueError' if not isinstance(e, TypeError) else 'TypeError', str(e))
    if real in (list, tuple, collections.deque):
        k = {list: 'list', tuple: 'tuple', collections.deque: 'deque'}[real]
        if not args:
            return Seq(k, [])
        if isinstance(ip.resolve(args[0]), SStr):
            raise Unsupported('%s() of an abstract string' % k)
        m = ip.is_many(args[0])
        items = list(iterate(ip, args[0]))
        if isinstance(args[0], Iter):
            m = m or ip.is_many(args[0])
        return Seq(k, items, m)
    if real in (set, frozenset):
        s = PySet('set' if real is set else 'frozenset', [])
        if args:
            src = args[0]
            it = list(src.items) if isinstance(src, PySet) else iterate(ip, src)
            for x in it:
                set_add(ip, s, x)
            s.many = ip.is_many(src)
        return s
    if real in DICT_REAL.values():
        kind = [n for n, r in DICT_REAL.items() if r is real][0]
        d = PyDict(kind=kind)
        if kind == 'defaultdict' and args:
            d.factory = args.pop(0)
        if kind == 'Counter':
            for x in (iterate(ip, args[0]) if args else ()):
                i = dict_find(ip, d, x)
                if i is None:
                    dict_set(ip, d, x, 1)
                else:
                    d.vals[i] += 1
            return d
        if args:
            if len(args) > 1:
                ip.exc('TypeError', 'dict expected at most 1 argument')
            for x, y in pairs_from(ip, args[0]):
                dict_set(ip, d, x, y)
            d.many = ip.is_many(args[0])
        for x, y in kw.items():
            dict_set(ip, d, x, y)
        return d
    if real is range:
        vals = [unwrap(ip.resolve(x)) for x in args]
        if all(isinstance(x, int) for x in vals):
            r = range(*vals)
            if len(r) > 5000:
                raise Unsupported('large range')
            return Seq('range', list(r))
        if len(vals) == 1 and isinstance(vals[0], Sym) and isinstance(vals[0].label, tuple) and vals[0].label[0] == 'len':
            lo, _ = ip.bounds(vals[0])
            return Seq('range', list(range(lo or 0)), many=True)
        if len(vals) == 2 and isinstance(vals[1], Sym) and isinstance(vals[1].label, tuple) and vals[1].label[0] == 'len' and isinstance(vals[0], int):
            lo, _ = ip.bounds(vals[1])
            return Seq('range', list(range(vals[0], lo or 0)), many=True)
        raise Unsupported('abstract range')
    if real is bytes:
        v = unwrap(ip.resolve(args[0])) if args else b''
        if isinstance(v, bytes):
            return v
        if isinstance(v, Sym) and v.kind == 'bytes':
            return v
        if is_strlike(v):
            return STR['encode'](ip, v, args[1:], kw)
        if isinstance(v, int):
            return bytes(v)
        if isinstance(v, (Seq, Iter)):
            items = list(iterate(ip, v))
            if all(isinstance(x, int) for x in items):
                return bytes(items)
        raise Unsupported('bytes()')
    if real is type:
        if len(args) == 1:
            return ip.type_of(ip.resolve(args[0]))
        name, bases, ns = args
        return ip.new_class(name, list(bases.items) or [bclass(object)], dict(zip(ns.keys, ns.vals)), ip.stack[-1].module if ip.stack else None, name, kw)
    if real is slice:
        return slice(*args)
    if real is types.MethodType:
        return Bound(args[0], args[1])
    if real is types.SimpleNamespace:
        o = PyObj(cls)
        o.attrs.update(kw)
        return o
    if isinstance(real, type) and issubclass(real, BaseException):
        o = PyObj(cls)
        o.attrs['args'] = Seq('tuple', args)
        if issubclass(real, StopIteration):
            o.attrs['value'] = args[0] if args else None
        return o
    if real in (datetime.date, datetime.datetime, datetime.timedelta, datetime.time):
        vals = [ip.resolve(x) for x in args]
        kv = {a: ip.resolve(b) for a, b in kw.items()}
        if all(is_host(x) for x in vals) and all(is_host(x) for x in kv.values()):
            try:
                return real(*vals, **kv)
            except (TypeError, ValueError) as e:
                ip.exc(type(e).__name__, str(e))
        return Sym((real.__name__,) + tuple(vals), real.__name__)
    if real is type(None):
        return None
    raise Unsupported('construct %s' % real.__name__)


def to_int(ip, args, kw):
    v = ip.resolve(args[0]) if args else 0
    if isinstance(v, Sym):
        if v.kind == 'int':
            return v
        if v.kind in ('float', 'Decimal'):
            return Sym(('int', v), 'int')
        ip.exc('TypeError', 'int() argument must be a string or a number')
    if isinstance(v, SStr):
        if len(v.segs) == 1 and isinstance(v.segs[0], Atom) and v.segs[0].kind == 'int' and not v.segs[0].xf:
            return Sym(v.segs[0].label, 'int')
        if any(isinstance(s, Atom) and s.kind == 'plain' for s in v.segs) or any(isinstance(s, str) and not re.match(r'^[\s\d_+-]*$', s) for s in v.segs):
            ip.exc('ValueError', 'invalid literal for int()')
        if ip.decide(('isint', v)):
            return Sym(('int', v), 'int')
        ip.exc('ValueError', 'invalid literal for int()')
    if isinstance(v, PyObj):
        f = ip.type_lookup(v.cls, '__int__') or ip.type_lookup(v.cls, '__index__')
        if isinstance(f, PyFunc):
            return call_slot(ip, f, v)
        v = unwrap(v)
        if isinstance(v, PyObj):
            ip.exc('TypeError', 'int() argument must be a string, a bytes-like object or a real number')
        return to_int(ip, [v] + args[1:], kw)
    if is_host(v):
        try:
            return int(v, *args[1:], **kw)
        except (TypeError, ValueError, OverflowError) as e:
            ip.exc(type(e).__name__, str(e))
    ip.exc('TypeError', 'int() argument must be a string or a number')


def to_float(ip, args):
    v = unwrap(ip.resolve(args[0])) if args else 0.0
    if isinstance(v, Sym):
        if v.kind == 'float':
            return v
        if v.kind in ('int', 'Decimal'):
            return Sym(('float', v), 'float')
        ip.exc('TypeError', 'float() argument')
    if isinstance(v, SStr):
        if ip.decide(('isfloat', v)):
            return Sym(('float', v), 'float')
        ip.exc('ValueError', 'could not convert string to float')
    if is_host(v):
        try:
            return float(v)
        except (TypeError, ValueError) as e:
            ip.exc(type(e).__name__, str(e))
    ip.exc('TypeError', 'float() argument')


# ---------------------------------------------------------------- builtin functions

def b_id(ip, a, k):
    v = a[0]
    if isinstance(v, V.Cell):
        return ID_BASE + 16 * v.serial
    return Sym(('id', ip.canon(v)), 'int', lo=1)


def b_hash(ip, a, k):
    v = ip.resolve(a[0])
    h = hash_of(ip, v)
    if h[0] == 'hash':
        return h[1]
    if h[0] == 'id':
        return ID_BASE + 16 * h[1]
    return Sym(('hash', ip.canon(v)), 'int')


def b_isinstance(ip, a, k):
    return ip.isinstance(ip.resolve(a[0]), a[1])


def b_issubclass(ip, a, k):
    c, d = a
    if not isinstance(c, PyClass):
        ip.exc('TypeError', 'issubclass() arg 1 must be a class')
    if isinstance(d, Seq):
        return any(b_issubclass(ip, [c, x], {}) for x in d.items)
    return ip.issub(c, d)


def b_getattr(ip, a, k):
    n = ip.resolve(a[1])
    if isinstance(n, SStr):
        return dyn_getattr(ip, a[0], n, a[2] if len(a) > 2 else ip._MISSING)
    if not isinstance(n, str):
        ip.exc('TypeError', 'attribute name must be string')
    return ip.getattr(a[0], n, *(a[2:3]))


def dyn_getattr(ip, o, n, default):
    """getattr with an abstract name: partition over the known attributes."""
    names = set()
    if isinstance(o, PyObj):
        names |= set(o.attrs)
        for c in o.cls.mro:
            names |= set(c.ns)
            if c.real is object:
                names |= set(OBJ)
    else:
        raise Unsupported('getattr with abstract name')
    for x in sorted(names):
        if S.str_eq(ip, n, x):
            return ip.getattr(o, x)
    if default is not ip._MISSING:
        return default
    ga = ip.type_lookup(o.cls, '__getattr__') if isinstance(o, PyObj) else None
    if ga is not None:
        return ip.call(ip.bind(ga, o, o.cls), [n])
    ip.exc('AttributeError', 'no such attribute')


def b_hasattr(ip, a, k):
    n = ip.resolve(a[1])
    if isinstance(n, SStr):
        try:
            dyn_getattr(ip, a[0], n, ip._MISSING)
            return True
        except Raise as e:
            if ip.issub(e.obj.cls, bclass(AttributeError)):
                return False
            raise
    return ip.hasattr(a[0], n)


def b_setattr(ip, a, k):
    n = ip.resolve(a[1])
    if isinstance(n, SStr):
        raise Unsupported('setattr with abstract name')
    ip.setattr(a[0], n, a[2])


def b_iter(ip, a, k):
    v = ip.resolve(a[0])
    if len(a) > 1:
        def gen():
            while True:
                x = ip.call(a[0], [])
                if same(ip, x, a[1]):
                    return
                yield x
        return make_iter(ip, gen())
    if isinstance(v, Iter):
        return v
    if isinstance(v, PyObj):
        f = user_slot(ip, v, '__iter__')
        if f is not None:
            return call_slot(ip, f, v)
    return make_iter(ip, iterate(ip, v), many=ip.is_many(v))


def b_next(ip, a, k):
    v = a[0]
    if isinstance(v, PyObj):
        f = ip.type_lookup(v.cls, '__next__')
        if f is None:
            ip.exc('TypeError', 'object is not an iterator')
        try:
            return call_slot(ip, f, v)
        except Raise as e:
            if len(a) > 1 and ip.issub(e.obj.cls, bclass(StopIteration)):
                return a[1]
            raise
    if not isinstance(v, Iter):
        ip.exc('TypeError', "'%s' object is not an iterator" % ip.type_of(v).name)
    ip.log_write(v, 'next')
    try:
        return next(v.it)
    except StopIteration:
        if len(a) > 1:
            return a[1]
        ip.exc('StopIteration')


def b_ascii(ip, a, k):
    r = to_repr(ip, a[0])
    return r.encode('ascii', 'backslashreplace').decode() if isinstance(r, str) else SStr((Atom(('ascii', r), 'any'),))


def b_enumerate(ip, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    src = iterate(ip, a[0])

    def gen():
        i = start
        for x in src:
            yield Seq('tuple', [i, x])
            i = i + 1 if isinstance(i, int) else binop(ip, 'Add', i, 1)
    return make_iter(ip, gen(), many=ip.is_many(a[0]))


def b_zip(ip, a, k):
    its = [iterate(ip, x) for x in a]
    strict = k.get('strict', False)

    def gen():
        if not its:
            return
        while True:
            row = []
            for n, it in enumerate(its):
                try:
                    row.append(next(it))
                except StopIteration:
                    if strict is True and (n > 0 or any(True for j in its[1:] for _ in j)):
                        ip.exc('ValueError', 'zip() arguments have different lengths')
                    return
            yield Seq('tuple', row)
    return make_iter(ip, gen(), many=all(ip.is_many(x) for x in a) and bool(a))


def b_map(ip, a, k):
    f = a[0]
    if len(a) == 2 and isinstance(ip.resolve(a[1]), SStr):
        return make_iter(ip, ip.charmap(ip.resolve(a[1]), lambda c: ip.call(f, [c])))
    if len(a) == 2 and isinstance(ip.resolve(a[1]), Sym) and ip.resolve(a[1]).kind == 'bytes':
        return make_iter(ip, ip.bytemap(ip.resolve(a[1]), lambda c: ip.call(f, [c])))
    its = [iterate(ip, x) for x in a[1:]]

    def gen():
        for row in zip(*its):
            yield ip.call(f, list(row))
    return make_iter(ip, gen(), many=any(ip.is_many(x) for x in a[1:]))


def b_filter(ip, a, k):
    f = a[0]
    src = iterate(ip, a[1])

    def gen():
        for x in src:
            if truth(ip, x if f is None else ip.call(f, [x])):
                yield x
    return make_iter(ip, gen(), many=ip.is_many(a[1]))


def b_reversed(ip, a, k):
    v = unwrap(a[0])
    if isinstance(a[0], PyObj):
        f = user_slot(ip, a[0], '__reversed__')
        if f is not None:
            return call_slot(ip, f, a[0])
    if isinstance(v, (Seq, PyDict)):
        return make_iter(ip, list(reversed(v.items if isinstance(v, Seq) else v.keys)), many=v.many)
    if isinstance(v, str):
        return make_iter(ip, list(reversed(v)))
    if isinstance(v, SStr):
        raise Unsupported('reversed string')
    ip.exc('TypeError', 'object is not reversible')


def raw_iter(ip, v):
    """Iteration whose order does not matter to the caller."""
    u = unwrap(v)
    if isinstance(u, PySet) and (not isinstance(v, PyObj) or user_slot(ip, v, '__iter__') is None):
        return list(u.items)
    return iterate(ip, v)


def b_sorted(ip, a, k):
    many = ip.is_many(a[0])
    items = list(raw_iter(ip, a[0]))
    return Seq('list', sort_items(ip, items, k.get('key'), k.get('reverse', False)), many)


def _minmax(which):
    def f(ip, a, k):
        items = list(raw_iter(ip, a[0])) if len(a) == 1 else list(a)
        key = k.get('key')
        if not items:
            if 'default' in k:
                return k['default']
            ip.exc('ValueError', 'arg is an empty sequence')
        best = items[0]
        bk = ip.call(key, [best]) if key else best
        for x in items[1:]:
            xk = ip.call(key, [x]) if key else x
            r = compare(ip, 'Lt', xk, bk) if which == 'min' else compare(ip, 'Gt', xk, bk)
            if truth(ip, r):
                best, bk = x, xk
        return best
    return f


def b_sum(ip, a, k):
    acc = a[1] if len(a) > 1 else k.get('start', 0)
    for x in iterate(ip, a[0]):
        acc = binop(ip, 'Add', acc, x)
    return acc


def b_any(ip, a, k):
    for x in raw_iter(ip, a[0]):
        if truth(ip, x):
            return True
    return False


def b_all(ip, a, k):
    for x in raw_iter(ip, a[0]):
        if not truth(ip, x):
            return False
    return True


def b_callable(ip, a, k):
    v = a[0]
    if isinstance(v, (PyFunc, Bound, Builtin, PyClass)):
        return True
    if isinstance(v, PyObj):
        return ip.type_lookup(v.cls, '__call__') is not None
    return False


def b_super(ip, a, k):
    start, o = a
    return Super(o if isinstance(o, PyClass) else o.cls, o, start)


def b_round(ip, a, k):
    v = unwrap(ip.resolve(a[0]))
    n = a[1] if len(a) > 1 else k.get('ndigits')
    if isinstance(v, Sym):
        if v.kind == 'int':
            return v
        return Sym(('round', v, n), 'int' if n is None else v.kind)
    if is_host(v):
        return round(v, n) if n is not None else round(v)
    ip.exc('TypeError', 'round')


def b_abs(ip, a, k):
    v = unwrap(ip.resolve(a[0]))
    if isinstance(v, Sym):
        return Sym(('abs', v), v.kind, lo=0)
    try:
        return abs(v)
    except TypeError as e:
        ip.exc('TypeError', str(e))


def b_chr(ip, a, k):
    v = unwrap(ip.resolve(a[0]))
    if isinstance(v, Sym):
        raise Unsupported('chr of an abstract number')
    return chr(v)


def b_radix(fn):
    def f(ip, a, k):
        v = unwrap(ip.resolve(a[0]))
        if isinstance(v, Sym):
            return SStr((Atom((fn.__name__, v), 'any'),))
        if not isinstance(v, int):
            ip.exc('TypeError', "'%s' object cannot be interpreted as an integer" % ip.type_of(v).name)
        return fn(v)
    return f


def b_ord(ip, a, k):
    v = ip.resolve(a[0])
    if isinstance(v, SStr):
        return Sym(('ord', v), 'int', lo=0)
    return ord(v)


def b_maketrans(ip, a, k):
    d = PyDict()
    if len(a) == 1:
        for kk, vv in dict_pairs(ip, a[0]):
            dict_set(ip, d, ord(kk) if isinstance(kk, str) else kk, vv)
    else:
        for x, y in zip(a[0], a[1]):
            dict_set(ip, d, ord(x), ord(y))
        if len(a) > 2:
            for x in a[2]:
                dict_set(ip, d, ord(x), None)
    return d


def b_dir(ip, a, k):
    names = set()
    o = a[0]
    c = o.cls if isinstance(o, PyObj) else o
    if isinstance(o, PyObj):
        names |= set(o.attrs)
    for x in c.mro:
        names |= set(x.ns)
    return Seq('list', sorted(names))


def b_vars(ip, a, k):
    o = a[0]
    if isinstance(o, PyObj):
        return attrs_dict(ip, o)
    return ip.getattr(o, '__dict__')


def attrs_dict(ip, o):
    return V.LiveDict(o)


def b_property(ip, a, k):
    f = list(a) + [None] * (3 - len(a))
    return Prop(k.get('fget', f[0]), k.get('fset', f[1]), k.get('fdel', f[2]))


def b_print(ip, a, k):
    return None


def b_divmod(ip, a, k):
    return Seq('tuple', [binop(ip, 'FloorDiv', a[0], a[1]), binop(ip, 'Mod', a[0], a[1])])


def b_import(ip, a, k):
    return ip.import_module(a[0].split('.')[0])


def make_builtins(ip):
    B = {}
    for n in ('object', 'type', 'int', 'bool', 'float', 'str', 'bytes', 'list', 'tuple', 'dict', 'set', 'frozenset', 'range',
              'slice', 'complex', 'bytearray'):
        B[n] = bclass(getattr(hb, n))
    for n in dir(hb):
        v = getattr(hb, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            B[n] = bclass(v)
    fn = dict(id=b_id, hash=b_hash, isinstance=b_isinstance, issubclass=b_issubclass, getattr=b_getattr, hasattr=b_hasattr,
              setattr=b_setattr, ascii=b_ascii, iter=b_iter, next=b_next, enumerate=b_enumerate, zip=b_zip, map=b_map, filter=b_filter,
              reversed=b_reversed, sorted=b_sorted, min=_minmax('min'), max=_minmax('max'), sum=b_sum, any=b_any, all=b_all,
              callable=b_callable, super=b_super, round=b_round, abs=b_abs, chr=b_chr, hex=b_radix(hex), bin=b_radix(bin), oct=b_radix(oct), ord=b_ord, dir=b_dir, vars=b_vars,
              property=b_property, print=b_print, divmod=b_divmod, __import__=b_import,
              len=lambda ip, a, k: length(ip, a[0]),
              repr=lambda ip, a, k: to_repr(ip, a[0]),
              format=lambda ip, a, k: format_value(ip, a[0], a[1] if len(a) > 1 else '', None),
              classmethod=lambda ip, a, k: ClassM(a[0]),
              staticmethod=lambda ip, a, k: StaticM(a[0]),
              delattr=lambda ip, a, k: ip.delattr(a[0], a[1]),
              pow=lambda ip, a, k: binop(ip, 'Pow', a[0], a[1]),
              locals=None, globals=None)
    for n, f in fn.items():
        B[n] = Builtin(n, f)
    B['NotImplemented'] = NOTIMPL
    B['Ellipsis'] = ELLIPSIS
    B['True'], B['False'], B['None'] = True, False, None
    B['__debug__'] = True
    B['__build_class__'] = None
    return B


from .relib import match_group, match_attr, pat_attr  # noqa: E402
from .stubs import stub_module  # noqa: E402,F401
