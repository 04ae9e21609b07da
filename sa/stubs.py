"""Models of the standard-library modules a library like this one uses."""
import ast
import binascii
import collections
import collections.abc
import datetime
import importlib
import decimal
import numbers
import operator
import re
import string
import types

from . import values as V
from . import relib
from .values import (Atom, SStr, Sym, Seq, PyDict, PySet, PyObj, PyClass, Module, PyFunc, Bound, Builtin, Prop, ClassM,
                     StaticM, Iter, NOTIMPL, Raise, Unsupported, mk, is_strlike)


def lib():
    from . import lib as l
    return l


def B(name):
    def deco(f):
        return Builtin(name, f)
    return deco


# ---------------------------------------------------------------- copy

def deepcopy(ip, v, memo):
    L = lib()
    v = ip.resolve(v)
    if isinstance(v, (SStr, Sym, PyFunc, PyClass, Builtin, Prop, StaticM, ClassM)) or L.is_host(v) or v is NOTIMPL or isinstance(v, L.PatV):
        return v
    if isinstance(v, Bound):
        return Bound(v.func, deepcopy(ip, v.self, memo))
    if isinstance(v, Module):
        ip.exc('TypeError', "cannot pickle 'module' object")
    if isinstance(v, Iter):
        if v.kind == 'generator':
            ip.exc('TypeError', "cannot pickle 'generator' object")
        items = list(v.it)
        v.it = iter(items)
        return Iter(iter([deepcopy(ip, x, memo) for x in items]), v.kind, v.label)
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, Seq):
        if v.kind == 'range':
            return v
        if v.kind.startswith('dict_'):
            ip.exc('TypeError', "cannot pickle '%s' object" % v.kind)
        r = Seq(v.kind, [], v.many)
        memo[id(v)] = (r, v)
        r.items = [deepcopy(ip, x, memo) for x in v.items]
        if v.kind == 'tuple' and all(a is b for a, b in zip(r.items, v.items)):
            memo[id(v)] = (v, v)
            return v
        return r
    if isinstance(v, PySet):
        r = PySet(v.kind, [], many=v.many)
        memo[id(v)] = (r, v)
        r.items = [deepcopy(ip, x, memo) for x in v.items]
        return r
    if isinstance(v, PyDict):
        r = PyDict([], v.kind, many=v.many)
        memo[id(v)] = (r, v)
        r.factory = v.factory
        for k, x in list(zip(v.keys, v.vals)):
            L.dict_set(ip, r, deepcopy(ip, k, memo), deepcopy(ip, x, memo))
        return r
    if isinstance(v, PyObj):
        f = L.user_slot(ip, v, '__deepcopy__')
        if f is not None:
            md = PyDict()
            md.kind = 'dict'
            _MEMO[id(md)] = memo
            r = L.call_slot(ip, f, v, md)
            memo[id(v)] = (r, v)
            return r
        if v.cls.name in ('lock', 'RLock', 'Lock', 'local', '_thread.lock'):
            ip.exc('TypeError', "cannot pickle '_thread.lock' object")
        red = L.user_slot(ip, v, '__reduce_ex__') or L.user_slot(ip, v, '__reduce__')
        if red is not None:
            raise Unsupported('__reduce__')
        if v.cls.ns.get('__enum_member__') or '__members_list__' in v.cls.ns:
            return v
        r = PyObj(v.cls)
        memo[id(v)] = (r, v)
        gs = L.user_slot(ip, v, '__getstate__')
        ss = L.user_slot(ip, v, '__setstate__')
        if gs is not None or ss is not None:
            state = L.call_slot(ip, gs, v) if gs is not None else PyDict(list(v.attrs.items()))
            state = deepcopy(ip, state, memo)
            if ss is not None:
                L.call_slot(ip, ss, r, state)
            elif isinstance(state, PyDict):
                r.attrs.update(zip(state.keys, state.vals))
            return r
        if v.payload is not None:
            r.payload = deepcopy(ip, v.payload, memo)
            if r.payload is v.payload and isinstance(v.payload, V.Cell):
                r.payload = v.payload
        for k, x in list(v.attrs.items()):
            r.attrs[k] = deepcopy(ip, x, memo)
        return r
    raise Unsupported('deepcopy of %r' % (v,))


_MEMO = {}


def b_deepcopy(ip, a, k):
    memo = None
    md = a[1] if len(a) > 1 else k.get('memo')
    if md is not None:
        memo = _MEMO.get(id(md))
        if memo is None:
            memo = _MEMO[id(md)] = {}
            # entries the program put there itself
        for kk, vv in zip(md.keys, md.vals):
            if isinstance(kk, int) and kk >= lib().ID_BASE:
                ser = (kk - lib().ID_BASE) // 16
                memo[('serial', ser)] = (vv, None)
        v = a[0]
        if isinstance(v, V.Cell) and ('serial', v.serial) in memo:
            return memo[('serial', v.serial)][0]
    else:
        memo = {}
    return deepcopy(ip, a[0], memo)


def b_copy(ip, a, k):
    L = lib()
    v = ip.resolve(a[0])
    if isinstance(v, PyObj):
        f = L.user_slot(ip, v, '__copy__')
        if f is not None:
            return L.call_slot(ip, f, v)
        r = PyObj(v.cls)
        gs = L.user_slot(ip, v, '__getstate__')
        ss = L.user_slot(ip, v, '__setstate__')
        if gs is not None or ss is not None:
            state = L.call_slot(ip, gs, v) if gs is not None else PyDict(list(v.attrs.items()))
            if ss is not None:
                L.call_slot(ip, ss, r, state)
            else:
                r.attrs.update(zip(state.keys, state.vals))
            return r
        r.attrs.update(v.attrs)
        if v.payload is not None:
            r.payload = b_copy(ip, [v.payload], {})
        return r
    if isinstance(v, Seq) and v.kind in ('list', 'deque'):
        return Seq(v.kind, list(v.items), v.many)
    if isinstance(v, PyDict):
        return L.DICT['copy'](ip, v, [], {})
    if isinstance(v, PySet) and v.kind == 'set':
        return PySet('set', list(v.items), many=v.many)
    if isinstance(v, Iter):
        if v.kind == 'generator':
            ip.exc('TypeError', "cannot pickle 'generator' object")
        raise Unsupported('copy of iterator')
    return v


# ---------------------------------------------------------------- functools

def b_wraps(ip, a, k):
    f = a[0]

    def deco(ip, b, kk):
        g = b[0]
        return update_wrapper(ip, [g, f], {})
    return Builtin('wraps', deco)


def update_wrapper(ip, a, k):
    g, f = a[0], a[1]
    if isinstance(g, PyFunc):
        for n in ('__name__', '__qualname__', '__doc__', '__module__'):
            v = ip._getattr(f, n)
            if v is not ip._MISSING:
                g.attrs[n] = v
        if isinstance(f, PyFunc):
            for n, v in f.attrs.items():
                g.attrs.setdefault(n, v)
        g.attrs['__wrapped__'] = f
    elif isinstance(g, PyObj):
        for n in ('__name__', '__doc__'):
            v = ip._getattr(f, n)
            if v is not ip._MISSING:
                g.attrs[n] = v
        g.attrs['__wrapped__'] = f
    return g


def total_ordering(ip, a, k):
    L = lib()
    cls = a[0]
    have = [n for n in ('__lt__', '__le__', '__gt__', '__ge__') if any(n in c.ns for c in cls.mro if c.real is not object)]
    if not have:
        ip.exc('ValueError', 'must define at least one ordering operation')
    root = '__lt__' if '__lt__' in have else '__le__' if '__le__' in have else '__gt__' if '__gt__' in have else '__ge__'

    def call(ip, o, n, x):
        return ip.call(ip.getattr(o, n), [x])

    def tr(ip, r):
        return L.truth(ip, r)

    def eq(ip, s, o):
        return L.eq(ip, s, o)
    table = {
        '__lt__': {'__gt__': lambda r, ip, s, o: not r and not eq(ip, s, o), '__le__': lambda r, ip, s, o: r or eq(ip, s, o), '__ge__': lambda r, ip, s, o: not r},
        '__le__': {'__ge__': lambda r, ip, s, o: not r or eq(ip, s, o), '__lt__': lambda r, ip, s, o: r and not eq(ip, s, o), '__gt__': lambda r, ip, s, o: not r},
        '__gt__': {'__lt__': lambda r, ip, s, o: not (r or eq(ip, s, o)), '__ge__': lambda r, ip, s, o: r or eq(ip, s, o), '__le__': lambda r, ip, s, o: not r},
        '__ge__': {'__le__': lambda r, ip, s, o: not r or eq(ip, s, o), '__gt__': lambda r, ip, s, o: r and not eq(ip, s, o), '__lt__': lambda r, ip, s, o: not r},
    }[root]
    for n, f in table.items():
        if n not in have:
            def op(ip, b, kk, f=f):
                r = call(ip, b[0], root, b[1])
                if r is NOTIMPL:
                    return r
                return f(tr(ip, r), ip, b[0], b[1])
            cls.ns[n] = Builtin(n, op)
    return cls


def b_partial(ip, a, k):
    f, pre, pk = a[0], list(a[1:]), dict(k)

    def call(ip, b, kk):
        kw = dict(pk)
        kw.update(kk)
        return ip.call(f, pre + list(b), kw)
    r = Builtin('partial', call)
    r.attrs['func'] = f
    r.attrs['args'] = Seq('tuple', pre)
    r.attrs['keywords'] = PyDict(list(pk.items()))
    return r


def b_reduce(ip, a, k):
    it = lib().iterate(ip, a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        try:
            acc = next(it)
        except StopIteration:
            ip.exc('TypeError', 'reduce() of empty iterable with no initial value')
    for x in it:
        acc = ip.call(a[0], [acc, x])
    return acc


def make_cache(ip, f):
    """Memoising wrapper: hidden state shared by all callers."""
    L = lib()
    store = PyDict()
    store.origin = 'cache:%s' % getattr(f, 'qualname', 'function')

    def call(ip, b, kk):
        key = Seq('tuple', list(b) + [Seq('tuple', [n, v]) for n, v in sorted(kk.items(), key=lambda p: repr(p[0]))])
        i = L.dict_find(ip, store, key)
        if i is not None:
            return store.vals[i]
        v = ip.call(f, list(b), kk)
        L.dict_set(ip, store, key, v)
        return v
    r = Builtin(getattr(f, 'name', 'cached'), call)
    r.attrs['cache_clear'] = Builtin('cache_clear', lambda ip, b, kk: (store.keys.clear(), store.vals.clear())[0])
    r.attrs['__wrapped__'] = f
    r.attrs['cache_info'] = Builtin('cache_info', lambda ip, b, kk: None)
    return r


def b_lru_cache(ip, a, k):
    if a and isinstance(a[0], (PyFunc, Builtin, Bound, PyClass)):
        return make_cache(ip, a[0])
    return Builtin('lru_cache', lambda ip, b, kk: make_cache(ip, b[0]))


def b_singledispatch(ip, a, k, pos=0):
    base = a[0]
    reg = []

    def call(ip, b, kk):
        for c in ip.type_of(ip.resolve(b[pos])).mro:
            for t, f in reversed(reg):
                if t is c:
                    return ip.call(f, b, kk)
        return ip.call(base, b, kk)
    r = Builtin(base.name, call)

    def register(ip, b, kk):
        if len(b) == 2:
            reg.append((b[0], b[1]))
            return b[1]
        if isinstance(b[0], PyClass):
            def deco(ip, c, kkk):
                reg.append((b[0], c[0]))
                return c[0]
            return Builtin('register', deco)
        f = b[0]
        ann = f.node.args.args[pos].annotation
        if ann is None:
            ip.exc('TypeError', 'Invalid first argument to register()')
        reg.append((ip.eval(ann, f.frame), f))
        return f
    def dispatch(ip, b, kk):
        for c in b[0].mro:
            for t, f in reversed(reg):
                if t is c:
                    return f
        return base
    r.attrs['register'] = Builtin('register', register)
    r.attrs['dispatch'] = Builtin('dispatch', dispatch)
    return r


def singledispatchmethod_class(ip):
    def init(ip, b, k):
        b[0].attrs['disp'] = d = b_singledispatch(ip, [b[1].func if isinstance(b[1], (ClassM, StaticM)) else b[1]], {}, 1)
        b[0].attrs['register'] = d.attrs['register']

    def get(ip, b, k):
        obj = b[1]
        return b[0].attrs['disp'] if obj is None else Bound(b[0].attrs['disp'], obj)
    return simple_class(ip, 'singledispatchmethod', {'__init__': Builtin('__init__', init), '__get__': Builtin('__get__', get)})


def partialmethod_class(ip):
    def init(ip, b, k):
        b[0].attrs['f'], b[0].attrs['pre'], b[0].attrs['kw'] = b[1], Seq('tuple', list(b[2:])), PyDict(list(k.items()))

    def get(ip, b, k):
        f, pre, kw, obj = b[0].attrs['f'], b[0].attrs['pre'].items, dict(ip.dict_pairs(b[0].attrs['kw'])), b[1]

        def call(ip, c, kk):
            kk = dict(kw, **kk)
            if isinstance(f, StaticM):
                return ip.call(f.func, pre + list(c), kk)
            if isinstance(f, ClassM):
                return ip.call(f.func, [b[2]] + pre + list(c), kk)
            return ip.call(f, [obj] + pre + list(c), kk)
        return Builtin('partialmethod', call)
    return simple_class(ip, 'partialmethod', {'__init__': Builtin('__init__', init), '__get__': Builtin('__get__', get)})


def b_cmp_to_key(ip, a, k):
    f = a[0]
    L = lib()
    cls = PyClass('K', [L.bclass(object)], {})
    cls.mro = [cls, L.bclass(object)]
    cls.ns['__lt__'] = Builtin('__lt__', lambda ip, b, kk: L.compare(ip, 'Lt', ip.call(f, [b[0].attrs['obj'], b[1].attrs['obj']]), 0))

    def key(ip, b, kk):
        o = PyObj(cls)
        o.attrs['obj'] = b[0]
        return o
    return Builtin('cmp_to_key', key)


# ---------------------------------------------------------------- collections, itertools

def b_namedtuple(ip, a, k):
    L = lib()
    name = a[0]
    f = a[1] if len(a) > 1 else k['field_names']
    if isinstance(f, str):
        fields = f.replace(',', ' ').split()
    else:
        fields = list(L.iterate(ip, f))
    defaults = list(L.iterate(ip, k['defaults'])) if k.get('defaults') is not None else []
    return make_namedtuple(ip, name, fields, defaults, {})


def make_namedtuple(ip, name, fields, defaults, extra_ns):
    L = lib()
    ns = dict(extra_ns)
    for i, n in enumerate(fields):
        ns[n] = Prop(Builtin(n, lambda ip, b, kk, i=i: b[0].payload.items[i]))
    ns['_fields'] = Seq('tuple', list(fields))

    def new(ip, b, kk):
        cls, vals = b[0], list(b[1:])
        if len(vals) > len(fields):
            ip.exc('TypeError', '%s.__new__() takes %d positional arguments' % (name, len(fields)))
        out = vals[:]
        kk = dict(kk)
        nd = len(fields) - len(defaults)
        for i, n in enumerate(fields[len(vals):], len(vals)):
            if n in kk:
                out.append(kk.pop(n))
            elif i >= nd:
                out.append(defaults[i - nd])
            else:
                ip.exc('TypeError', "missing required argument: '%s'" % n)
        if kk:
            ip.exc('TypeError', 'unexpected keyword argument')
        o = PyObj(cls)
        o.payload = Seq('tuple', out)
        return o
    ns['__new__'] = StaticM(Builtin('__new__', new))
    ns['__init__'] = Builtin('__init__', lambda ip, b, kk: None)

    def replace(ip, b, kk):
        o = PyObj(b[0].cls)
        o.payload = Seq('tuple', [kk.get(n, v) for n, v in zip(fields, b[0].payload.items)])
        return o
    ns['_replace'] = Builtin('_replace', replace)
    ns['_asdict'] = Builtin('_asdict', lambda ip, b, kk: PyDict(list(zip(fields, b[0].payload.items))))
    ns['_make'] = ClassM(Builtin('_make', lambda ip, b, kk: new(ip, [b[0]] + list(L.iterate(ip, b[1])), {})))
    
    def rp(ip, b, kk):
        out = [b[0].cls.name, '(']
        for i, (n, v) in enumerate(zip(fields, b[0].payload.items)):
            out += [', ' if i else '', n, '=', L.to_repr(ip, v)]
        return mk(out + [')'])
    ns.setdefault('__repr__', Builtin('__repr__', rp))
    c = PyClass(name, [L.bclass(tuple)], ns, ip.stack[-1].module if ip.stack else None, None, name)
    c.mro = [c] + list(L.bclass(tuple).mro)
    return c


def it_chain(ip, a, k):
    L = lib()

    def gen():
        for x in a:
            yield from L.iterate(ip, x)
    return L.make_iter(ip, gen(), many=any(ip.is_many(x) for x in a))


def it_chain_fi(ip, a, k):
    L = lib()
    mf = [ip.is_many(a[0])]

    def gen():
        for x in L.iterate(ip, a[0]):
            yield from L.iterate(ip, x)
    return Iter(gen(), label=mf)


def it_groupby(ip, a, k):
    L = lib()
    key = a[1] if len(a) > 1 else k.get('key')
    groups = []
    for x in L.iterate(ip, a[0]):
        kv = ip.call(key, [x]) if key is not None else x
        if groups and L.eq(ip, groups[-1][0], kv):
            groups[-1][1].append(x)
        else:
            groups.append((kv, [x]))
    return L.make_iter(ip, [Seq('tuple', [kv, L.make_iter(ip, xs)]) for kv, xs in groups])


def it_islice(ip, a, k):
    L = lib()
    args = [ip.resolve(x) for x in a[1:]]
    sl = slice(*args)
    many = ip.is_many(a[0])
    if many and sl.stop is not None:
        seq = Seq('list', list(L.iterate(ip, a[0])), True)
        return L.make_iter(ip, L.seq_slice(ip, seq, sl).items)
    src = L.iterate(ip, a[0])
    import itertools
    return L.make_iter(ip, itertools.islice(src, *args), many=many)


def it_simple(name):
    def f(ip, a, k):
        L = lib()
        import itertools
        if name == 'repeat':
            n = a[1] if len(a) > 1 else k.get('times')
            if n is None:
                return L.make_iter(ip, itertools.repeat(a[0]))
            if isinstance(n, Sym):
                raise Unsupported('repeat abstract count')
            return L.make_iter(ip, itertools.repeat(a[0], n))
        if name == 'count':
            return L.make_iter(ip, itertools.count(*a))
        if name == 'product':
            pools = [list(L.iterate(ip, x)) for x in a]
            return L.make_iter(ip, [Seq('tuple', list(t)) for t in itertools.product(*pools, repeat=k.get('repeat', 1))])
        if name in ('combinations', 'permutations'):
            return L.make_iter(ip, [Seq('tuple', list(t)) for t in getattr(itertools, name)(list(L.iterate(ip, a[0])), *a[1:])])
        if name == 'zip_longest':
            pools = [list(L.iterate(ip, x)) for x in a]
            return L.make_iter(ip, [Seq('tuple', list(t)) for t in itertools.zip_longest(*pools, fillvalue=k.get('fillvalue'))], many=any(ip.is_many(x) for x in a))
        if name in ('takewhile', 'dropwhile', 'filterfalse'):
            src = L.iterate(ip, a[1])
            fn = (lambda x: L.truth(ip, ip.call(a[0], [x]) if a[0] is not None else x))
            return L.make_iter(ip, getattr(itertools, name)(fn, src), many=ip.is_many(a[1]))
        if name == 'starmap':
            src = L.iterate(ip, a[1])
            return L.make_iter(ip, (ip.call(a[0], list(L.iterate(ip, x))) for x in src), many=ip.is_many(a[1]))
        if name == 'accumulate':
            out, acc = [], None
            fn = a[1] if len(a) > 1 else k.get('func')
            for i, x in enumerate(L.iterate(ip, a[0])):
                acc = x if i == 0 else (ip.call(fn, [acc, x]) if fn is not None else L.binop(ip, 'Add', acc, x))
                out.append(acc)
            return L.make_iter(ip, out)
        if name == 'tee':
            items = list(L.iterate(ip, a[0]))
            return Seq('tuple', [L.make_iter(ip, list(items)) for _ in range(a[1] if len(a) > 1 else 2)])
        if name == 'pairwise':
            items = list(L.iterate(ip, a[0]))
            return L.make_iter(ip, [Seq('tuple', [x, y]) for x, y in zip(items, items[1:])])
        if name == 'compress':
            return L.make_iter(ip, [x for x, s in zip(list(L.iterate(ip, a[0])), list(L.iterate(ip, a[1]))) if L.truth(ip, s)])
        if name == 'cycle':
            items = list(L.iterate(ip, a[0]))
            return L.make_iter(ip, itertools.cycle(items))
        raise Unsupported('itertools.' + name)
    return Builtin('itertools.' + name, f)


# ---------------------------------------------------------------- operator, contextlib, misc

def op_ns(ip):
    L = lib()
    ns = {}
    for n, o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'),
                 ('or_', 'BitOr'), ('and_', 'BitAnd'), ('xor', 'BitXor'), ('concat', 'Add'), ('pow', 'Pow')):
        ns[n] = Builtin(n, lambda ip, a, k, o=o: L.binop(ip, o, a[0], a[1]))
    for n, o in (('eq', 'Eq'), ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('is_', 'Is'), ('is_not', 'IsNot')):
        ns[n] = Builtin(n, lambda ip, a, k, o=o: L.compare(ip, o, a[0], a[1]))
    for n, o in (('iadd', 'Add'), ('ior', 'BitOr'), ('iand', 'BitAnd')):
        ns[n] = Builtin(n, lambda ip, a, k, o=o: L.augop(ip, o, a[0], a[1]))
    ns['contains'] = Builtin('contains', lambda ip, a, k: L.contains(ip, a[0], a[1]))
    ns['not_'] = Builtin('not_', lambda ip, a, k: not L.truth(ip, a[0]))
    ns['truth'] = Builtin('truth', lambda ip, a, k: L.truth(ip, a[0]))
    ns['neg'] = Builtin('neg', lambda ip, a, k: L.unop(ip, 'USub', a[0]))
    ns['getitem'] = Builtin('getitem', lambda ip, a, k: L.getitem(ip, a[0], a[1]))
    ns['setitem'] = Builtin('setitem', lambda ip, a, k: L.setitem(ip, a[0], a[1], a[2]))

    def ig(ip, a, k):
        idx = list(a)
        return Builtin('itemgetter', lambda ip, b, kk: L.getitem(ip, b[0], idx[0]) if len(idx) == 1 else Seq('tuple', [L.getitem(ip, b[0], i) for i in idx]))
    ns['itemgetter'] = Builtin('itemgetter', ig)

    def path(ip, o, n):
        for p in n.split('.'):
            o = ip.getattr(o, p)
        return o

    def ag(ip, a, k):
        names = list(a)
        return Builtin('attrgetter', lambda ip, b, kk: path(ip, b[0], names[0]) if len(names) == 1 else Seq('tuple', [path(ip, b[0], n) for n in names]))
    ns['attrgetter'] = Builtin('attrgetter', ag)

    def mc(ip, a, k):
        return Builtin('methodcaller', lambda ip, b, kk: ip.call(ip.getattr(b[0], a[0]), list(a[1:]), k))
    ns['methodcaller'] = Builtin('methodcaller', mc)
    return ns


def simple_class(ip, name, ns, base=None):
    L = lib()
    c = PyClass(name, [base or L.bclass(object)], ns)
    c.mro = [c] + list((base or L.bclass(object)).mro)
    return c


def contextlib_ns(ip):
    L = lib()

    def suppress_init(ip, b, kk):
        b[0].attrs['excs'] = Seq('tuple', list(b[1:]))

    def suppress_exit(ip, b, kk):
        return b[1] is not None and any(ip.issub(b[1], c) for c in b[0].attrs['excs'].items)
    sup = simple_class(ip, 'suppress', {'__init__': Builtin('__init__', suppress_init), '__enter__': Builtin('e', lambda ip, b, kk: b[0]),
                                        '__exit__': Builtin('x', suppress_exit)})
    null = simple_class(ip, 'nullcontext', {'__init__': Builtin('i', lambda ip, b, kk: b[0].attrs.__setitem__('v', b[1] if len(b) > 1 else None)),
                                            '__enter__': Builtin('e', lambda ip, b, kk: b[0].attrs['v']),
                                            '__exit__': Builtin('x', lambda ip, b, kk: None)})

    def cm(ip, a, k):
        f = a[0]

        def enter(ip, b, kk):
            try:
                return next(b[0].attrs['gen'].it)
            except StopIteration:
                ip.exc('RuntimeError', "generator didn't yield")

        def exit_(ip, b, kk):
            g = b[0].attrs['gen'].it
            if b[1] is None:
                for _ in g:
                    ip.exc('RuntimeError', "generator didn't stop")
                return False
            try:
                g.throw(Raise(b[2]))
            except StopIteration:
                return True
            except Raise as e:
                if e.obj is b[2]:
                    return False
                raise
            ip.exc('RuntimeError', "generator didn't stop after throw()")
        mgr = simple_class(ip, '_GeneratorContextManager', {'__enter__': Builtin('e', enter), '__exit__': Builtin('x', exit_)})

        def call(ip, b, kk):
            o = PyObj(mgr)
            o.attrs['gen'] = ip.call(f, b, kk)
            return o
        return Builtin(getattr(f, 'name', 'cm'), call)
    def es_init(ip, b, kk):
        b[0].attrs['cbs'] = []

    def es_enter_context(ip, b, kk):
        v = ip.call_method(b[1], '__enter__')
        b[0].attrs['cbs'].append(lambda t, e: ip.call_method(b[1], '__exit__', t, e, None))
        return v

    def es_callback(ip, b, kk):
        b[0].attrs['cbs'].append(lambda t, e: ip.call(b[1], list(b[2:]), kk) and None)
        return b[1]

    def es_exit(ip, b, kk):
        t, e = b[1], b[2]
        cbs, b[0].attrs['cbs'] = b[0].attrs['cbs'], []
        swallowed = False
        for cb in reversed(cbs):
            try:
                if ip.truth(cb(t, e)) and e is not None:
                    t = e = None
                    swallowed = True
            except Raise as x:
                t, e = x.obj.cls, x.obj
        if e is not None and e is not b[2]:
            raise Raise(e, ip.site())
        return swallowed and e is None
    stack = simple_class(ip, 'ExitStack', {
        '__init__': Builtin('i', es_init), '__enter__': Builtin('e', lambda ip, b, kk: b[0]), '__exit__': Builtin('x', es_exit),
        'enter_context': Builtin('enter_context', es_enter_context), 'callback': Builtin('callback', es_callback),
        'close': Builtin('close', lambda ip, b, kk: es_exit(ip, [b[0], None, None], {}) and None)})
    return {'ExitStack': stack, 'suppress': sup, 'nullcontext': null, 'contextmanager': Builtin('contextmanager', cm),
            'AbstractContextManager': simple_class(ip, 'AbstractContextManager', {})}


def threading_ns(ip):
    def lock(name):
        return simple_class(ip, name, {'__enter__': Builtin('e', lambda ip, b, k: True), '__exit__': Builtin('x', lambda ip, b, k: None),
                                       'acquire': Builtin('a', lambda ip, b, k: True), 'release': Builtin('r', lambda ip, b, k: None)})
    return {'Lock': lock('lock'), 'RLock': lock('RLock'), 'local': simple_class(ip, 'local', {}),
            'current_thread': Builtin('current_thread', lambda ip, a, k: None), 'get_ident': Builtin('get_ident', lambda ip, a, k: 1)}


def contextvars_ns(ip):
    L = lib()

    def init(ip, b, k):
        b[0].attrs['name'] = b[1]
        if 'default' in k:
            b[0].attrs['default'] = k['default']

    def get(ip, b, k):
        s = b[0]
        if 'value' in s.attrs:
            return s.attrs['value']
        if len(b) > 1:
            return b[1]
        if 'default' in s.attrs:
            return s.attrs['default']
        ip.exc('LookupError', s.attrs['name'])

    def set_(ip, b, k):
        old = b[0].attrs.get('value', ip._MISSING)
        ip.log_write(b[0], 'value')
        b[0].attrs['value'] = b[1]
        return Seq('tuple', [old if old is not ip._MISSING else None, old is ip._MISSING])

    def reset(ip, b, k):
        t = b[1]
        if t.items[1]:
            b[0].attrs.pop('value', None)
        else:
            b[0].attrs['value'] = t.items[0]
    return {'ContextVar': simple_class(ip, 'ContextVar', {'__init__': Builtin('i', init), 'get': Builtin('get', get), 'set': Builtin('set', set_), 'reset': Builtin('reset', reset)})}


def typing_ns(ip):
    L = lib()

    class NS(dict):
        def __contains__(self, n):
            return True

        def __missing__(self, n):
            if n == 'TYPE_CHECKING':
                return False
            if n in ('cast',):
                return Builtin('cast', lambda ip, a, k: a[1])
            if n in ('overload', 'final', 'no_type_check', 'runtime_checkable', 'override'):
                return Builtin(n, lambda ip, a, k: a[0])
            if n == 'NewType':
                return Builtin(n, lambda ip, a, k: Builtin(a[0], lambda ip, b, kk: b[0]))
            if n == 'NamedTuple':
                return Builtin('NamedTuple', lambda ip, a, k: make_namedtuple(ip, a[0], [x.items[0] for x in L.iterate(ip, a[1])], [], {}))
            b = Builtin('typing.' + n, lambda ip, a, k: None)
            return b
    return NS()


def dataclasses_ns(ip):
    L = lib()
    fcls = simple_class(ip, 'Field', {})
    MISSING = object()
    frozen_error = simple_class(ip, 'FrozenInstanceError', {}, L.bclass(AttributeError))

    def field(ip, a, k):
        o = PyObj(fcls)
        o.attrs.update(k)
        return o

    def process(ip, cls, opts):
        fields = []
        for c in reversed(cls.mro):
            for n, fd in c.ns.get('__dcfields__', []) if c is not cls else []:
                fields = [x for x in fields if x[0] != n] + [(n, fd)]
        own = []
        for n in cls.ns.get('__annotations_order__', []):
            d = cls.ns.get(n, MISSING)
            own.append((n, d))
            if isinstance(d, PyObj) and d.cls is fcls:
                if 'default' in d.attrs:
                    cls.ns[n] = d.attrs['default']
                else:
                    cls.ns.pop(n, None)
            if isinstance(d, (Seq, PyDict, PySet)) and getattr(d, 'kind', '') in ('list', 'dict', 'set'):
                ip.exc('ValueError', 'mutable default is not allowed: use default_factory')
        for n, d in own:
            fields = [x for x in fields if x[0] != n] + [(n, d)]
        cls.ns['__dcfields__'] = fields

        def init(ip, b, kk):
            o, vals = b[0], list(b[1:])
            kk = dict(kk)
            for n, d in fields:
                isf = isinstance(d, PyObj) and d.cls is fcls
                if isf and d.attrs.get('init') is False:
                    pass
                elif vals:
                    ip.raw_setattr(o, n, vals.pop(0))
                    continue
                elif n in kk:
                    ip.raw_setattr(o, n, kk.pop(n))
                    continue
                if isf and 'default_factory' in d.attrs:
                    ip.raw_setattr(o, n, ip.call(d.attrs['default_factory'], []))
                elif isf and 'default' in d.attrs:
                    ip.raw_setattr(o, n, d.attrs['default'])
                elif d is not MISSING and not isf:
                    ip.raw_setattr(o, n, d)
                elif not (isf and d.attrs.get('init') is False):
                    ip.exc('TypeError', "__init__() missing required argument: '%s'" % n)
            if vals or kk:
                ip.exc('TypeError', '__init__() got unexpected arguments')
            pi = ip.type_lookup(o.cls, '__post_init__')
            if pi is not None:
                ip.call(ip.bind(pi, o, o.cls), [])
        if opts.get('init', True) and '__init__' not in cls.ns:
            cls.ns['__init__'] = Builtin('__init__', init)

        def key(ip, o):
            return Seq('tuple', [ip.getattr(o, n) for n, d in fields if not (isinstance(d, PyObj) and d.cls is fcls and d.attrs.get('compare') is False)])

        def eq(ip, b, kk):
            if not isinstance(b[1], PyObj) or b[1].cls is not b[0].cls:
                return NOTIMPL
            return L.compare(ip, 'Eq', key(ip, b[0]), key(ip, b[1]))
        if opts.get('eq', True) and '__eq__' not in cls.ns:
            cls.ns['__eq__'] = Builtin('__eq__', eq)
            if opts.get('frozen') or opts.get('unsafe_hash'):
                if '__hash__' not in cls.ns:
                    cls.ns['__hash__'] = Builtin('__hash__', lambda ip, b, kk: L.b_hash(ip, [key(ip, b[0])], {}))
            elif '__hash__' not in cls.ns:
                cls.ns['__hash__'] = None
        if opts.get('order'):
            for n, o in (('__lt__', 'Lt'), ('__le__', 'LtE'), ('__gt__', 'Gt'), ('__ge__', 'GtE')):
                cls.ns[n] = Builtin(n, lambda ip, b, kk, o=o: L.compare(ip, o, key(ip, b[0]), key(ip, b[1])))
        if opts.get('repr', True) and '__repr__' not in cls.ns:
            def rp(ip, b, kk):
                out = [b[0].cls.qualname, '(']
                for i, (n, d) in enumerate(fields):
                    if i:
                        out.append(', ')
                    out += [n, '=', L.to_repr(ip, ip.getattr(b[0], n))]
                return mk(out + [')'])
            cls.ns['__repr__'] = Builtin('__repr__', rp)
        if opts.get('frozen'):
            def deny(ip, b, kk):
                raise Raise(ip.call(frozen_error, ['cannot assign to field']), ip.site())
            cls.ns['__setattr__'] = Builtin('__setattr__', deny)
        return cls

    def dataclass(ip, a, k):
        if a and isinstance(a[0], PyClass):
            return process(ip, a[0], k)
        return Builtin('dataclass', lambda ip, b, kk: process(ip, b[0], k))

    def replace(ip, a, k):
        o = a[0]
        vals = {n: ip.getattr(o, n) for n, d in o.cls.ns['__dcfields__']}
        vals.update(k)
        return ip.call(o.cls, [], vals)
    return {'FrozenInstanceError': frozen_error, 'is_dataclass': Builtin('is_dataclass', lambda ip, a, k: '__dcfields__' in getattr(a[0].cls if isinstance(a[0], PyObj) else a[0], 'ns', {})),
            'dataclass': Builtin('dataclass', dataclass), 'field': Builtin('field', field), 'replace': Builtin('replace', replace),
            'asdict': Builtin('asdict', lambda ip, a, k: PyDict([(n, ip.getattr(a[0], n)) for n, _ in a[0].cls.ns['__dcfields__']])),
            'fields': Builtin('fields', lambda ip, a, k: _unsup('dataclasses.fields'))}


def _unsup(n):
    raise Unsupported(n)


def enum_ns(ip):
    L = lib()
    E = simple_class(ip, 'Enum', {})

    def init_sub(ip, a, k):
        cls = a[0]
        mem, mp = [], PyDict()
        auto = 0
        for n, v in list(cls.ns.items()):
            if n.startswith('_') or isinstance(v, (PyFunc, Prop, ClassM, StaticM, Builtin)) and not (isinstance(v, Builtin) and v.name == 'auto') or isinstance(v, PyClass):
                continue
            if isinstance(v, Builtin):
                auto += 1
                v = auto
            elif isinstance(v, int):
                auto = v
            known = next((m for m in mem if L.same(ip, m.attrs['value'], v)), None) if '__new__' not in cls.ns else None
            if known is not None:
                cls.ns[n] = known
                L.dict_set(ip, mp, n, known)
                continue
            o = PyObj(cls)
            o.attrs['name'] = o.attrs['_name_'] = n
            o.attrs['value'] = o.attrs['_value_'] = v
            for c in cls.mro:
                if c.real in (str, int):
                    o.payload = v
            init = cls.ns.get('__init__')
            if isinstance(init, PyFunc):
                ip.call(init, [o] + (list(v.items) if isinstance(v, Seq) else [v]))
            cls.ns[n] = o
            mem.append(o)
            L.dict_set(ip, mp, n, o)
        if mem:
            cls.ns['__members_list__'] = Seq('list', mem)
            cls.ns['__members_map__'] = mp
            cls.ns['__members__'] = mp

            def new(ip, b, kk):
                for m in mem:
                    if L.same(ip, m.attrs['value'], b[1]):
                        return m
                ip.exc('ValueError', '%r is not a valid %s' % (b[1], cls.name))
            cls.ns['__new__'] = StaticM(new_enum(cls, mem))
    E.ns['__init_subclass__'] = ClassM(Builtin('__init_subclass__', init_sub))
    E.ns['__str__'] = Builtin('__str__', lambda ip, b, k: b[0].cls.name + '.' + b[0].attrs['name'])
    E.ns['__repr__'] = Builtin('__repr__', lambda ip, b, k: mk(['<%s.%s: ' % (b[0].cls.name, b[0].attrs['name']), L.to_repr(ip, b[0].attrs['value']), '>']))
    E.ns['__hash__'] = Builtin('__hash__', lambda ip, b, k: L.b_id(ip, b, k))
    E.ns['__init__'] = Builtin('__init__', lambda ip, b, k: None)
    SE = PyClass('StrEnum', [L.bclass(str), E], {'__str__': Builtin('__str__', lambda ip, b, k: b[0].payload)})
    SE.mro = [SE, E] + list(L.bclass(str).mro)
    IE = PyClass('IntEnum', [L.bclass(int), E], {'__str__': Builtin('__str__', lambda ip, b, k: str(b[0].payload))})
    IE.mro = [IE, E] + list(L.bclass(int).mro)
    return {'Enum': E, 'StrEnum': SE, 'IntEnum': IE, 'auto': Builtin('auto', lambda ip, a, k: Builtin('auto', None)),
            'unique': Builtin('unique', lambda ip, a, k: a[0])}


def new_enum(cls, mem):
    class _N(Builtin):
        pass
    L = lib()

    def new(ip, b, kk):
        for m in mem:
            if L.same(ip, m.attrs['value'], b[1]) or m is b[1]:
                return m
        ip.exc('ValueError', 'not a valid %s' % cls.name)
    return Builtin('enum.__new__', new)


def hexlify(ip, a, k):
    v = ip.resolve(a[0])
    if isinstance(v, bytes):
        return binascii.hexlify(v)
    if isinstance(v, Sym) and v.kind == 'bytes':
        return Sym(('hexlify', v.label), 'bytes')
    ip.exc('TypeError', 'a bytes-like object is required, not %s' % ip.type_of(v).name)


def suppress_result(name):
    return Builtin(name, lambda ip, a, k: None)


# standard library modules whose functions depend on nothing but their arguments
PURE = ('unicodedata', 'html', 'base64', 'shlex', 'textwrap', 'statistics', 'fractions', 'cmath', 'zlib', 'hashlib', 'difflib', 'fnmatch',
        'urllib.parse', 'colorsys', 'bisect', 'stringprep', 'quopri', 'keyword', 'heapq')


class OpaqueNs(dict):
    """Namespace of a library module without a model: functions of a pure
    module run on constants; everything else is undecided when it is used."""

    def __init__(self, name):
        super().__init__()
        self.module = name

    def resolve(self, key):
        if key.startswith('__'):
            return None
        try:
            v = getattr(importlib.import_module(self.module), key)
        except Exception:
            return None
        if lib().is_host(v):
            return v
        if isinstance(v, type) and issubclass(v, BaseException):
            return lib().bclass(v)

        def call(ip, a, k):
            a = [host_of(ip, x) for x in a]
            k = {n: host_of(ip, x) for n, x in k.items()}
            if self.module not in PURE or isinstance(v, type):
                raise Unsupported('%s.%s' % (self.module, key))
            try:
                return guest_of(v(*a, **k))
            except Unsupported:
                raise
            except (TypeError, ValueError, LookupError, ArithmeticError) as e:
                ip.exc(type(e).__name__, str(e))
            except Exception as e:
                raise Unsupported('%s.%s' % (self.module, key))
        return Builtin(key, call) if callable(v) else Builtin(self.module + '.' + key, lambda ip, a, k: _unsup('%s.%s' % (self.module, key)))

    def __contains__(self, key):
        return super().__contains__(key) or self.get(key) is not None

    def get(self, key, default=None):
        if not super().__contains__(key):
            v = self.resolve(key)
            if v is None:
                return default
            self[key] = v
        return self[key]

    def __missing__(self, key):
        v = self.resolve(key)
        if v is None:
            raise KeyError(key)
        self[key] = v
        return v


def host_of(ip, v):
    v = ip.resolve(v)
    if isinstance(v, PyObj):
        v = lib().unwrap(v)
    if isinstance(v, Seq) and v.kind in ('list', 'tuple'):
        return (list if v.kind == 'list' else tuple)(host_of(ip, x) for x in v.items)
    if isinstance(v, PyDict):
        return {host_of(ip, a): host_of(ip, b) for a, b in zip(v.keys, v.vals)}
    if not lib().is_host(v):
        raise Unsupported('library call on an abstract value')
    return v


def guest_of(v):
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
        return Seq(type(v).__name__, [guest_of(x) for x in v])
    if type(v) is dict:
        return PyDict([(guest_of(a), guest_of(b)) for a, b in v.items()])
    if not lib().is_host(v):
        raise Unsupported('result of a library call')
    return v


def opaque_module(name):
    m = Module(name, None, False, True)
    m.ns = OpaqueNs(name)
    return m


def stub_module(ip, name):
    L = lib()
    bc = L.bclass
    ns = None
    if name == 're':
        ns = relib.module_ns(ip)
    elif name == 'datetime':
        ns = {n: bc(getattr(datetime, n)) for n in ('date', 'datetime', 'time', 'timedelta', 'timezone', 'tzinfo')}
    elif name == 'decimal':
        ns = {'Decimal': bc(decimal.Decimal), 'InvalidOperation': bc(decimal.InvalidOperation),
              'ROUND_HALF_UP': decimal.ROUND_HALF_UP, 'ROUND_HALF_EVEN': decimal.ROUND_HALF_EVEN, 'ROUND_DOWN': decimal.ROUND_DOWN}
    elif name == 'types':
        ns = {n: bc(getattr(types, n)) for n in ('GeneratorType', 'FunctionType', 'MethodType', 'ModuleType', 'BuiltinFunctionType',
                                                 'LambdaType', 'SimpleNamespace', 'MappingProxyType', 'NoneType')}
    elif name == 'binascii':
        ns = {'hexlify': Builtin('hexlify', hexlify), 'b2a_hex': Builtin('b2a_hex', hexlify), 'Error': bc(binascii.Error)}
    elif name == 'codecs':
        def enc(ip, a, k):
            if (a[1] if len(a) > 1 else k.get('encoding')) == 'hex':
                return hexlify(ip, a, k)
            return L.STR['encode'](ip, a[0], a[1:], k)
        ns = {'encode': Builtin('encode', enc), 'decode': Builtin('decode', lambda ip, a, k: L.BYTES['decode'](ip, a[0], a[1:], k))}
    elif name == 'functools':
        def cp(ip, a, k):
            return Prop(a[0], cached=True)
        ns = {'wraps': Builtin('wraps', b_wraps), 'update_wrapper': Builtin('update_wrapper', update_wrapper),
              'total_ordering': Builtin('total_ordering', total_ordering),
              'partial': Builtin('partial', b_partial), 'reduce': Builtin('reduce', b_reduce), 'lru_cache': Builtin('lru_cache', b_lru_cache),
              'cache': Builtin('cache', b_lru_cache), 'cached_property': Builtin('cached_property', cp),
              'singledispatch': Builtin('singledispatch', b_singledispatch), 'singledispatchmethod': singledispatchmethod_class(ip), 'partialmethod': partialmethod_class(ip), 'cmp_to_key': Builtin('cmp_to_key', b_cmp_to_key)}
    elif name == 'copy':
        ns = {'deepcopy': Builtin('deepcopy', b_deepcopy), 'copy': Builtin('copy', b_copy)}
    elif name == 'collections':
        ns = {n: bc(getattr(collections, n)) for n in ('OrderedDict', 'defaultdict', 'deque', 'Counter')}
        ns['namedtuple'] = Builtin('namedtuple', b_namedtuple)
        sub = ip.import_module('collections.abc')
        ns['abc'] = sub
    elif name == 'collections.abc':
        ns = {n: bc(getattr(collections.abc, n)) for n in collections.abc.__all__}
    elif name == 'itertools':
        ch = Builtin('chain', it_chain)
        ch.attrs['from_iterable'] = Builtin('from_iterable', it_chain_fi)
        ns = {'chain': ch, 'islice': Builtin('islice', it_islice), 'groupby': Builtin('groupby', it_groupby)}
        for n in ('repeat', 'count', 'product', 'combinations', 'permutations', 'zip_longest', 'takewhile', 'dropwhile',
                  'filterfalse', 'starmap', 'accumulate', 'tee', 'pairwise', 'compress', 'cycle'):
            ns[n] = it_simple(n)
    elif name == 'operator':
        ns = op_ns(ip)
    elif name == 'contextlib':
        ns = contextlib_ns(ip)
    elif name == 'abc':
        meta = Builtin('ABCMeta', lambda ip, a, k: _unsup('ABCMeta()'))
        def mark(ip, a, k):
            f = a[0].fget if isinstance(a[0], Prop) else a[0].func if isinstance(a[0], (ClassM, StaticM)) else a[0]
            if isinstance(f, PyFunc):
                f.abstract = True
            return a[0]
        ns = {'ABC': simple_class(ip, 'ABC', {'__isabc__': True}), 'ABCMeta': meta, 'abstractmethod': Builtin('abstractmethod', mark),
              'abstractproperty': Builtin('abstractproperty', lambda ip, a, k: Prop(mark(ip, a, k)))}
    elif name == 'typing' or name == 'typing_extensions':
        m = Module(name, None, False, True)
        m.ns = typing_ns(ip)
        return m
    elif name == 'dataclasses':
        ns = dataclasses_ns(ip)
    elif name == 'enum':
        ns = enum_ns(ip)
    elif name == 'threading':
        ns = threading_ns(ip)
    elif name == 'contextvars':
        ns = contextvars_ns(ip)
    elif name == 'warnings':
        ns = {'warn': suppress_result('warn'), 'simplefilter': suppress_result('simplefilter'), 'filterwarnings': suppress_result('f')}
    elif name == 'logging':
        lg = simple_class(ip, 'Logger', {n: Builtin(n, lambda ip, a, k: None) for n in ('debug', 'info', 'warning', 'error', 'exception', 'log', 'critical', 'addHandler', 'setLevel')})
        ns = {'getLogger': Builtin('getLogger', lambda ip, a, k: PyObj(lg)), 'NullHandler': simple_class(ip, 'NullHandler', {})}
        for n in ('debug', 'info', 'warning', 'error', 'exception'):
            ns[n] = suppress_result(n)
    elif name == 'string':
        ns = {n: getattr(string, n) for n in ('ascii_letters', 'ascii_lowercase', 'ascii_uppercase', 'digits', 'hexdigits', 'punctuation', 'whitespace', 'printable')}

        def tinit(ip, b, k):
            b[0].attrs['template'] = b[1]

        def tsub(ip, b, k, safe=False):
            t = b[0].attrs['template']
            if not isinstance(t, str):
                raise Unsupported('abstract Template')
            out, pos = [], 0
            for m in re.finditer(r'(?i)\$(?:(\$)|([_a-z][_a-z0-9]*)|\{([_a-z][_a-z0-9]*)\}|)', t):
                out.append(t[pos:m.start()])
                pos = m.end()
                if m.group(1):
                    out.append('$')
                    continue
                n = m.group(2) or m.group(3)
                if n is None:
                    if not safe:
                        ip.exc('ValueError', 'Invalid placeholder in string')
                    out.append('$')
                    continue
                if n not in k and (len(b) < 2 or safe and not L.contains(ip, b[1], n)):
                    if not safe:
                        ip.exc('KeyError', n)
                    out.append(m.group(0))
                    continue
                out.append(ip.tostr(k[n] if n in k else L.getitem(ip, b[1], n)))
            out.append(t[pos:])
            return mk(out)
        ns['Template'] = simple_class(ip, 'Template', {'__init__': Builtin('i', tinit), 'substitute': Builtin('s', tsub), 'safe_substitute': Builtin('s', lambda ip, b, k: tsub(ip, b, k, True))})
    elif name == 'numbers':
        ns = {n: bc(getattr(numbers, n)) for n in ('Number', 'Integral', 'Real', 'Complex', 'Rational')}
    elif name == 'math':
        import math

        def mf(n):
            def f(ip, a, k):
                v = ip.resolve(a[0])
                if isinstance(v, Sym):
                    if n.startswith('is'):
                        return ip.decide((n, v))
                    return Sym((n, v), 'int' if n in ('floor', 'ceil', 'trunc') else 'float')
                try:
                    return getattr(math, n)(*a)
                except (TypeError, ValueError, OverflowError) as e:
                    ip.exc(type(e).__name__, str(e))
            return Builtin(n, f)
        ns = {n: mf(n) for n in ('floor', 'ceil', 'trunc', 'isnan', 'isinf', 'isfinite', 'fabs', 'sqrt')}
        ns.update(inf=math.inf, nan=math.nan, pi=math.pi)
    elif name == 'sys':
        import sys
        ns = {'version_info': Seq('tuple', list(sys.version_info[:3])), 'maxsize': sys.maxsize, 'intern': Builtin('intern', lambda ip, a, k: a[0]),
              'modules': PyDict(), 'version': sys.version, 'getrecursionlimit': Builtin('g', lambda ip, a, k: 1000)}
    elif name == 'weakref':
        wk = bc(dict)
        ns = {'WeakKeyDictionary': wk, 'WeakValueDictionary': wk, 'ref': Builtin('ref', lambda ip, a, k: Builtin('ref', lambda ip, b, kk: a[0]))}
    elif name == 'reprlib':
        ns = {'repr': Builtin('repr', lambda ip, a, k: SStr((Atom(('reprlib', ip.canon(a[0])), 'any'),)))}
    elif name == 'textwrap':
        ns = {'dedent': Builtin('dedent', lambda ip, a, k: __import__('textwrap').dedent(a[0]) if isinstance(a[0], str) else _unsup('dedent'))}
    elif name == 'inspect':
        def isgen(ip, a, k):
            return isinstance(a[0], Iter) and a[0].kind == 'generator'
        ns = {'isgenerator': Builtin('isgenerator', isgen), 'isclass': Builtin('isclass', lambda ip, a, k: isinstance(a[0], PyClass)),
              'isfunction': Builtin('isfunction', lambda ip, a, k: isinstance(a[0], PyFunc))}
    elif name == 'time':
        ns = {n: Builtin(n, lambda ip, a, k: Sym(('time', next(ip.counter)), 'float')) for n in ('time', 'monotonic', 'perf_counter')}
    elif name == 'random':
        ns = {'random': Builtin('random', lambda ip, a, k: Sym(('random', next(ip.counter)), 'float'))}
    elif name == 'os':
        ns = {'environ': PyDict(), 'linesep': '\n', 'getenv': Builtin('getenv', lambda ip, a, k: a[1] if len(a) > 1 else None)}
    elif name == '__future__':
        ns = {}
    elif name == 'builtins':
        ns = dict(ip.builtins)
    elif name == 'importlib':
        ns = {'import_module': Builtin('import_module', lambda ip, a, k: ip.import_module(a[0]))}
    elif name in ('pkg_resources', 'distutils', 'setuptools'):
        return None
    if ns is None:
        try:
            import importlib.util
            known = importlib.util.find_spec(name) is not None
        except (ImportError, ValueError):
            known = False
        if not known:
            return None
        return opaque_module(name)
    m = Module(name, None, False, True)
    m.ns.update(ns)
    return m
