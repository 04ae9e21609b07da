"""Development aid, not a check: walk the repository's own test functions with
the abstract interpreter (all their inputs are constants) to validate its
transfer functions.  Every test must come out as pytest reports it."""
import ast
import os
import sys
import threading
import glob

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import interp as I                                   # noqa: E402
from sa.interp import Interp, Ctx, Frame, parse_file         # noqa: E402
from sa.values import *                                      # noqa: E402,F401,F403
from sa.values import Module, Builtin, PyObj, PyClass, Raise, Unsupported, Seq, PyFunc, show, segs  # noqa: E402

ROOT = sys.argv[1] if len(sys.argv) > 1 else '/repo'


def pytest_stub(ip):
    m = Module('pytest', stub=True)

    def fixture(i, a, k):
        a[0].attrs['fixture'] = True
        return a[0]
    m.ns['fixture'] = Builtin('fixture', fixture)

    def raises(i, a, k):
        c = PyClass('raises', [i.builtins['object']], {}, None, None)
        c.mro = i.c3(c)

        def ex(i2, b, k2):
            if b[1] is None:
                i2.exc('AssertionError', 'DID NOT RAISE')
            return i2.issub(b[1], a[0])
        c.ns['__enter__'] = Builtin('__enter__', lambda i2, b, k2: b[0])
        c.ns['__exit__'] = Builtin('__exit__', ex)
        return PyObj(c)
    m.ns['raises'] = Builtin('raises', raises)
    mark = Module('pytest.mark', stub=True)

    def parametrize(i, a, k):
        def deco(i2, b, k2):
            b[0].attrs.setdefault('params', []).append((a[0], a[1]))
            return b[0]
        return Builtin('deco', deco)
    mark.ns['parametrize'] = Builtin('parametrize', parametrize)
    m.ns['mark'] = mark
    return m


def patch_object(ip, a, k):
    c = PyClass('patch', [ip.builtins['object']], {}, None, None)
    c.mro = ip.c3(c)
    old = ip.getattr(a[0], a[1])
    c.ns['__enter__'] = Builtin('__enter__', lambda i2, b, k2: ip.setattr(a[0], a[1], a[2]))
    c.ns['__exit__'] = Builtin('__exit__', lambda i2, b, k2: ip.setattr(a[0], a[1], old))
    return PyObj(c)


def main():
    bad = 0
    total = 0
    for path in sorted(glob.glob(ROOT + '/tests/**/test_*.py', recursive=True)):
        tree = parse_file(path)
        names = [n.name for n in tree.body if isinstance(n, ast.FunctionDef) and n.name.startswith('test')]
        names += [(c.name, n.name) for c in tree.body if isinstance(c, ast.ClassDef) for n in c.body if isinstance(n, ast.FunctionDef) and n.name.startswith('test')]
        for nm in names:
            def fresh():
                ip = Interp(root=ROOT, ctx=Ctx([]))
                ip.load()
                ip.modules['pytest'] = pytest_stub(ip)
                um = Module('unittest', stub=True)
                mk_ = Module('unittest.mock', stub=True)
                um.ns['mock'] = mk_
                mk_.ns['patch'] = po = Builtin('patch', None)
                po.attrs['object'] = Builtin('patch.object', patch_object)
                ip.modules['unittest'] = um
                ip.modules['unittest.mock'] = mk_
                ns = {}
                for p in (ROOT + '/tests/conftest.py', path):
                    mod = Module('tests.x', p)
                    mod.ns['__package__'] = 'tests'
                    fr = Frame('module', mod)
                    fr.locals = mod.ns
                    ip.stack.append(fr)
                    ip.run(ip.exec_block(parse_file(p).body, fr))
                    ip.stack.pop()
                    ns.update(mod.ns)
                return ip, ns

            def go(k):
                ip, ns = fresh()
                f = ns[nm] if isinstance(nm, str) else ns[nm[0]].ns[nm[1]]
                params = f.attrs.get('params', [])
                kw = {}
                cells = [None]
                for pn, vals in params:
                    pns = [x.strip() for x in pn.split(',')] if isinstance(pn, str) else pn.items
                    cells = [(c, pns, v) for c in cells for v in vals.items]
                c = cells[k]
                while c is not None:
                    c, pns, v = c
                    vs = [v] if len(pns) == 1 else v.items
                    kw.update(zip(pns, vs))

                def fix(n):
                    if n in kw:
                        return kw[n]
                    fx = ns[n]
                    args = [fix(x.arg) for x in fx.node.args.args]
                    r = ip.call(fx, args)
                    if isinstance(r, I.Iter):
                        r = next(r.it)
                    kw[n] = r
                    return r
                args = []
                if not isinstance(nm, str):
                    args = [PyObj(ns[nm[0]])]
                for x in f.node.args.args[len(args):]:
                    args.append(fix(x.arg))
                ip.call(f, args)
                return len(cells)
            k, n = 0, 1
            while k < n:
                total += 1
                try:
                    n = go(k)
                except Raise as e:
                    bad += 1
                    print('FAIL', os.path.relpath(path, ROOT), nm, k, e.obj.cls.name, e.site, [show(x) for x in e.obj.attrs['args'].items])
                except Unsupported as e:
                    bad += 1
                    print('UNSUPPORTED', os.path.relpath(path, ROOT), nm, k, e)
                except Exception as e:
                    bad += 1
                    import traceback
                    print('CRASH', os.path.relpath(path, ROOT), nm, k)
                    traceback.print_exc(limit=-4)
                k += 1
    print(total, 'run', bad, 'bad')


sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)
th = threading.Thread(target=main)
th.start()
th.join()
