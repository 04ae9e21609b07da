"""Development aid: the constructs of tools/lang/corpus.py, CPython against the abstract interpreter on constants."""
import os, shutil, sys, tempfile, threading, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools', 'lang'))
from sa.interp import Interp, Ctx                       # noqa: E402
from sa.values import Raise, Unsupported, show, Seq    # noqa: E402
import corpus                                           # noqa: E402


def main():
    d = tempfile.mkdtemp()
    os.mkdir(d + '/sqlpuzzle')
    shutil.copy(os.path.join(HERE, 'tools', 'lang', 'corpus.py'), d + '/sqlpuzzle/__init__.py')
    bad = 0
    names = [n for n in vars(corpus) if n.startswith('f_') and (len(sys.argv) < 2 or sys.argv[1] in n)]
    for n in names:
        want = getattr(corpus, n)()
        try:
            ip = Interp(root=d, ctx=Ctx([]))
            m = ip.load()
            got = ip.call(ip.getattr(m, n), [])
        except Raise as e:
            bad += 1
            print('RAISE', n, e.obj.cls.name, [show(x) for x in e.obj.attrs['args'].items], e.site)
            continue
        except Unsupported as e:
            bad += 1
            print('UNSUPPORTED', n, str(e)[:300])
            continue
        except Exception:
            bad += 1
            print('CRASH', n)
            traceback.print_exc(limit=-3)
            continue
        try:
            if isinstance(want, (list, tuple)) and isinstance(got, Seq):
                if len(want) != len(got.items):
                    print('LENGTH', n, len(want), len(got.items))
                for i, (w, g) in enumerate(zip(want, got.items)):
                    r = ip.call(ip.builtins['repr'], [g])
                    if r != repr(w):
                        bad += 1
                        print('DIFF', n, i, repr(w), '|', show(r))
            else:
                r = ip.call(ip.builtins['repr'], [got])
                if r != repr(want):
                    bad += 1
                    print('DIFF', n, repr(want), '|', show(r))
        except Exception as e:
            bad += 1
            print('CRASH in repr', n, repr(e)[:200])
    shutil.rmtree(d)
    print(len(names), 'functions', bad, 'bad')


sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)
th = threading.Thread(target=main)
th.start()
th.join()
