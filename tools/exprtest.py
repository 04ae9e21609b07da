"""Development aid: every listed expression of tools/lang/subclasses.py on its own, CPython against the interpreter."""
import ast, os, shutil, sys, tempfile, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.interp import Interp, Ctx                       # noqa: E402
from sa.values import Raise, Unsupported, show    # noqa: E402



def main():
    src = open(os.path.join(HERE, 'tools', 'lang', (sys.argv[1] if len(sys.argv) > 1 else 'subclasses') + '.py')).read()
    tree = ast.parse(src)
    head, fns = [], []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and n.name.startswith('f_'):
            setup = []
            k = 0

            def emit(e):
                nonlocal k
                k += 1
                fns.append(('%s_%d' % (n.name, k), list(setup), e))
            for st in n.body:
                if isinstance(st, ast.Assign) and getattr(st.targets[0], 'id', '') == 'out' or isinstance(st, ast.Return) and isinstance(st.value, ast.List) or isinstance(st, ast.AugAssign):
                    for e in st.value.elts:
                        emit(e)
                elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and ast.unparse(st.value.func) == 'out.append':
                    emit(st.value.args[0])
                elif not isinstance(st, ast.Return):
                    setup.append(st)
        else:
            head.append(n)
    text = '\n'.join(ast.unparse(x) for x in head) + '\n'
    for name, setup, e in fns:
        text += 'def %s():\n' % name + ''.join('    ' + ast.unparse(x).replace('\n', '\n    ') + '\n' for x in setup) + '    return %s\n' % ast.unparse(e)
    d = tempfile.mkdtemp()
    os.mkdir(d + '/sqlpuzzle')
    open(d + '/sqlpuzzle/__init__.py', 'w').write(text)
    ns = {'__name__': 'x'}
    exec(compile(text, 'x', 'exec'), ns)
    bad = 0
    for name, setup, e in fns:
        want = ns[name]()
        try:
            ip = Interp(root=d, ctx=Ctx([]))
            got = ip.call(ip.getattr(ip.load(), name), [])
            a, b = ip.call(ip.builtins["repr"], [got]), repr(want)
            if a != b:
                bad += 1
                print('DIFF', ast.unparse(e), 'got', a, 'want', b)
        except Raise as x:
            bad += 1
            print('RAISE', ast.unparse(e), x.obj.cls.name, [show(y) for y in x.obj.attrs['args'].items])
        except Unsupported as x:
            bad += 1
            print('UNSUPPORTED', ast.unparse(e), str(x)[:150])
        except Exception as x:
            bad += 1
            print('CRASH', ast.unparse(e), type(x).__name__, str(x)[:150])
    shutil.rmtree(d)
    print(len(fns), 'expressions', bad, 'bad')


sys.setrecursionlimit(100000)
threading.stack_size(500 * 1024 * 1024)
t = threading.Thread(target=main)
t.start()
t.join()
