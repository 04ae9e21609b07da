"""Applies a group of behaviour-preserving rewrites to a scratch copy and runs the repo's tests and every check on it.
usage: refactest.py r1 [C01 C02 ...]"""
import importlib, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
name, only = sys.argv[1], sys.argv[2:]
mod = importlib.import_module('refactor.' + name)
d = tempfile.mkdtemp(prefix='refac.')
try:
    subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/r'])
    for f, edits in mod.EDITS.items():
        p = d + '/r/sqlpuzzle/' + f
        if isinstance(edits, str):
            open(p, 'w').write(edits)
            continue
        s = open(p).read()
        for a, b in edits:
            if s.count(a) != 1:
                print('EDIT does not apply once:', f, repr(a[:80]), s.count(a))
                sys.exit(2)
            s = s.replace(a, b)
        open(p, 'w').write(s)
    r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d + '/r', capture_output=True, text=True)
    print(r.stdout.strip().split('\n')[-1])
    if r.returncode:
        print(r.stdout[-3000:])
        if '--force' not in sys.argv:
            sys.exit(2)
    env = dict(os.environ, SQLPUZZLE_ROOT=d + '/r', VERIF_EVIDENCE=d)
    for c in only or ['C%02d' % i for i in range(1, 24)] + ['C26']:
        if c.startswith('-'):
            continue
        r = subprocess.run(['python3', '-W', 'ignore', '-m', 'sa.run', c], cwd=root, env=env, capture_output=True, text=True)
        out = [l for l in (r.stdout + r.stderr).strip().split('\n')]
        print(c, 'rc', r.returncode, out[-1][:160], flush=True)
        if r.returncode or '0 undecided' not in r.stdout + r.stderr:
            print('    ' + '\n    '.join(x[:400] for x in out[:8]), flush=True)
finally:
    shutil.rmtree(d)
