"""Runs each planted bug's own check against a scratch copy with the bug applied (development tool)."""
import json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
for id in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    if want and not any(w in id for w in want):
        continue
    d = os.path.join(ROOT, 'seeded', id)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    w = '/tmp/seedrun.%d' % os.getpid()
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', '-c', 'advice.detachedHead=false', 'clone', '-q', '/repo', w], check=True)
    subprocess.run(['git', '-C', w, 'apply', os.path.join(d, 'patch.diff')], check=True)
    t0 = time.time()
    r = subprocess.run(['python3', '-m', 'sa.run', prop, '--first', '-j', '4'], cwd=ROOT, capture_output=True, text=True,
                       env=dict(os.environ, SQLPUZZLE_ROOT=w, PYTHONDONTWRITEBYTECODE='1'))
    out = (r.stdout + r.stderr)
    print('%-36s %s rc %d %5.1fs  %s' % (id, prop, r.returncode, time.time() - t0, 'CAUGHT' if r.returncode == 1 else 'MISSED ' + out[-300:]), flush=True)
    shutil.rmtree(w, ignore_errors=True)
