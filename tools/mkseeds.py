"""Writes /verif/seeded/<id>/ from the definitions below, after confirming in a
scratch copy that the tests pass with the change and that the demonstration
tells the two trees apart (development tool; no check reads seeded/)."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/seedwork'
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append((id, prop, edits, demo, needs, breaks))


sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import define                                         # noqa: E402
define(seed)


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', **env))


def main():
    want = sys.argv[1:]
    bad = 0
    for id, prop, edits, demo, needs, breaks in SEEDS:
        if want and not any(w in id for w in want):
            continue
        shutil.rmtree(SCRATCH, ignore_errors=True)
        subprocess.run(['git', '-c', 'advice.detachedHead=false', 'clone', '-q', '/repo', SCRATCH], check=True)
        d = os.path.join(ROOT, 'seeded', id)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.py'), 'w').write('import os, sys, warnings\nwarnings.simplefilter("ignore")\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\nimport sqlpuzzle as s\n\n' + demo.strip() + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        base = sh('bash %s/demo.sh' % d, SCRATCH)
        for f, old, new in edits:
            p = os.path.join(SCRATCH, 'sqlpuzzle', f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'EDIT matches', s.count(old), 'times:', old[:60])
                bad += 1
            open(p, 'w').write(s.replace(old, new, 1))
        diff = sh('git diff', SCRATCH).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 tests', SCRATCH)
        after = sh('bash %s/demo.sh' % d, SCRATCH)
        ok = base.returncode == 0 and after.returncode != 0 and t.returncode == 0
        print('%-34s %s  base %d  tests %d  patched %d %s' % (id, 'ok ' if ok else 'BAD', base.returncode, t.returncode, after.returncode,
              '' if ok else base.stderr[-300:] + t.stdout[-300:] + after.stderr[-300:]))
        if not ok:
            bad += 1
            shutil.rmtree(d)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    return bad


if __name__ == '__main__':
    sys.exit(1 if main() else 0)
