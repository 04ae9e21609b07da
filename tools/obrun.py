"""Development helper: run selected obligations and stop at the first violation,
or record the source lines each obligation analyses.

  obrun.py cover C05 OUT.json
  obrun.py run JOBS.json          [["C05", 3], ...]  -> prints one JSON line
"""
import importlib, json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import interp, scenario as SC                           # noqa: E402
from sa.run import bigstack, ROOT                               # noqa: E402


def cover(prop):
    obs = list(importlib.import_module('sa.checks.' + prop.lower()).obligations('quick'))
    out = []
    for name, fn, *o in obs:
        interp.SUMMARIES.clear()
        SC.LINES.clear()
        SC.explore(name, fn, root=ROOT, budget=60, **(o[0] if o else {}))
        out.append(sorted('%s:%s' % (f if f.startswith('sqlpuzzle') else f[f.index('sqlpuzzle'):], l) for f, l in SC.LINES))
    return out


def run(jobs, limit=float(os.environ.get('OBLIMIT', '240')), every=bool(os.environ.get('OBALL'))):
    t0 = time.time()
    und, n, hit = [], 0, []
    mods = {}
    for prop, i in jobs:
        if time.time() - t0 > limit:
            und.append('time limit after %d' % n)
            break
        if every and any(h[0] == prop for h in hit):
            continue
        if prop not in mods:
            mods[prop] = list(importlib.import_module('sa.checks.' + prop.lower()).obligations('quick'))
        name, fn, *o = mods[prop][i]
        n += 1
        try:
            r = SC.explore(name, fn, root=ROOT, budget=60, **(o[0] if o else {}))
        except Exception as e:
            und.append('%s %s: error %r' % (prop, name, e))
            continue
        if r.status == 'violation':
            hit.append([prop, name, r.detail[:300]])
            if not every:
                break
        elif r.status != 'ok':
            und.append('%s %s: %s' % (prop, name, r.detail[:150]))
    return {'hit': hit, 'und': und, 'n': n, 's': round(time.time() - t0)}


if __name__ == '__main__':
    if sys.argv[1] == 'cover':
        json.dump(bigstack(lambda: cover(sys.argv[2])), open(sys.argv[3], 'w'))
    else:
        jobs = json.load(open(sys.argv[2]))
        print(json.dumps(bigstack(lambda: run(jobs))))
