"""Validates the oracles of the obligations: on the unchanged tree every constant instance of every obligation has to
satisfy it, as a false alarm needs exactly such an instance.  usage: consttest.py [C01 ...] [-n N]"""
import importlib, multiprocessing, os, random, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import run as R, scenario as SC
from sa.interp import next_prefix
N = int(os.environ.get('N', '60'))
ROOT = R.ROOT


def job(a):
    prop, idxs = a

    def go():
        out = []
        obs = list(importlib.import_module('sa.checks.' + prop.lower()).obligations('quick'))
        for i in idxs:
            name, fn = obs[i][:2]
            rng = random.Random(i)
            t0 = time.time()
            cnt = 0
            prefix = []
            paths = []
            while prefix is not None and len(paths) < 12:
                k, m, ip, S = SC.one_path(fn, prefix, ROOT)
                paths.append((ip, S))
                prefix = next_prefix(ip.ctx.trace)
            rng.shuffle(paths)
            bad = None
            for ip, S in paths[:3]:
                cands = SC.assignments(S.inputs, ip, rng, 100000, S.hints)
                if len(cands) > N:
                    cands = cands[:N // 3] + rng.sample(cands[N // 3:], N - N // 3)
                for asg in cands:
                    if time.time() - t0 > 40:
                        break
                    p2, n = [], 0
                    while p2 is not None and n < 4:
                        k, m, ip2, S2 = SC.one_path(fn, p2, ROOT, asg)
                        n += 1
                        cnt += 1
                        if k == 'viol':
                            bad = (m, {l: repr(v)[:60] for l, v in S2.assign.items()})
                            break
                        p2 = next_prefix(ip2.ctx.trace)
                    if bad:
                        break
                if bad:
                    break
            out.append((name, cnt, bad))
        return out
    return prop, R.bigstack(go)


props = [a for a in sys.argv[1:]] or ['C%02d' % i for i in range(1, 24)]
jobs = []
for p in props:
    n = len(list(importlib.import_module('sa.checks.' + p.lower()).obligations('quick')))
    jobs += [(p, list(range(k, n, max(1, n // 6)))) for k in range(max(1, n // 6)) if k < n]
tot = {}
with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=6) as pool:
    for prop, out in pool.imap_unordered(job, jobs):
        for name, cnt, bad in out:
            tot.setdefault(prop, [0, 0])[0] += cnt
            if bad:
                tot[prop][1] += 1
                print(prop, name, bad[0][:400], bad[1], flush=True)
for p in sorted(tot):
    print(p, 'instances', tot[p][0], 'bad obligations', tot[p][1])
