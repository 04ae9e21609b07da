"""Decide one property: python3 -m sa.run C05 [--tier quick|thorough] [--ob SUBSTR]"""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('SQLPUZZLE_ROOT', '/repo')


def bigstack(fn):
    out = {}

    def run():
        try:
            out['r'] = fn()
        except BaseException as e:           # noqa: B902
            import traceback
            out['e'] = traceback.format_exc()
    sys.setrecursionlimit(200000)
    threading.stack_size(900 * 1024 * 1024)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    if 'e' in out:
        raise RuntimeError(out['e'])
    return out['r']


def worker(job):
    prop, tier, idxs, seed, budget, deadline = job
    from . import scenario as SC
    from .interp import parse_file

    def go():
        mod = importlib.import_module('sa.checks.' + prop.lower())
        obs = list(mod.obligations(tier))
        res = []
        for i in idxs:
            name, fn = obs[i][:2]
            opts = obs[i][2] if len(obs[i]) > 2 else {}
            if time.time() > deadline:
                r = SC.Result(name)
                r.status, r.detail = 'undecided', 'time limit of the whole check'
                res.append((i, r.to_json()))
                continue
            try:
                r = SC.explore(name, fn, root=ROOT, seed=seed, budget=budget, deadline=deadline, **opts)
            except Exception:
                import traceback
                r = SC.Result(name)
                r.status = 'undecided'
                r.detail = 'analyser error: ' + traceback.format_exc(limit=-3)
            res.append((i, r.to_json()))
        return res, sorted(SC.REACHED), sorted(SC.LINES)
    return bigstack(go)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--ob', default=None)
    ap.add_argument('-j', type=int, default=0)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--first', action='store_true', help='stop after the first violation (development)')
    a = ap.parse_args(argv)
    for f in (sys.stdout, sys.stderr):
        f.reconfigure(errors='backslashreplace')
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('sa.checks.' + a.prop.lower())
    obs = list(mod.obligations(a.tier))
    idx = [i for i, o in enumerate(obs) if a.ob is None or a.ob in o[0]]
    nproc = a.j or min(8, os.cpu_count() or 1)
    budget = 60.0 if a.tier == 'quick' else 240.0
    # interleave so that neighbours (usually similar cost) spread over workers
    chunks = [idx[k::nproc * 4] for k in range(nproc * 4)]
    if a.first:
        chunks = [idx[k::max(1, len(idx) // 4)] for k in range(max(1, len(idx) // 4))]
    jobs = [(a.prop, a.tier, c, seed, budget, t0 + (600 if a.tier == 'quick' else 840)) for c in chunks if c]
    results = {}
    reached, lines = set(), set()
    if nproc == 1:
        outs = map(worker, jobs)
    else:
        pool = multiprocessing.get_context('fork').Pool(nproc, maxtasksperchild=8)
        outs = pool.imap_unordered(worker, jobs)
    errors = []
    try:
        for res, rch, lns in outs:
            results.update(dict(res))
            reached.update(map(tuple, rch))
            lines.update(map(tuple, lns))
            if a.first and any(r['status'] == 'violation' for _, r in res):
                break
    except RuntimeError as e:
        errors.append(str(e))
    res = [results[i] for i in idx if i in results]
    return report(a, mod, res, reached, lines, errors, time.time() - t0)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p))['findings']:
            if e['property'] == prop:
                out.append(e)
    return out


def tree_digest():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(ROOT, 'sqlpuzzle'))):
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def report(a, mod, res, reached, lines, errors, seconds):
    prop = a.prop.upper()
    by = {}
    for r in res:
        by.setdefault(r['status'], []).append(r)
    viol = by.get('violation', [])
    known = known_findings(prop)
    fresh, listed = [], []
    for r in viol:
        k = [e for e in known if e['obligation'] == r['obligation'] and e['witness'] == r.get('witness')]
        (listed if k else fresh).append(r)
    for r in listed:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, r['obligation'], r['detail']))
    total = len(res)
    decided = len(by.get('ok', [])) + len(viol)
    parts = sum(r['partitions'] for r in res)
    funcs = sorted('%s:%s' % (m, q) for m, q in reached)
    und = by.get('undecided', [])
    samples = [dict(r) for r in (viol[:3] + und[:3] + res[:2] + res[len(res) // 2:len(res) // 2 + 2] + res[-2:])]
    ev = {
        'property': prop,
        'tier': a.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'Abstract interpretation of the source under %s/sqlpuzzle (parsed anew, never imported or executed by Python): '
                           'each obligation drives the public API over abstract inputs and compares the resulting text shapes / outcomes '
                           'with the specification in every partition of the abstract state.' % ROOT,
            'rule': (mod.__doc__ or '').strip(),
            'obligations': total,
            'discharged': len(by.get('ok', [])),
            'undecided': len(und),
            'vacuous': len(by.get('vacuous', [])),
            'partitions': parts,
            'functions_analysed': funcs,
            'source_lines_analysed': len(lines),
            'source_digest': tree_digest(),
            'undecided_obligations': [{'obligation': r['obligation'], 'why': r['detail']} for r in und][:40],
            'violated_obligations': viol[:20],
            'known_findings': [r['obligation'] for r in listed],
            'samples': samples,
        },
        'assumptions': ['the models of the Python builtins and standard library in sa/stubs.py, sa/lib.py, sa/strlib.py, sa/relib.py agree with CPython',
                        'string inputs are str instances (no str subclasses overriding methods)'],
        'wall_s': round(seconds, 2),
        'violations': len(fresh),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    write_evidence(prop, a, ev, res)
    if a.v:
        for r in sorted(res, key=lambda r: -r['seconds'])[:15]:
            print('%7.2fs %4d partitions  %s' % (r['seconds'], r['partitions'], r['obligation']))
    for r in by.get('undecided', [])[:20]:
        print('undecided: %s: %s' % (r['obligation'], r['detail'][:600]), file=sys.stderr)
    for r in by.get('vacuous', []):
        print('vacuous: %s' % r['obligation'], file=sys.stderr)
    for r in by.get('load', [])[:1]:
        print('cannot analyse the package: %s' % r['detail'], file=sys.stderr)
    for e in errors:
        print('analyser error: %s' % e, file=sys.stderr)
    print('%s: %d obligations, %d decided, %d violated, %d undecided, %d partitions, %d functions, %.1f s' % (
        prop, total, decided, len(viol), len(by.get('undecided', [])), parts, len(funcs), seconds))
    if fresh:
        for n, r in enumerate(fresh[:10]):
            path = os.path.join(HERE, 'evidence', '%s-violation-%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'obligation': r['obligation'], 'what': r['detail'], 'witness': r.get('witness'),
                           'decisions': r.get('where'),
                           'replay': 'cd %s && python3 -m sa.run %s --tier %s --ob %r -j 1' % (HERE, prop, a.tier, r['obligation'])}, f, indent=1)
            print('  %s\n    %s\n    witness %s' % (r['obligation'], r['detail'], r.get('witness')))
            for w in r.get('where', []):
                print('    via %s' % w)
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors or not decided:
        return 3
    return 0


def write_evidence(prop, a, ev, res):
    if a.ob:
        return
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    sys.exit(main())
